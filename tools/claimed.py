CLAIMED = {
 "P02": ("exploration", "bounded exhaustive enumeration of stored values, alone and in pairs, executed on the real reader, writer, extraction and assembly; every leaf of the model and of the extracted files compared",
   "every record of every item type, drag point, header, material, probe, image, sound, font, collection and table information x value menu, and pairs of records, against a pinned assignment of records to fields"),
 "P20": ("exploration", "bounded exhaustive enumeration of item configurations, every produced mesh checked for well-formedness and position",
   "every kind with geometry x its settings, outlines on a grid, degenerate, far away and non-finite values, several tables; stored item values decoded independently"),
 "P01": ("exploration", "bounded exhaustive enumeration of stored tables executed on the real reader/writer",
   "every single-record deviation from base records for every item type, version and value menu; every presence pattern; sequences of components"),
 "P03": ("exploration", "bounded exhaustive enumeration of stored tables, each extracted and assembled by the real code on the in-memory file system",
   "every single-record deviation of every item, header, image, sound, font, collection, material, in all three mesh formats, compared with an independent decoder of mesh and bitmap payloads"),
 "P08": ("exploration", "bounded exhaustive enumeration of byte sequences and of conforming encoder behaviours against an independent LZW machine",
   "all sequences up to a length over small alphabets plus every code-width and table-full boundary"),
 "P13": ("fault_enumeration", "exhaustive enumeration of crash points, torn writes and failing calls of the real compaction, by interposing the C library",
   "disk state examined before every call that changes something and at prefixes of every write; every call failing once and from then on; metadata of every entry compared"),
 "P14": ("fault_enumeration", "exhaustive enumeration of single and persistent failures of every file-system operation of the real code",
   "every operation of extraction, assembly, exports and every table-file call fails in turn, by position and by path"),
 "P17": ("model_checking", "exhaustive enumeration of operation sequences on both file systems of the real code, compared step by step",
   "all operation sequences on two files up to the depth, clones interleaved; whole tables extracted/assembled on both, with every file missing, empty or cut"),
 "P18": ("exploration", "exhaustive enumeration of item lists up to a depth against the definition of a broken reference",
   "all lists up to depth 5 (quick) / 7 (thorough) over an 8-letter alphabet, every item kind and pair of kinds"),
 "P25": ("exploration", "exhaustive enumeration of stored reference/visibility/editor record combinations for every item kind",
   "full products over each kind's reference records and over visibility x lock x layer x group"),
 "P10": ("model_checking", "exhaustive exploration of operation histories on real table files, the integrity hash recomputed by an independent implementation in every state",
   "every history of library operations up to a depth from several start files, plus depth-1 from every shape of table"),
 "P12": ("model_checking", "exhaustive exploration of lock/unlock/modify/reopen histories on real table files against a two-state model",
   "every history up to the depth; after each step every stream compared with what the model allows to change"),
 "P15": ("model_checking", "exhaustive exploration of extract/import/edit histories on real directories against an abstract model",
   "every history up to the depth over scripts of all encodings, line ends and lengths; all other streams compared"),
 "P19": ("model_checking", "exhaustive exploration of table editing histories on real table files against an abstract model of the components",
   "every history of edits up to the depth from several start tables; the file decoded independently after each step"),
 "P11": ("model_checking", "exhaustive enumeration of tamperings, rearrangements and tamper/restore histories of real table files against an independent implementation of the protected content",
   "every byte and record of every protected stream changed, removed, repeated, exchanged; every unprotected stream likewise; container layouts; histories to a depth"),
 "P24": ("fault_enumeration", "exhaustive enumeration of environment answers (short and interrupted transfers) to every transfer of the real code",
   "every transfer short at several sizes, every second one interrupted, every single one short or interrupted; generic handles, file systems, and the C library's calls"),
 "P22": ("exploration", "exhaustive enumeration of scalar domains and of stored scalar values, executed on the real conversions, reader, writer, extraction and assembly",
   "direct conversions over whole domains; every 32-bit record of every layout with ~500 raw values through file and JSON; every JSON leaf replaced by unknown values"),
 "P23": ("exploration", "bounded exhaustive enumeration of record rearrangements executed on the real reader/writer",
   "every move, exchange, rotation, omission and unknown record at every position of every record layout; expected values from a table of defaults"),
 "P04": ("exploration", "exhaustive enumeration of path-significant strings in every naming position, every file-system call of the real extraction recorded",
   "all strings of up to 3/4 fragments in every string record and name/path position, alone, in pairs and everywhere; every created path judged lexically"),
 "P05": ("exploration", "exhaustive enumeration of tuples of colliding and hostile names, extracted to a strict case-insensitive file system and assembled by the real code",
   "all pairs of names, all tuples of the most collision-prone names, for every kind of component; all streams must come back"),
 "P16": ("model_checking", "stateless exploration of the real parallel extraction under a controlled scheduler: every order of the file operations of different items up to a preemption bound, every failing operation",
   "all schedules of small tables, preemption-bounded ones of larger tables, every operation delayed or failing, every item count x worker count"),
 "P26": ("exploration", "bounded exhaustive enumeration of tables and options executed on the real listing and extraction",
   "every component kind, format and option alone and together; the listing equals the files of the extraction in memory and on disk"),
 "P09": ("exploration", "exhaustive enumeration of wave formats, sizes and header fields executed on the real extraction and assembly, judged by an own RIFF reader",
   "every header field over its menu and in pairs, every data length, through extraction, assembly and the sound reader/writer"),
 "P07": ("exploration", "exhaustive enumeration of small pictures executed on the real conversions, judged by own LZW/BMP/PNG readers",
   "every small picture over a palette, every size and channel value, every PNG colour type, through extraction, assembly and WebP conversion"),
 "P06": ("exploration", "exhaustive enumeration of mesh values, sizes and frame counts executed on the real mesh writers and readers, judged by own OBJ/glTF readers",
   "every special float at every vertex component, every count around the index-width limits, every animation-frame shape, in all three formats"),
 "P21": ("exploration", "exhaustive enumeration of scenes over item kinds, discrete settings, names, materials, images, units and options executed on the real exporters, judged by own strict glTF/GLB/OBJ/MTL readers",
   "every setting of every kind, ordered pairs (thorough: triples) of kinds, equal names, layers, surfaces, outlines, output paths, transforms; formats and units compared value by value"),
}
NA = {}
