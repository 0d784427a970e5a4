#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "Reading a table file and writing it again loses nothing",
  "Opening any well-formed table file and writing it back yields a file whose every stream (table header, every game item of every type, images, sounds, fonts, collections, table info, custom tags, script) is byte-for-byte the one that was read, and reading that file again gives an equal table. "
  "This holds for every record value, every supported file version, every presence or absence of optional records, and every number and order of components.",
  ["inputs", "configurations"],
  "all record layouts x value menus per record x optional-record subsets x file versions x component counts",
  "Unit tests round-trip a handful of fake structs per type through the same code; a field read and written with the same wrong tag, an optional record, a version branch or an extreme value is not sampled, and the container level is tested with two files.",
  ["src/vpx/mod.rs", "src/vpx/biff.rs", "src/vpx/gamedata.rs", "src/vpx/gameitem.rs", "src/vpx/gameitem/", "src/vpx/image.rs", "src/vpx/sound.rs", "src/vpx/font.rs", "src/vpx/collection.rs", "src/vpx/tableinfo.rs", "src/vpx/custominfotags.rs", "src/vpx/material.rs", "src/vpx/renderprobe.rs"],
  [("BIFF record reader/writer", "src/vpx/biff.rs"), ("container read/write", "src/vpx/mod.rs: read_vpx, write_vpx"), ("per-type BiffRead/BiffWrite", "src/vpx/gameitem/*.rs"), ("version-dependent header layout", "src/vpx/gamedata.rs"), ("version-dependent sound layout", "src/vpx/sound.rs")],
  observe=["vpin::vpx::from_bytes", "vpin::vpx::to_bytes"])

p("P02", "Each stored value surfaces under its own meaning and nowhere else",
  "Every value stored in a table file appears in the in-memory and JSON model under the one field that the file format assigns to it, with the documented interpretation (colour channels, percentages, enumerations, text encodings), and changing only that stored value changes only that field. "
  "Conversely a model that differs in one field is written to a file that differs only in the corresponding record.",
  ["inputs"],
  "every record of every item type, header, material, probe, image, sound, font and collection x value menu, one deviation at a time from a base in which all values are distinct",
  "Round-trip tests cannot see two fields swapped consistently on read and write, or a record bound to the wrong field; tests assert very few field values individually.",
  ["src/vpx/gamedata.rs", "src/vpx/gameitem/", "src/vpx/jsonmodel.rs", "src/vpx/image.rs", "src/vpx/sound.rs", "src/vpx/font.rs", "src/vpx/material.rs", "src/vpx/renderprobe.rs", "src/vpx/collection.rs", "src/vpx/tableinfo.rs", "src/vpx/color.rs"],
  [("record tag to field match arms", "src/vpx/gameitem/*.rs biff_read/biff_write"), ("JSON mirrors", "src/vpx/*.rs *Json structs and From impls")],
  observe=["vpin::vpx::from_bytes", "serde_json of GameItemEnum", "vpin::vpx::expanded::write_fs"])

p("P03", "Extracting a table to a directory and assembling it again loses nothing",
  "Extracting any representable table to a directory and assembling that directory yields a table whose written file is stream-for-stream byte-identical to the original table's written file (compressed mesh and bitmap payloads compared by the data they decompress to). "
  "This holds for every item type, every field value, every optional field, every file version, images, sounds, fonts, collections, table info, materials, render probes and script, in each of the mesh formats, and extracting the assembled table again gives the same directory contents.",
  ["inputs", "configurations"],
  "all record layouts x value menus x optional subsets x versions x mesh formats x component kinds",
  "Existing tests extract a few fake tables (some need a private table collection); most fields, optional combinations and versions never take the JSON path.",
  ["src/vpx/expanded/", "src/vpx/jsonmodel.rs", "src/vpx/json.rs", "src/vpx/gamedata.rs", "src/vpx/gameitem/"],
  [("extract", "src/vpx/expanded/mod.rs: write_fs"), ("assemble", "src/vpx/expanded/mod.rs: read_fs"), ("fields stored outside the item JSON", "src/vpx/expanded/gameitems.rs"), ("legacy and new material files", "src/vpx/expanded/materials.rs")],
  observe=["vpin::vpx::expanded::{write_fs,read_fs}"])

p("P04", "Extraction writes only inside the target directory",
  "Whatever names, paths and file-extension strings a table contains, extracting it creates or overwrites files only inside the directory the user asked for, and only under the documented layout of that directory.",
  ["inputs"],
  "all strings up to a bound over an alphabet of path-significant fragments in every name/path/extension position of every named component, singly and in colliding pairs",
  "Tests use benign names; no test feeds path separators, parent references, absolute paths or control characters through each naming position.",
  ["src/vpx/expanded/gameitems.rs", "src/vpx/expanded/images.rs", "src/vpx/expanded/sounds.rs", "src/vpx/expanded/fonts.rs", "src/vpx/expanded/primitives.rs", "src/vpx/expanded/util.rs", "src/vpx/image.rs", "src/vpx/sound.rs", "src/vpx/font.rs"],
  [("filename sanitising", "src/vpx/expanded/util.rs: sanitize_filename; src/vpx/expanded/gameitems.rs"), ("extension derivation", "src/vpx/image.rs, sound.rs, font.rs: ext")],
  observe=["FileSystem calls made by vpin::vpx::expanded::write_fs (recording file system)"])

p("P05", "Components with equal or hostile names all survive extraction, in order",
  "Any number of items, images, sounds or fonts whose names are equal, differ only in case, become equal after file-name sanitising, collide with a generated suffix, are empty or contain characters a file system cannot hold are extracted to distinct files (also distinct on a case-insensitive file system) and all come back on assembly with their original names, contents and order.",
  ["inputs"],
  "all ordered tuples up to a bound over a collision alphabet of names, for each kind of component",
  "Tests cover one duplicate-name case per component; collisions between generated names and real names, and cross-case collisions, need specific multi-component inputs.",
  ["src/vpx/expanded/gameitems.rs", "src/vpx/expanded/images.rs", "src/vpx/expanded/sounds.rs", "src/vpx/expanded/fonts.rs"],
  [("file name generation with duplicate counters", "src/vpx/expanded/gameitems.rs: FileNameGen"), ("name_dedup handling", "src/vpx/expanded/images.rs, sounds.rs")],
  observe=["vpin::vpx::expanded::{write_fs,read_fs}"])

p("P06", "Primitive meshes survive every mesh file format bit-exactly",
  "The vertices (positions, normals, texture coordinates), triangle indices and animation frames of a primitive extracted as OBJ, binary glTF or text glTF come back bit-for-bit on assembly, for every vertex and face count on either side of the index-width limit and every 32-bit value a coordinate may hold. "
  "The extracted file itself contains that mesh, correctly oriented, for other tools to read.",
  ["inputs", "configurations"],
  "all mesh shapes from a generator of small topologies and index-width boundary sizes x coordinate values from a bit-pattern menu in every position x 3 formats x frame counts",
  "Tests use one or two fixed meshes with tame floats in one format at a time.",
  ["src/vpx/expanded/primitives.rs", "src/vpx/obj.rs", "src/vpx/gltf.rs", "src/gltf.rs", "src/vpx/gameitem/primitive.rs", "src/vpx/gameitem/vertex3d.rs"],
  [("mesh decode", "src/vpx/gameitem/primitive.rs: read_mesh"), ("mesh write/read", "src/vpx/obj.rs, src/vpx/gltf.rs"), ("recompression", "src/vpx/expanded/primitives.rs")],
  observe=["vpin::vpx::expanded::{write_fs,read_fs}"])

p("P07", "Bitmap extraction and WebP conversion never change a pixel",
  "A legacy bitmap stored in a table is extracted to an image file whose pixels equal the stored ones, assembling it gives back the stored bitmap, and the in-place WebP conversion replaces every bitmap and PNG image by a WebP image with identical pixels while leaving every other image and all image metadata untouched.",
  ["inputs"],
  "all bitmap dimensions up to a bound x all pixel assignments over a small channel alphabet (incl. every alpha pattern) x image kind mixes",
  "Tests convert one image; alpha detection, channel order, odd widths and mixed image lists are not enumerated.",
  ["src/vpx/image.rs", "src/vpx/expanded/images.rs", "src/vpx/mod.rs", "src/vpx/lzw.rs"],
  [("pixel conversion", "src/vpx/image.rs: vpx_image_to_dynamic_image, swap_red_and_blue"), ("bmp extraction", "src/vpx/expanded/images.rs: write_image_bmp, read_image_bmp"), ("conversion", "src/vpx/mod.rs: images_to_webp")],
  observe=["vpin::vpx::expanded::{write_fs,read_fs}", "VpxFile::images_to_webp"])

p("P08", "Compressed bitmap data round-trips exactly",
  "Decompressing the compressed form of any byte sequence gives that byte sequence, the compressed form is well framed, and decompressing any compressed stream produced by another conforming encoder gives the bytes it encodes.",
  ["inputs"],
  "all byte strings up to a length over a small alphabet plus all run/boundary shapes around code-width changes, dictionary resets and frame size limits, against an independent codec",
  "Tests use one raw file and random data; code-width and frame boundaries depend on exact input lengths.",
  ["src/vpx/lzw.rs"],
  [("LZW + 255-byte frames", "src/vpx/lzw.rs: to_lzw_blocks, from_lzw_blocks")],
  observe=["vpin::vpx::lzw::{to_lzw_blocks,from_lzw_blocks}"])

p("P09", "Sound files survive extraction and are valid playable files",
  "Any sound stored in a table is extracted to a file that a standard player accepts (for PCM waves: a RIFF/WAVE file whose header states exactly the stored format and whose data is exactly the stored samples; otherwise the stored bytes) and assembling restores every stored byte and setting of that sound.",
  ["inputs"],
  "all combinations of wave header field menus x data lengths x name/path extension shapes x output settings x file versions",
  "Tests cover one wave header and one external file; header arithmetic, non-PCM formats and version-dependent settings are not enumerated.",
  ["src/vpx/sound.rs", "src/vpx/wav.rs", "src/vpx/expanded/sounds.rs"],
  [("wave header codec", "src/vpx/wav.rs"), ("sound stream codec", "src/vpx/sound.rs: read, write"), ("file form", "src/vpx/sound.rs: write_sound, read_sound")],
  observe=["vpin::vpx::sound::{write_sound,read_sound}", "vpin::vpx::expanded::{write_fs,read_fs}"])

p("P10", "Every file the library writes carries the integrity hash its contents require",
  "After any sequence of library operations that create or modify a table file (create, write, save header, lock, unlock, import script, convert images, compact), the stored integrity hash equals the hash an independent implementation of the file format computes over the file's current contents, and verification succeeds.",
  ["histories", "inputs"],
  "all operation sequences up to a depth over all modifying operations from several initial tables, and all contents of hashed parts up to a bound",
  "Tests check the hash of two files after one operation each; the hash covers a subset of streams in a fixed order and operations must refresh it in every history.",
  ["src/vpx/mod.rs"],
  [("hash computation", "src/vpx/mod.rs: generate_mac"), ("refresh after modification", "src/vpx/mod.rs: write_vpx, write_gamedata, importvbs, images_to_webp")],
  state=[("MAC stream", "stored integrity hash", "GameStg/MAC")],
  observe=["vpin::vpx::verify", "GameStg/MAC stream"])

p("P11", "Verification detects tampering with every protected part and ignores the rest",
  "Verification of a table file fails after any change to a protected part (version, table name, author, table version, release date, contact, site, blurb, description, rules, screenshot, custom tags and their values, header records, script, collections) and keeps succeeding after changes confined to unprotected parts (items, images, sounds, fonts, save date and revision, file layout).",
  ["inputs", "fault_sequences"],
  "every single-byte substitution, truncation, extension, removal and swap in every stream of several tables, classified by an independent definition of what is protected",
  "Tests verify intact files and one empty file only.",
  ["src/vpx/mod.rs"],
  [("hashed structure table", "src/vpx/mod.rs: generate_mac"), ("comparison", "src/vpx/mod.rs: verify, read_mac")],
  observe=["vpin::vpx::verify"])

p("P12", "Locking and unlocking follow a strict two-state protocol",
  "A table file is reported locked exactly when the last effective lock/unlock left it so; locking a locked or unlocking an unlocked file reports no change and leaves the file untouched, while an effective call reports a change, flips the state, and alters nothing but the lock record and the integrity hash, in every sequence of calls and reopenings and interleaved with any other modification.",
  ["histories"],
  "all states reachable by lock, unlock, query, reopen, header save, script import from every initial lock value (absent, 0..3, limits)",
  "One test does lock-unlock once from an absent lock.",
  ["src/vpx/mod.rs", "src/vpx/gamedata.rs"],
  [("lock counter", "src/vpx/mod.rs: is_locked, lock, unlock")],
  state=[("locked", "parity of the stored counter", "src/vpx/gamedata.rs")],
  observe=["VpxFile::{is_locked,lock,unlock}"])

p("P13", "Compacting preserves the table and no crash point loses it",
  "Compacting a table file keeps every stream, storage and metadata that was in it, never makes verification results change, and if the process dies at any step, or any step fails, a complete copy of the table (old or compacted) is present on disk under the original or the temporary name.",
  ["crash_points", "fault_sequences", "inputs"],
  "all tables from a family with deleted/rewritten streams x every system-call prefix of the compaction x every single injected failure",
  "One test compacts one file successfully; no test interrupts it or injects failures.",
  ["src/vpx/mod.rs"],
  [("copy then replace", "src/vpx/mod.rs: compact, compact_cfb")],
  observe=["directory contents after every interrupted run", "vpin::vpx::compact"])

p("P14", "A failed disk operation is reported, never silently swallowed",
  "If any file-system operation fails while extracting, assembling, reading, or writing a table, the call returns an error instead of reporting success, so a successful return implies the output is complete and readable back as the same table.",
  ["fault_sequences"],
  "every single failing file-system operation (create, write at every call, flush, open, read, directory creation, metadata) of every extract/assemble/write/read scenario",
  "No test injects I/O faults; parallel writing and buffered writers make swallowed errors easy to miss.",
  ["src/vpx/expanded/", "src/filesystem.rs", "src/vpx/mod.rs"],
  [("error propagation", "src/vpx/expanded/*.rs, src/vpx/mod.rs: write")],
  observe=["results of expanded::{write_fs,read_fs}, vpx::{read,write}, VpxFile operations under fault injection"])

p("P15", "Scripts are extracted and imported without altering anything else",
  "Extracting the script of a table writes exactly the stored script to the documented location, importing a script makes exactly that text the stored script and leaves every other stream of the file unchanged, the integrity hash is refreshed, an existing script file is overwritten only when asked, and any interleaving of extract, import and edit ends with the text last imported.",
  ["inputs", "histories"],
  "all scripts up to a bound over an alphabet of line endings, quotes, control characters, non-ASCII in both encodings and byte-order marks (scripts as a table stores them: text without NUL) x file name shapes x overwrite/path options x operation sequences",
  "Tests cover an empty file error and a plain script.",
  ["src/vpx/mod.rs", "src/vpx/gamedata.rs", "src/vpx/model.rs"],
  [("extract/import", "src/vpx/mod.rs: extractvbs, importvbs, extract_script, vbs_path_for"), ("code record", "src/vpx/gamedata.rs CODE"), ("string with encoding", "src/vpx/model.rs")],
  observe=["vpin::vpx::{extractvbs,importvbs}"])

p("P16", "Parallel extraction and assembly behave as if sequential",
  "Extracting and assembling give the same files, the same table and the same success or failure regardless of the number of worker threads and of the order in which parallel work is executed, and repeated runs are identical.",
  ["schedules"],
  "all orders in which the parallel per-item file operations of small tables can reach the file system, for 1..N workers",
  "Tests run one uncontrolled schedule on one machine.",
  ["src/vpx/expanded/gameitems.rs", "src/vpx/expanded/images.rs", "src/filesystem.rs"],
  [("parallel iteration over items and images", "src/vpx/expanded/gameitems.rs, images.rs (rayon)"), ("shared file system", "src/filesystem.rs")],
  observe=["files and results of expanded::{write_fs,read_fs} under a scheduling file system"])

p("P17", "The in-memory file system behaves like the real one",
  "Any sequence of operations on the in-memory file system gives the same results (success or missing file, file contents, existence, sizes) as the same sequence on a real directory (canonical paths, parent directories created first, no file used while a writer still holds unflushed data), so a table extracted in memory is the table extracted to disk and assembles the same.",
  ["histories"],
  "all operation sequences up to a depth over create/write/flush/drop/open/read/exists/size/mkdir on a colliding set of paths, and full extraction/assembly of the table corpus on both",
  "Tests exercise each file-system method once or not at all.",
  ["src/filesystem.rs"],
  [("FileSystem implementations", "src/filesystem.rs")],
  observe=["vpin::filesystem::{MemoryFileSystem,RealFileSystem}"])

p("P18", "Group order validation reports exactly the broken group references",
  "For any list of items, order validation reports a problem for exactly those items whose group is missing or defined after its first use, each with the right item and group, and reports nothing for any valid list.",
  ["inputs"],
  "all item lists up to a bound over an alphabet of groups, members, missing and empty group names, duplicates and case variants",
  "Tests cover a few hand-made lists.",
  ["src/vpx/gameitem.rs"],
  [("order validation", "src/vpx/gameitem.rs: validate_part_group_order")],
  observe=["vpin::vpx::gameitem::validate_part_group_order"])

p("P19", "Editing a table through the API keeps the file's bookkeeping consistent",
  "After any sequence of table edits (adding items, adding or replacing images, setting the script, saving the header, converting) the written file contains exactly the edited components in order, the component counts in the header match the streams present, and replacing an image by name replaces that one image and no other.",
  ["histories"],
  "all edit sequences up to a depth over items of several types, image names colliding exactly / by case / not, and scripts, followed by write and read",
  "Tests add one item and one image.",
  ["src/vpx/mod.rs"],
  [("edit API", "src/vpx/mod.rs: add_game_item, add_or_replace_image, set_script"), ("counts", "src/vpx/gamedata.rs: gameitems_size, images_size, ...")],
  state=[("component counts", "must equal the number of streams", "src/vpx/gamedata.rs")],
  observe=["vpin::vpx::VPX methods, to_bytes"])

p("P20", "Generated meshes are well-formed for every item configuration",
  "For every item of every kind that has generated geometry, the mesh produced has only finite coordinates, in-range triangle indices, unit normals, no empty result for a renderable item, and extents that agree with the item's stored position and dimensions, for stored values of a magnitude up to 10000. Whatever larger, degenerate or non-finite values are stored, generating the meshes neither crashes nor hangs.",
  ["inputs", "configurations"],
  "all combinations of discrete type/flag fields x small menus of dimension fields x drag point shapes for every meshed item kind",
  "Tests build a few meshes with default settings.",
  ["src/vpx/mesh/", "src/vpx/expanded/primitives.rs"],
  [("mesh builders", "src/vpx/mesh/*")],
  observe=["expanded::write_fs with derived meshes", "vpin::vpx::mesh public builders"])

p("P21", "Scene exports are valid files that contain the table's geometry",
  "Exporting a table as a glTF, binary glTF or OBJ scene produces a structurally valid file (all references, index ranges, buffer ranges, alignments and declared bounds consistent with the binary data, all texture and material references resolvable) that contains one object for each renderable item under its own layer and with its own data (items sharing a name stay apart), none for invisible items unless requested, the lights and cameras, and the same geometry in each format and unit; the image and the material an item refers to, whatever the letter case, are the ones its object shows. The OBJ export follows VPinball's own: no flashers, lights, decals and balls, and flippers, gates, spinners and hit targets whether visible or not.",
  ["inputs", "configurations"],
  "all tables with up to a bounded number of items over all item kinds x visibility x texture/material reference cases x formats x units x options",
  "Tests export a few tables and check for the presence of substrings.",
  ["src/vpx/export/gltf_export.rs", "src/vpx/export/obj_export.rs", "src/vpx/export/camera.rs", "src/vpx/units.rs"],
  [("glTF export", "src/vpx/export/gltf_export.rs: export_gltf"), ("OBJ export", "src/vpx/export/obj_export.rs: export_obj"), ("cameras", "src/vpx/export/camera.rs")],
  observe=["files written by export_gltf/export_obj"])

p("P22", "Scalar conversions are exact inverses over their whole domain",
  "Every scalar conversion used between file, model and JSON (colours, quantised percentages, version numbers, enumerations, material type codes, non-finite numbers, text encodings) maps every stored value to a model value that converts back to the same stored value, and rejects or preserves values it does not know instead of altering them.",
  ["inputs"],
  "the complete 8-, 16- and (thorough) 24/32-bit domains of each conversion",
  "Tests sample a few points of each conversion.",
  ["src/vpx/color.rs", "src/vpx/math/quantize.rs", "src/vpx/version.rs", "src/vpx/json.rs", "src/vpx/utf16.rs", "src/vpx/biff.rs", "src/vpx/units.rs"],
  [("conversions", "src/vpx/color.rs, math/quantize.rs, version.rs, json.rs, utf16.rs")],
  observe=["public conversion functions; from_bytes/to_bytes; serde_json"])

p("P23", "Unknown, reordered or missing records never corrupt their neighbours",
  "Reading an item, header or other record-based part whose records come in a different order, that contains extra records with unknown tags anywhere, or that lacks optional or required records (older files) gives exactly the values of the records present and the documented defaults for the rest.",
  ["inputs"],
  "every position of an unknown record x every record length menu, every adjacent transposition and rotation, every single omission, for every record layout",
  "Tests never feed unknown or reordered records for most types.",
  ["src/vpx/biff.rs", "src/vpx/gamedata.rs", "src/vpx/gameitem/", "src/vpx/image.rs", "src/vpx/font.rs", "src/vpx/collection.rs"],
  [("unknown tag skipping", "src/vpx/biff.rs: skip_tag, skip_end_tag, next"), ("defaults", "Default impls of the item types")],
  observe=["vpin::vpx::gameitem::read, from_bytes"])

p("P24", "Short reads and writes never change the result",
  "Reading a table through any source and writing through any destination that transfers fewer bytes per call than requested, or is interrupted and retried, gives exactly the same table and file as unrestricted transfers.",
  ["fault_sequences"],
  "every chunk size from 1 upward and every single short/interrupted call position over all read and write paths",
  "Tests use in-memory cursors that always transfer everything.",
  ["src/vpx/mod.rs", "src/vpx/expanded/", "src/filesystem.rs", "src/vpx/tableinfo.rs", "src/vpx/version.rs"],
  [("read_exact/read_to_end/write_all discipline", "src/vpx/mod.rs, src/vpx/expanded/*.rs")],
  observe=["VpxFile over a throttled reader; expanded::{write_fs,read_fs} over a throttled file system"])

p("P25", "Queries about an item answer from that item's own stored fields",
  "For every item of every type, the name, kind, lock state, editor layer, group, visibility, image, material and physics-material queries return exactly the values stored for that item, with empty references left out and none omitted or duplicated.",
  ["inputs"],
  "every item type x every subset of reference fields set/empty x optional fields present/absent",
  "Tests query a few item types with default values.",
  ["src/vpx/gameitem.rs"],
  [("accessors", "src/vpx/gameitem.rs: GameItemEnum methods")],
  observe=["vpin::vpx::gameitem::GameItemEnum methods"])

p("P26", "The reported extraction file list matches what extraction creates",
  "The list of files and directories the library announces for a table's extraction corresponds to what extraction of that table creates, for every combination of components present.",
  ["inputs"],
  "all presence combinations of component kinds and file versions",
  "Not tested systematically.",
  ["src/vpx/expanded/mod.rs"],
  [("listing", "src/vpx/expanded/mod.rs: extract_directory_list")],
  observe=["vpin::vpx::expanded::extract_directory_list"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
