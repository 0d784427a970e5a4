item Wall 0
  HTEV bool req
  DROP bool req
  FLIP bool req
  ISBS bool req
  CLDW bool req
  TMON bool req
  TMIN i32 req
  THRS f32 req
  IMAG str req
  SIMG str req
  SIMA str req
  TOMA str req
  SLMA str req
  HTBT f32 req
  HTTP f32 req
  NAME wstr req
  DSPT bool req
  SLGF f32 req
  SLTH f32 req
  ELAS f32 req
  ELFO f32 opt
  WFCT f32 req
  WSCT f32 req
  VSBL bool req
  SLGA bool req
  SVBL bool req
  DILI q8 opt
  DILT f32 opt
  DILB f32 opt
  REEN bool opt
  MAPH str opt
  OVPH bool opt
  LOCK bool req
  LAYR u32 opt
  LANR str opt
  GRUP str opt
  LVIS bool opt
  PNTS marker req
  DPNT points many
item Flipper 1
  VCEN vec2 req
  BASR f32 req
  ENDR f32 req
  FLPR f32 req
  FRTN f32 req
  ANGS f32 req
  ANGE f32 req
  OVRP u32 req
  FORC f32 req
  TMON bool req
  TMIN i32 req
  SURF str req
  MATR str req
  NAME wstr req
  RUMA str req
  RTHK u32 req
  RTHF f32 opt
  RHGT u32 req
  RHGF f32 opt
  RWDT u32 req
  RWDF f32 opt
  STRG f32 req
  ELAS f32 req
  ELFO f32 req
  FRIC f32 req
  RPUP f32 req
  SCTR f32 opt
  TODA f32 opt
  TDAA f32 opt
  VSBL bool req
  ENBL bool req
  FRMN f32 req
  FHGT f32 req
  IMAG str opt
  REEN bool opt
  LOCK bool req
  LAYR u32 opt
  LANR str opt
  GRUP str opt
  LVIS bool opt
item Timer 2
  VCEN vec2 req
  TMON bool req
  TMIN i32 req
  NAME wstr req
  BGLS bool req
  LOCK bool req
  LAYR u32 opt
  LANR str opt
  GRUP str opt
  LVIS bool opt
item Plunger 3
  VCEN vec2 req
  WDTH f32 req
  HIGH f32 req
  ZADJ f32 req
  HPSL f32 req
  SPDP f32 req
  SPDF f32 req
  TYPE enum:0-3 req
  ANFR u32 req
  MATR str req
  IMAG str req
  MEST f32 req
  MECH bool req
  APLG bool req
  MPRK f32 req
  PSCV f32 req
  MOMX f32 req
  TMON bool req
  TMIN i32 req
  VSBL bool req
  REEN bool opt
  SURF str req
  NAME wstr req
  TIPS str req
  RODD f32 req
  RNGG f32 req
  RNGD f32 req
  RNGW f32 req
  SPRD f32 req
  SPRG f32 req
  SPRL f32 req
  SPRE f32 req
  LOCK bool req
  LAYR u32 opt
  LANR str opt
  GRUP str opt
  LVIS bool opt
item TextBox 4
  VER1 vec2 req
  VER2 vec2 req
  CLRB color req
  CLRF color req
  INSC f32 req
  TEXT str req
  TMON bool req
  TMIN i32 req
  NAME wstr req
  ALGN enum:0-2 req
  TRNS bool req
  IDMD bool opt
  LOCK bool req
  LAYR u32 opt
  LANR str opt
  GRUP str opt
  LVIS bool opt
  FONT font req
item Bumper 5
  VCEN vec2 req
  RADI f32 req
  TMON bool req
  TMIN i32 req
  THRS f32 req
  FORC f32 req
  BSCT f32 opt
  HISC f32 req
  RISP f32 req
  ORIN f32 req
  RDLI f32 opt
  MATR str req
  BAMA str req
  SKMA str req
  RIMA str opt
  SURF str req
  NAME wstr req
  CAVI bool req
  BSVS bool req
  RIVS bool opt
  SKVS bool opt
  HAHE bool opt
  COLI bool opt
  REEN bool opt
  LOCK bool req
  LAYR u32 opt
  LANR str opt
  GRUP str opt
  LVIS bool opt
item Trigger 6
  VCEN vec2 req
  RADI f32 req
  ROTA f32 req
  WITI f32 opt
  SCAX f32 req
  SCAY f32 req
  TMON bool req
  TMIN i32 req
  SURF str req
  MATR str req
  EBLD bool req
  VSBL bool req
  THOT f32 req
  NAME wstr req
  SHAP enum:0-7 req
  ANSP f32 req
  REEN bool opt
  LOCK bool req
  LAYR u32 opt
  LANR str opt
  GRUP str opt
  LVIS bool opt
  DPNT points many
item Light 7
  VCEN vec2 req
  HGHT f32 opt
  RADI f32 req
  FAPO f32 req
  STAT u32 req
  STTF f32 opt
  COLR color req
  COL2 color req
  TMON bool req
  TMIN i32 req
  BPAT str req
  IMG1 str req
  BINT u32 req
  BWTH f32 req
  TRMS f32 req
  SURF str req
  NAME wstr req
  BGLS bool req
  LIDB f32 req
  FASP f32 req
  FASD f32 req
  BULT bool req
  IMMO bool req
  SHBM bool req
  STBM bool opt
  SHRB bool req
  BMSC f32 req
  BMVA f32 req
  BHHI f32 req
  SHDW enum:0-1 opt
  FADE enum:0-2 opt
  VSBL bool opt
  LOCK bool req
  LAYR u32 opt
  LANR str opt
  GRUP str opt
  LVIS bool opt
  DPNT points many
item Kicker 8
  VCEN vec2 req
  RADI f32 req
  TMON bool req
  TMIN i32 req
  MATR str req
  SURF str req
  EBLD bool req
  NAME wstr req
  TYPE enum:0-6 req
  KSCT f32 req
  KHAC f32 req
  KHHI f32 opt
  KORI f32 req
  FATH bool req
  LEMO bool req
  LOCK bool req
  LAYR u32 opt
  LANR str opt
  GRUP str opt
  LVIS bool opt
item Decal 9
  VCEN vec2 req
  WDTH f32 req
  HIGH f32 req
  ROTA f32 req
  IMAG str req
  SURF str req
  NAME wstr req
  TEXT str req
  TYPE enum:0-1 req
  MATR str req
  COLR color req
  SIZE enum:0-2 req
  VERT bool req
  BGLS bool req
  LOCK bool req
  LAYR u32 opt
  LANR str opt
  GRUP str opt
  LVIS bool opt
  FONT font req
item Gate 10
  VCEN vec2 req
  LGTH f32 req
  HGTH f32 req
  ROTA f32 req
  MATR str req
  TMON bool req
  GSUP bool req
  GCOL bool req
  TMIN i32 req
  IMGF str opt
  IMGB str opt
  SURF str req
  ELAS f32 req
  GAMA f32 req
  GAMI f32 req
  GFRC f32 req
  AFRC f32 opt
  GGFC f32 opt
  GVSB bool req
  NAME wstr req
  TWWA bool req
  REEN bool opt
  GATY enum:0-6 opt
  LOCK bool req
  LAYR u32 opt
  LANR str opt
  GRUP str opt
  LVIS bool opt
item Spinner 11
  VCEN vec2 req
  ROTA f32 req
  TMON bool req
  TMIN i32 req
  HIGH f32 req
  LGTH f32 req
  AFRC f32 req
  SMAX f32 req
  SMIN f32 req
  SELA f32 req
  SVIS bool req
  SSUP bool req
  MATR str req
  IMGF str req
  SURF str req
  NAME wstr req
  REEN bool opt
  LOCK bool req
  LAYR u32 opt
  LANR str opt
  GRUP str opt
  LVIS bool opt
item Ramp 12
  HTBT f32 req
  HTTP f32 req
  WDBT f32 req
  WDTP f32 req
  MATR str req
  TMON bool req
  TMIN i32 req
  TYPE enum:0-5 req
  NAME wstr req
  IMAG str req
  ALGN enum:0-2 req
  IMGW bool req
  WLHL f32 req
  WLHR f32 req
  WVHL f32 req
  WVHR f32 req
  HTEV bool opt
  THRS f32 opt
  ELAS f32 req
  RFCT f32 req
  RSCT f32 req
  CLDR bool req
  RVIS bool req
  RADB f32 req
  RADI f32 req
  RADX f32 req
  RADY f32 req
  REEN bool opt
  MAPH str opt
  OVPH bool opt
  LOCK bool req
  LAYR u32 opt
  LANR str opt
  GRUP str opt
  LVIS bool opt
  PNTS marker req
  DPNT points many
item Reel 17
  VER1 vec2 req
  VER2 vec2 req
  CLRB color req
  TMON bool req
  TMIN i32 req
  TRNS bool req
  IMAG str req
  SOUN str req
  NAME wstr req
  WDTH f32 req
  HIGH f32 req
  RCNT f32 req
  RSPC f32 req
  MSTP f32 req
  RANG f32 req
  UPTM u32 req
  UGRD bool req
  VISI bool req
  GIPR u32 req
  LOCK bool req
  LAYR u32 opt
  LANR str opt
  GRUP str opt
  LVIS bool opt
item LightSequencer 18
  VCEN vec2 req
  COLC wstr req
  CTRX f32 req
  CTRY f32 req
  UPTM u32 req
  TMON bool req
  TMIN i32 req
  NAME wstr req
  BGLS bool req
  LOCK bool req
  GRUP str opt
  LAYR u32 opt
  LANR str opt
  LVIS bool opt
item Primitive 19
  VPOS vec3p req
  VSIZ vec3p req
  RTV0 f32 req
  RTV1 f32 req
  RTV2 f32 req
  RTV3 f32 req
  RTV4 f32 req
  RTV5 f32 req
  RTV6 f32 req
  RTV7 f32 req
  RTV8 f32 req
  IMAG str req
  NRMA str opt
  SIDS u32 req
  NAME wstr req
  MATR str req
  SCOL color req
  TVIS bool req
  DTXI bool req
  HTEV bool req
  THRS f32 req
  ELAS f32 req
  ELFO f32 req
  RFCT f32 req
  RSCT f32 req
  EFUI f32 req
  CORF f32 opt
  CLDR bool req
  ISTO bool req
  U3DM bool req
  STRE bool req
  DILI q8 opt
  DILT f32 opt
  DILB f32 opt
  REEN bool opt
  EBFC bool opt
  MAPH str opt
  OVPH bool opt
  DIPT bool opt
  OSNM bool opt
  BMIN vec3 opt
  BMAX vec3 opt
  M3DN str opt
  M3VN u32 opt
  M3CY u32 opt
  M3CX bytes opt
  M3FN u32 opt
  M3CJ u32 opt
  M3CI bytes opt
  M3AY anim many
  PIDB f32 req
  ADDB bool opt
  ZMSK bool opt
  FALP f32 opt
  COLR color opt
  LMAP str opt
  REFL str opt
  RSTR f32 opt
  REFR str opt
  RTHI f32 opt
  LOCK bool req
  LAYR u32 opt
  LANR str opt
  GRUP str opt
  LVIS bool opt
item Flasher 20
  FHEI f32 req
  FLAX f32 req
  FLAY f32 req
  FROX f32 req
  FROY f32 req
  FROZ f32 req
  COLR color req
  TMON bool req
  TMIN i32 req
  NAME wstr req
  IMAG str req
  IMAB str req
  FALP i32 req
  MOVA f32 req
  FVIS bool req
  DSPT bool req
  ADDB bool req
  IDMD bool opt
  RDMD enum:0-4 opt
  RSTL u32 opt
  GRGH f32 opt
  GAMB u32 opt
  GTOP f32 opt
  GBOT f32 opt
  GLFT f32 opt
  GRHT f32 opt
  LINK str opt
  FLDB f32 req
  ALGN enum:0-2 req
  FILT enum:0-4 req
  FIAM u32 req
  LMAP str opt
  BGLS bool opt
  LOCK bool req
  LAYR u32 opt
  LANR str opt
  GRUP str opt
  LVIS bool opt
  DPNT points many
item Rubber 21
  HTTP f32 req
  HTHI f32 opt
  WDTP i32 req
  HTEV bool req
  MATR str req
  TMON bool req
  TMIN i32 req
  NAME wstr req
  IMAG str req
  ELAS f32 req
  ELFO f32 req
  RFCT f32 req
  RSCT f32 req
  CLDR bool req
  RVIS bool req
  RADB f32 opt
  ESTR bool req
  ESIE bool req
  ROTX f32 req
  ROTY f32 req
  ROTZ f32 req
  REEN bool opt
  MAPH str opt
  OVPH bool opt
  LOCK bool req
  LAYR u32 opt
  LANR str opt
  GRUP str opt
  LVIS bool opt
  PNTS marker req
  DPNT points many
item HitTarget 22
  VPOS vec3p req
  VSIZ vec3p req
  ROTZ f32 req
  IMAG str req
  TRTY enum:1-9 req
  NAME wstr req
  MATR str req
  TVIS bool req
  LEMO bool req
  HTEV bool req
  THRS f32 req
  ELAS f32 req
  ELFO f32 req
  RFCT f32 req
  RSCT f32 req
  CLDR bool req
  DILI q8 opt
  DILT f32 opt
  DILB f32 opt
  REEN bool req
  PIDB f32 req
  ISDR bool req
  DRSP f32 req
  TMON bool req
  TMIN i32 req
  RADE u32 opt
  MAPH str opt
  OVPH bool opt
  LOCK bool req
  LAYR u32 opt
  LANR str opt
  GRUP str opt
  LVIS bool opt
item Ball 23
  VCEN vec3 req
  RADI f32 req
  MASS f32 req
  FREF bool req
  DCMD bool req
  IMAG str req
  DIMG str req
  BISC f32 req
  PFRF f32 req
  COLR color req
  SPHR bool req
  REEN bool req
  TMON bool req
  TMIN i32 req
  NAME wstr req
  LOCK bool req
  LAYR u32 opt
  LANR str opt
  GRUP str opt
  LVIS bool opt
item PartGroup 24
  NAME wstr req
  VCEN vec2 req
  TMON bool req
  TMIN i32 req
  BGLS bool req
  VMSK u32 opt
  PMSK u32 opt
  SPRF enum:0-4 req
  LOCK bool req
  LVIS bool opt
  LANR str opt
item DragPoint -1
  VCEN vec2 req
  POSZ f32 req
  SMTH bool req
  SLNG bool opt
  ATEX bool req
  TEXC f32 req
  LOCK bool req
  LAYR u32 opt
  LANR str opt
  LVIS bool opt
item GameData -2
  LEFT f32 req
  TOPX f32 req
  RGHT f32 req
  BOTM f32 req
  CLMO u32 opt
  EFSS efss opt
  VSM0 enum:0-2 opt
  ROTA f32 req
  INCL f32 req
  LAYB f32 req
  FOVX f32 req
  XLTX f32 req
  XLTY f32 req
  XLTZ f32 req
  SCLX f32 req
  SCLY f32 req
  SCLZ f32 req
  HOF0 f32 opt
  VOF0 f32 opt
  WTX0 f32 opt
  WTY0 f32 opt
  WTZ0 f32 opt
  WBX0 f32 opt
  WBY0 f32 opt
  WBZ0 f32 opt
  VSM1 enum:0-2 opt
  EFSS efss opt
  ROTF f32 req
  INCF f32 req
  LAYF f32 req
  FOVF f32 req
  XLFX f32 req
  XLFY f32 req
  XLFZ f32 req
  SCFX f32 req
  SCFY f32 req
  SCFZ f32 req
  HOF1 f32 opt
  VOF1 f32 opt
  WTX1 f32 opt
  WTY1 f32 opt
  WTZ1 f32 opt
  WBX1 f32 opt
  WBY1 f32 opt
  WBZ1 f32 opt
  VSM2 enum:0-2 opt
  ROFS f32 opt
  INFS f32 opt
  LAFS f32 opt
  FOFS f32 opt
  XLXS f32 opt
  XLYS f32 opt
  XLZS f32 opt
  SCXS f32 opt
  SCYS f32 opt
  SCZS f32 opt
  HOF2 f32 opt
  VOF2 f32 opt
  WTX2 f32 opt
  WTY2 f32 opt
  WTZ2 f32 opt
  WBX2 f32 opt
  WBY2 f32 opt
  WBZ2 f32 opt
  ORRP u32 req
  ORPF bool opt
  GAVT f32 req
  FRCT f32 req
  ELAS f32 req
  ELFA f32 req
  PFSC f32 req
  SCAT f32 req
  NDGT f32 req
  MPGC u32 opt
  MPDF bool opt
  PHML u32 req
  REEL bool req
  DECL bool req
  OFFX f32 req
  OFFY f32 req
  ZOOM f32 req
  SLPX f32 req
  SLOP f32 req
  MAXS f32 opt
  ZPD f32 opt
  STO f32 opt
  OGST bool opt
  IMAG str req
  BIMG str req
  BIMF str req
  BIMS str opt
  BIMN bool req
  IMCG str req
  BLIM str req
  BLSM bool opt
  BLIF str req
  EIMG str opt
  NOTX str opt
  SSHT str req
  FBCK bool req
  GLAS f32 req
  GLAB f32 opt
  TBLH f32 opt
  PLMA str req
  BCLR color req
  TDFT f32 req
  LZAM color req
  LZDI color req
  LZHI f32 req
  LZRA f32 req
  LIES f32 req
  ENES f32 req
  GLES f32 req
  AOSC f32 req
  SSSC f32 opt
  CLBH f32 opt
  SVOL f32 req
  MVOL f32 req
  AVSY i32 opt
  BREF i32 opt
  BRST i32 opt
  PLST q8 req
  BTRA i32 opt
  BDMO bool req
  BPRS f32 opt
  DBIS f32 opt
  BTST u32 opt
  ARAC u32 opt
  OGAC bool opt
  OGDN bool opt
  GDAC bool req
  REOP bool opt
  UAAL i32 opt
  UFXA i32 opt
  UAOC i32 opt
  USSR i32 opt
  TMAP enum:0-6 opt
  EXPO f32 opt
  BLST f32 req
  MASI u32 req
  MATE mate req
  PHMA phma opt
  MATR matr many
  RPRB rprb many
  SEDT u32 req
  SSND u32 req
  SIMG u32 req
  SFNT u32 req
  SCOL u32 req
  NAME wstr req
  CCUS ccus req
  SECB bytes opt
  CODE code req
  TLCK u32 opt
item Material -3
  TYPE ienum:-1-1 req
  NAME str req
  WLIG f32 req
  ROUG f32 req
  GIML f32 req
  THCK f32 req
  EDGE f32 req
  EALP f32 req
  OPAC f32 req
  BASE color req
  GLOS color req
  COAT color req
  RTNT color req
  EOPA bool req
  ELAS f32 req
  ELFO f32 req
  FRIC f32 req
  SCAT f32 req
item RenderProbe -4
  TYPE enum:0-1 req
  NAME str req
  RBAS u32 req
  RCLE u32 opt
  RPLA vec4 req
  RMOD enum:0-6 req
  RLMP bool opt
item Collection -5
  NAME wstr req
  ITEM wstr many
  EVNT bool req
  SSNG bool req
  GREL bool req
item Font -6
  NAME str req
  PATH str req
  SIZE u32 req
  DATA bytes req
