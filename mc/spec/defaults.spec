# <layout> <tag> <record written when it is missing> (none: the record stays absent)
Wall HTEV 080000004854455600000000
Wall DROP 0800000044524f5000000000
Wall FLIP 08000000464c495000000000
Wall ISBS 080000004953425300000000
Wall CLDW 08000000434c445701000000
Wall TMON 08000000544d4f4e00000000
Wall TMIN 08000000544d494e00000000
Wall THRS 080000005448525300000040
Wall IMAG 08000000494d414700000000
Wall SIMG 0800000053494d4700000000
Wall SIMA 0800000053494d4100000000
Wall TOMA 08000000544f4d4100000000
Wall SLMA 08000000534c4d4100000000
Wall HTBT 080000004854425400000000
Wall HTTP 080000004854545000004842
Wall NAME 080000004e414d4500000000
Wall DSPT 080000004453505400000000
Wall SLGF 08000000534c47460000a042
Wall SLTH 08000000534c544800000000
Wall ELAS 08000000454c41539a99993e
Wall ELFO 
Wall WFCT 08000000574643549a99993e
Wall WSCT 080000005753435400000000
Wall VSBL 080000005653424c01000000
Wall SLGA 08000000534c474101000000
Wall SVBL 080000005356424c01000000
Wall DILI 
Wall DILT 
Wall DILB 
Wall REEN 
Wall MAPH 
Wall OVPH 
Wall LOCK 080000004c4f434b00000000
Wall LAYR 
Wall LANR 
Wall GRUP 
Wall LVIS 
Wall PNTS 04000000504e5453
Wall DPNT 
Flipper VCEN 0c0000005643454e0000000000000000
Flipper BASR 08000000424153520000ac41
Flipper ENDR 08000000454e445200005041
Flipper FLPR 08000000464c505200000243
Flipper FRTN 080000004652544e68916d3d
Flipper ANGS 08000000414e47530000f242
Flipper ANGE 08000000414e474500008c42
Flipper OVRP 080000004f56525000000000
Flipper FORC 08000000464f52430000803f
Flipper TMON 08000000544d4f4e00000000
Flipper TMIN 08000000544d494e00000000
Flipper SURF 080000005355524600000000
Flipper MATR 080000004d41545200000000
Flipper NAME 080000004e414d4500000000
Flipper RUMA 0800000052554d4100000000
Flipper RTHK 080000005254484b00000000
Flipper RTHF 
Flipper RHGT 080000005248475400000000
Flipper RHGF 
Flipper RWDT 080000005257445400000000
Flipper RWDF 
Flipper STRG 080000005354524700800945
Flipper ELAS 08000000454c4153cdcc4c3f
Flipper ELFO 08000000454c464ff628dc3e
Flipper FRIC 08000000465249439a99193f
Flipper RPUP 080000005250555000004040
Flipper SCTR 
Flipper TODA 
Flipper TDAA 
Flipper VSBL 080000005653424c01000000
Flipper ENBL 08000000454e424c01000000
Flipper FRMN 0800000046524d4e00000000
Flipper FHGT 080000004648475400004842
Flipper IMAG 
Flipper REEN 
Flipper LOCK 080000004c4f434b00000000
Flipper LAYR 
Flipper LANR 
Flipper GRUP 
Flipper LVIS 
Timer VCEN 0c0000005643454e0000000000000000
Timer TMON 08000000544d4f4e00000000
Timer TMIN 08000000544d494e00000000
Timer NAME 120000004e414d450a000000540069006d0065007200
Timer BGLS 0800000042474c5300000000
Timer LOCK 080000004c4f434b00000000
Timer LAYR 
Timer LANR 
Timer GRUP 
Timer LVIS 
Plunger VCEN 0c0000005643454e0000000000000000
Plunger WDTH 08000000574454480000c841
Plunger HIGH 08000000484947480000a041
Plunger ZADJ 080000005a41444a00000000
Plunger HPSL 080000004850534c0000a042
Plunger SPDP 08000000535044500000003f
Plunger SPDF 08000000535044460000a042
Plunger TYPE 080000005459504501000000
Plunger ANFR 08000000414e465201000000
Plunger MATR 080000004d41545200000000
Plunger IMAG 08000000494d414700000000
Plunger MEST 080000004d4553540000aa42
Plunger MECH 080000004d45434800000000
Plunger APLG 0800000041504c4700000000
Plunger MPRK 080000004d50524babaa2a3e
Plunger PSCV 080000005053435600000000
Plunger MOMX 080000004d4f4d580000803f
Plunger TMON 08000000544d4f4e00000000
Plunger TMIN 08000000544d494e00000000
Plunger VSBL 080000005653424c01000000
Plunger REEN 
Plunger SURF 080000005355524600000000
Plunger NAME 080000004e414d4500000000
Plunger TIPS 4c000000544950534400000030202e33343b2032202e363b2033202e36343b2035202e373b2037202e38343b2038202e38383b2039202e393b203131202e39323b203134202e39323b203339202e3834
Plunger RODD 08000000524f44449a99193f
Plunger RNGG 08000000524e474700000040
Plunger RNGD 08000000524e4744d7a3703f
Plunger RNGW 08000000524e475700004040
Plunger SPRD 0800000053505244b81e453f
Plunger SPRG 0800000053505247d7a3b03f
Plunger SPRL 080000005350524c00000041
Plunger SPRE 080000005350524500002040
Plunger LOCK 080000004c4f434b00000000
Plunger LAYR 
Plunger LANR 
Plunger GRUP 
Plunger LVIS 
TextBox VER1 0c000000564552310000000000000000
TextBox VER2 0c000000564552320000000000000000
TextBox CLRB 08000000434c524200000000
TextBox CLRF 08000000434c5246ffffff00
TextBox INSC 08000000494e53430000803f
TextBox TEXT 080000005445585400000000
TextBox TMON 08000000544d4f4e00000000
TextBox TMIN 08000000544d494e00000000
TextBox NAME 080000004e414d4500000000
TextBox ALGN 08000000414c474e00000000
TextBox TRNS 0800000054524e5300000000
TextBox IDMD 
TextBox LOCK 080000004c4f434b00000000
TextBox LAYR 
TextBox LANR 
TextBox GRUP 
TextBox LVIS 
TextBox FONT 04000000464f4e540100000000009001000005417269616c
Bumper VCEN 0c0000005643454e0000000000000000
Bumper RADI 080000005241444900003442
Bumper TMON 08000000544d4f4e00000000
Bumper TMIN 08000000544d494e00000000
Bumper THRS 08000000544852530000803f
Bumper FORC 08000000464f524300007041
Bumper BSCT 
Bumper HISC 08000000484953430000b442
Bumper RISP 08000000524953500000003f
Bumper ORIN 080000004f52494e00000000
Bumper RDLI 
Bumper MATR 080000004d41545200000000
Bumper BAMA 0800000042414d4100000000
Bumper SKMA 08000000534b4d4100000000
Bumper RIMA 
Bumper SURF 080000005355524600000000
Bumper NAME 080000004e414d4500000000
Bumper CAVI 080000004341564901000000
Bumper BSVS 080000004253565301000000
Bumper RIVS 
Bumper SKVS 
Bumper HAHE 
Bumper COLI 
Bumper REEN 
Bumper LOCK 080000004c4f434b00000000
Bumper LAYR 
Bumper LANR 
Bumper GRUP 
Bumper LVIS 
Trigger VCEN 0c0000005643454e0000000000000000
Trigger RADI 08000000524144490000c841
Trigger ROTA 08000000524f544100000000
Trigger WITI 
Trigger SCAX 080000005343415800000000
Trigger SCAY 080000005343415900000000
Trigger TMON 08000000544d4f4e00000000
Trigger TMIN 08000000544d494e00000000
Trigger SURF 080000005355524600000000
Trigger MATR 080000004d41545200000000
Trigger EBLD 0800000045424c4401000000
Trigger VSBL 080000005653424c01000000
Trigger THOT 0800000054484f5400004842
Trigger NAME 080000004e414d4500000000
Trigger SHAP 080000005348415001000000
Trigger ANSP 08000000414e535000000000
Trigger REEN 
Trigger LOCK 080000004c4f434b00000000
Trigger LAYR 
Trigger LANR 
Trigger GRUP 
Trigger LVIS 
Trigger DPNT 
Light VCEN 0c0000005643454e0000000000000000
Light HGHT 
Light RADI 080000005241444900000000
Light FAPO 080000004641504f00000000
Light STAT 080000005354415400000000
Light STTF 
Light COLR 08000000434f4c52ffa95700
Light COL2 08000000434f4c32ffa95700
Light TMON 08000000544d4f4e00000000
Light TMIN 08000000544d494e00000000
Light BPAT 0a00000042504154020000003130
Light IMG1 08000000494d473100000000
Light BINT 0800000042494e547d000000
Light BWTH 08000000425754480000803f
Light TRMS 0800000054524d530000003f
Light SURF 080000005355524600000000
Light NAME 080000004e414d4500000000
Light BGLS 0800000042474c5300000000
Light LIDB 080000004c49444200000000
Light FASP 0800000046415350cdcc4c3e
Light FASD 0800000046415344cdcc4c3e
Light BULT 0800000042554c5400000000
Light IMMO 08000000494d4d4f00000000
Light SHBM 080000005348424d00000000
Light STBM 
Light SHRB 080000005348524201000000
Light BMSC 08000000424d53430000a041
Light BMVA 08000000424d56416666663f
Light BHHI 08000000424848490000e041
Light SHDW 
Light FADE 
Light VSBL 
Light LOCK 080000004c4f434b00000000
Light LAYR 
Light LANR 
Light GRUP 
Light LVIS 
Light DPNT 
Kicker VCEN 0c0000005643454e0000000000000000
Kicker RADI 08000000524144490000c841
Kicker TMON 08000000544d4f4e00000000
Kicker TMIN 08000000544d494e00000000
Kicker MATR 080000004d41545200000000
Kicker SURF 080000005355524600000000
Kicker EBLD 0800000045424c4401000000
Kicker NAME 080000004e414d4500000000
Kicker TYPE 080000005459504501000000
Kicker KSCT 080000004b53435400000000
Kicker KHAC 080000004b4841433333333f
Kicker KHHI 
Kicker KORI 080000004b4f524900000000
Kicker FATH 080000004641544800000000
Kicker LEMO 080000004c454d4f01000000
Kicker LOCK 080000004c4f434b00000000
Kicker LAYR 
Kicker LANR 
Kicker GRUP 
Kicker LVIS 
Decal VCEN 0c0000005643454e0000000000000000
Decal WDTH 08000000574454480000c842
Decal HIGH 08000000484947480000c842
Decal ROTA 08000000524f544100000000
Decal IMAG 08000000494d414700000000
Decal SURF 080000005355524600000000
Decal NAME 080000004e414d4500000000
Decal TEXT 080000005445585400000000
Decal TYPE 080000005459504501000000
Decal MATR 080000004d41545200000000
Decal COLR 08000000434f4c5200000000
Decal SIZE 0800000053495a4502000000
Decal VERT 080000005645525400000000
Decal BGLS 0800000042474c5300000000
Decal LOCK 080000004c4f434b00000000
Decal LAYR 
Decal LANR 
Decal GRUP 
Decal LVIS 
Decal FONT 04000000464f4e540100000000009001000005417269616c
Gate VCEN 0c0000005643454e0000000000000000
Gate LGTH 080000004c4754480000c842
Gate HGTH 080000004847544800004842
Gate ROTA 08000000524f54410000b4c2
Gate MATR 080000004d41545200000000
Gate TMON 08000000544d4f4e00000000
Gate GSUP 080000004753555001000000
Gate GCOL 0800000047434f4c01000000
Gate TMIN 08000000544d494e00000000
Gate IMGF 
Gate IMGB 
Gate SURF 080000005355524600000000
Gate ELAS 08000000454c41539a99993e
Gate GAMA 0800000047414d41db0fc93f
Gate GAMI 0800000047414d4900000000
Gate GFRC 08000000474652430ad7a33c
Gate AFRC 
Gate GGFC 
Gate GVSB 080000004756534201000000
Gate NAME 080000004e414d4500000000
Gate TWWA 080000005457574101000000
Gate REEN 
Gate GATY 
Gate LOCK 080000004c4f434b00000000
Gate LAYR 
Gate LANR 
Gate GRUP 
Gate LVIS 
Spinner VCEN 0c0000005643454e0000000000000000
Spinner ROTA 08000000524f544100000000
Spinner TMON 08000000544d4f4e00000000
Spinner TMIN 08000000544d494e00000000
Spinner HIGH 080000004849474800007042
Spinner LGTH 080000004c4754480000a042
Spinner AFRC 080000004146524304e77c3f
Spinner SMAX 08000000534d415800000000
Spinner SMIN 08000000534d494e00000000
Spinner SELA 0800000053454c419a99993e
Spinner SVIS 080000005356495301000000
Spinner SSUP 080000005353555001000000
Spinner MATR 080000004d41545200000000
Spinner IMGF 08000000494d474600000000
Spinner SURF 080000005355524600000000
Spinner NAME 080000004e414d4500000000
Spinner REEN 
Spinner LOCK 080000004c4f434b00000000
Spinner LAYR 
Spinner LANR 
Spinner GRUP 
Spinner LVIS 
Ramp HTBT 080000004854425400000000
Ramp HTTP 080000004854545000004842
Ramp WDBT 080000005744425400009642
Ramp WDTP 080000005744545000007042
Ramp MATR 080000004d41545200000000
Ramp TMON 08000000544d4f4e00000000
Ramp TMIN 08000000544d494e00000000
Ramp TYPE 080000005459504500000000
Ramp NAME 080000004e414d4500000000
Ramp IMAG 08000000494d414700000000
Ramp ALGN 08000000414c474e00000000
Ramp IMGW 08000000494d475701000000
Ramp WLHL 08000000574c484c00007842
Ramp WLHR 08000000574c485200007842
Ramp WVHL 080000005756484c0000f041
Ramp WVHR 08000000575648520000f041
Ramp HTEV 
Ramp THRS 
Ramp ELAS 08000000454c415300000000
Ramp RFCT 080000005246435400000000
Ramp RSCT 080000005253435400000000
Ramp CLDR 08000000434c445201000000
Ramp RVIS 080000005256495301000000
Ramp RADB 080000005241444200000000
Ramp RADI 080000005241444900000041
Ramp RADX 080000005241445800001842
Ramp RADY 08000000524144590000b042
Ramp REEN 
Ramp MAPH 
Ramp OVPH 
Ramp LOCK 080000004c4f434b00000000
Ramp LAYR 
Ramp LANR 
Ramp GRUP 
Ramp LVIS 
Ramp PNTS 04000000504e5453
Ramp DPNT 
Reel VER1 0c000000564552310000000000000000
Reel VER2 0c000000564552320000000000000000
Reel CLRB 08000000434c524240404000
Reel TMON 08000000544d4f4e00000000
Reel TMIN 08000000544d494e00000000
Reel TRNS 0800000054524e5300000000
Reel IMAG 08000000494d414700000000
Reel SOUN 08000000534f554e00000000
Reel NAME 080000004e414d4500000000
Reel WDTH 08000000574454480000f041
Reel HIGH 080000004849474800002042
Reel RCNT 0800000052434e540000a040
Reel RSPC 080000005253504300008040
Reel MSTP 080000004d53545000000040
Reel RANG 0800000052414e4700001041
Reel UPTM 080000005550544d32000000
Reel UGRD 080000005547524400000000
Reel VISI 080000005649534901000000
Reel GIPR 080000004749505201000000
Reel LOCK 080000004c4f434b00000000
Reel LAYR 
Reel LANR 
Reel GRUP 
Reel LVIS 
LightSequencer VCEN 0c0000005643454e0000000000000000
LightSequencer COLC 08000000434f4c4300000000
LightSequencer CTRX 080000004354525800000000
LightSequencer CTRY 080000004354525900000000
LightSequencer UPTM 080000005550544d19000000
LightSequencer TMON 08000000544d4f4e00000000
LightSequencer TMIN 08000000544d494e00000000
LightSequencer NAME 080000004e414d4500000000
LightSequencer BGLS 0800000042474c5300000000
LightSequencer LOCK 
LightSequencer GRUP 
LightSequencer LAYR 
LightSequencer LANR 
LightSequencer LVIS 
Primitive VPOS 1400000056504f5300000000000000000000000000000000
Primitive VSIZ 140000005653495a0000c8420000c8420000c84200000000
Primitive RTV0 080000005254563000000000
Primitive RTV1 080000005254563100000000
Primitive RTV2 080000005254563200000000
Primitive RTV3 080000005254563300000000
Primitive RTV4 080000005254563400000000
Primitive RTV5 080000005254563500000000
Primitive RTV6 080000005254563600000000
Primitive RTV7 080000005254563700000000
Primitive RTV8 080000005254563800000000
Primitive IMAG 08000000494d414700000000
Primitive NRMA 
Primitive SIDS 080000005349445304000000
Primitive NAME 080000004e414d4500000000
Primitive MATR 080000004d41545200000000
Primitive SCOL 0800000053434f4c00000000
Primitive TVIS 080000005456495301000000
Primitive DTXI 080000004454584900000000
Primitive HTEV 080000004854455601000000
Primitive THRS 080000005448525300000040
Primitive ELAS 08000000454c41539a99993e
Primitive ELFO 08000000454c464f0000003f
Primitive RFCT 08000000524643549a99993e
Primitive RSCT 080000005253435400000000
Primitive EFUI 08000000454655490000803e
Primitive CORF 
Primitive CLDR 08000000434c445201000000
Primitive ISTO 080000004953544f00000000
Primitive U3DM 080000005533444d00000000
Primitive STRE 080000005354524500000000
Primitive DILI 
Primitive DILT 
Primitive DILB 
Primitive REEN 
Primitive EBFC 
Primitive MAPH 
Primitive OVPH 
Primitive DIPT 
Primitive OSNM 
Primitive BMIN 
Primitive BMAX 
Primitive M3DN 
Primitive M3VN 
Primitive M3CY 
Primitive M3CX 
Primitive M3FN 
Primitive M3CJ 
Primitive M3CI 
Primitive M3A 
Primitive PIDB 080000005049444200000000
Primitive ADDB 
Primitive ZMSK 
Primitive FALP 
Primitive COLR 
Primitive LMAP 
Primitive REFL 
Primitive RSTR 
Primitive REFR 
Primitive RTHI 
Primitive LOCK 080000004c4f434b00000000
Primitive LAYR 
Primitive LANR 
Primitive GRUP 
Primitive LVIS 
Flasher FHEI 080000004648454900004842
Flasher FLAX 08000000464c415800000000
Flasher FLAY 08000000464c415900000000
Flasher FROX 0800000046524f5800000000
Flasher FROY 0800000046524f5900000000
Flasher FROZ 0800000046524f5a00000000
Flasher COLR 08000000434f4c52ffffff00
Flasher TMON 08000000544d4f4e00000000
Flasher TMIN 08000000544d494e00000000
Flasher NAME 080000004e414d4500000000
Flasher IMAG 08000000494d414700000000
Flasher IMAB 08000000494d414200000000
Flasher FALP 0800000046414c5064000000
Flasher MOVA 080000004d4f56416666663f
Flasher FVIS 080000004656495301000000
Flasher DSPT 080000004453505400000000
Flasher ADDB 080000004144444200000000
Flasher IDMD 
Flasher RDMD 
Flasher RSTL 
Flasher GRGH 
Flasher GAMB 
Flasher GTOP 
Flasher GBOT 
Flasher GLFT 
Flasher GRHT 
Flasher LINK 
Flasher FLDB 08000000464c444200000000
Flasher ALGN 08000000414c474e01000000
Flasher FILT 0800000046494c5402000000
Flasher FIAM 080000004649414d64000000
Flasher LMAP 
Flasher BGLS 
Flasher LOCK 080000004c4f434b00000000
Flasher LAYR 
Flasher LANR 
Flasher GRUP 
Flasher LVIS 
Flasher DPNT 
Rubber HTTP 08000000485454500000c841
Rubber HTHI 
Rubber WDTP 080000005744545008000000
Rubber HTEV 080000004854455600000000
Rubber MATR 080000004d41545200000000
Rubber TMON 08000000544d4f4e00000000
Rubber TMIN 08000000544d494e00000000
Rubber NAME 080000004e414d4500000000
Rubber IMAG 08000000494d414700000000
Rubber ELAS 08000000454c415300000000
Rubber ELFO 08000000454c464f00000000
Rubber RFCT 080000005246435400000000
Rubber RSCT 080000005253435400000000
Rubber CLDR 08000000434c445201000000
Rubber RVIS 080000005256495301000000
Rubber RADB 
Rubber ESTR 080000004553545201000000
Rubber ESIE 080000004553494501000000
Rubber ROTX 08000000524f545800000000
Rubber ROTY 08000000524f545900000000
Rubber ROTZ 08000000524f545a00000000
Rubber REEN 
Rubber MAPH 
Rubber OVPH 
Rubber LOCK 080000004c4f434b00000000
Rubber LAYR 
Rubber LANR 
Rubber GRUP 
Rubber LVIS 
Rubber PNTS 04000000504e5453
Rubber DPNT 
HitTarget VPOS 1400000056504f5300000000000000000000000000000000
HitTarget VSIZ 140000005653495a00000042000000420000004200000000
HitTarget ROTZ 08000000524f545a00000000
HitTarget IMAG 08000000494d414700000000
HitTarget TRTY 080000005452545902000000
HitTarget NAME 080000004e414d4500000000
HitTarget MATR 080000004d41545200000000
HitTarget TVIS 080000005456495301000000
HitTarget LEMO 080000004c454d4f00000000
HitTarget HTEV 080000004854455601000000
HitTarget THRS 080000005448525300000040
HitTarget ELAS 08000000454c415300000000
HitTarget ELFO 08000000454c464f00000000
HitTarget RFCT 080000005246435400000000
HitTarget RSCT 080000005253435400000000
HitTarget CLDR 08000000434c445201000000
HitTarget DILI 
HitTarget DILT 
HitTarget DILB 
HitTarget REEN 080000005245454e01000000
HitTarget PIDB 080000005049444200000000
HitTarget ISDR 080000004953445200000000
HitTarget DRSP 08000000445253500000003f
HitTarget TMON 08000000544d4f4e00000000
HitTarget TMIN 08000000544d494e00000000
HitTarget RADE 
HitTarget MAPH 
HitTarget OVPH 
HitTarget LOCK 080000004c4f434b00000000
HitTarget LAYR 
HitTarget LANR 
HitTarget GRUP 
HitTarget LVIS 
Ball VCEN 100000005643454e00000000000000000000c841
Ball RADI 08000000524144490000c841
Ball MASS 080000004d4153530000803f
Ball FREF 080000004652454600000000
Ball DCMD 0800000044434d4400000000
Ball IMAG 08000000494d414700000000
Ball DIMG 0800000044494d4700000000
Ball BISC 08000000424953430000803f
Ball PFRF 08000000504652460000803f
Ball COLR 08000000434f4c52ffffff00
Ball SPHR 080000005350485200000000
Ball REEN 080000005245454e01000000
Ball TMON 08000000544d4f4e00000000
Ball TMIN 08000000544d494e00000000
Ball NAME 080000004e414d4500000000
Ball LOCK 080000004c4f434b00000000
Ball LAYR 
Ball LANR 
Ball GRUP 
Ball LVIS 
PartGroup NAME 080000004e414d4500000000
PartGroup VCEN 0c0000005643454e0000000000000000
PartGroup TMON 08000000544d4f4e00000000
PartGroup TMIN 08000000544d494e00000000
PartGroup BGLS 0800000042474c5300000000
PartGroup VMSK 
PartGroup PMSK 
PartGroup SPRF 080000005350524604000000
PartGroup LOCK 080000004c4f434b00000000
PartGroup LVIS 
PartGroup LANR 
GameData@1081 LEFT 080000004c45465400000000
GameData@1081 TOPX 08000000544f505800000000
GameData@1081 RGHT 080000005247485400006e44
GameData@1081 BOTM 08000000424f544d00200745
GameData@1081 EFSS 
GameData@1081 VSM0 
GameData@1081 ROTA 08000000524f544100000000
GameData@1081 INCL 08000000494e434c00000000
GameData@1081 LAYB 080000004c41594200000000
GameData@1081 FOVX 08000000464f565800003442
GameData@1081 XLTX 08000000584c545800000000
GameData@1081 XLTY 08000000584c54590000f041
GameData@1081 XLTZ 08000000584c545a000048c3
GameData@1081 SCLX 0800000053434c580000803f
GameData@1081 SCLY 0800000053434c590000803f
GameData@1081 SCLZ 0800000053434c5a0000803f
GameData@1081 HOF0 
GameData@1081 VOF0 
GameData@1081 WTX0 
GameData@1081 WTY0 
GameData@1081 WTZ0 
GameData@1081 WBX0 
GameData@1081 WBY0 
GameData@1081 WBZ0 
GameData@1081 VSM1 
GameData@1081 ROTF 08000000524f544600000000
GameData@1081 INCF 08000000494e434600000000
GameData@1081 LAYF 080000004c41594600000000
GameData@1081 FOVF 08000000464f564600003442
GameData@1081 XLFX 08000000584c46580000dc42
GameData@1081 XLFY 08000000584c46590000acc2
GameData@1081 XLFZ 08000000584c465a0000c843
GameData@1081 SCFX 08000000534346586666a63f
GameData@1081 SCFY 0800000053434659e17ab43f
GameData@1081 SCFZ 080000005343465a0000803f
GameData@1081 HOF1 
GameData@1081 VOF1 
GameData@1081 WTX1 
GameData@1081 WTY1 
GameData@1081 WTZ1 
GameData@1081 WBX1 
GameData@1081 WBY1 
GameData@1081 WBZ1 
GameData@1081 VSM2 
GameData@1081 ROFS 
GameData@1081 INFS 
GameData@1081 LAFS 
GameData@1081 FOFS 
GameData@1081 XLXS 
GameData@1081 XLYS 
GameData@1081 XLZS 
GameData@1081 SCXS 
GameData@1081 SCYS 
GameData@1081 SCZS 
GameData@1081 HOF2 
GameData@1081 VOF2 
GameData@1081 WTX2 
GameData@1081 WTY2 
GameData@1081 WTZ2 
GameData@1081 WBX2 
GameData@1081 WBY2 
GameData@1081 WBZ2 
GameData@1081 ORRP 080000004f52525000000000
GameData@1081 ORPF 
GameData@1081 GAVT 08000000474156547ea9e13f
GameData@1081 FRCT 08000000465243549a99993d
GameData@1081 ELAS 08000000454c41530000803e
GameData@1081 ELFA 08000000454c464100000000
GameData@1081 PFSC 080000005046534300000000
GameData@1081 SCAT 080000005343415400000000
GameData@1081 NDGT 080000004e4447540000a040
GameData@1081 MPGC 
GameData@1081 MPDF 
GameData@1081 PHML 0800000050484d4c00000000
GameData@1081 REEL 080000005245454c00000000
GameData@1081 DECL 080000004445434c00000000
GameData@1081 OFFX 080000004f4646580000ee43
GameData@1081 OFFY 080000004f46465900208744
GameData@1081 ZOOM 080000005a4f4f4d0000003f
GameData@1081 SLPX 08000000534c50580000c040
GameData@1081 SLOP 08000000534c4f500000c040
GameData@1081 MAXS 
GameData@1081 ZPD 
GameData@1081 STO 
GameData@1081 OGST 
GameData@1081 IMAG 08000000494d414700000000
GameData@1081 BIMG 0800000042494d4700000000
GameData@1081 BIMF 0800000042494d4600000000
GameData@1081 BIMS 
GameData@1081 BIMN 0800000042494d4e00000000
GameData@1081 IMCG 08000000494d434700000000
GameData@1081 BLIM 08000000424c494d00000000
GameData@1081 BLSM 
GameData@1081 BLIF 08000000424c494600000000
GameData@1081 EIMG 
GameData@1081 NOTX 
GameData@1081 SSHT 080000005353485400000000
GameData@1081 FBCK 080000004642434b00000000
GameData@1081 GLAS 08000000474c41530000c843
GameData@1081 GLAB 
GameData@1081 TBLH 
GameData@1081 PLMA 08000000504c4d4100000000
GameData@1081 BCLR 0800000042434c52626e8e00
GameData@1081 TDFT 0800000054444654cdcc4c3e
GameData@1081 LZAM 080000004c5a414d19191900
GameData@1081 LZDI 080000004c5a444966666600
GameData@1081 LZHI 080000004c5a484900409c45
GameData@1081 LZRA 080000004c5a52410024744a
GameData@1081 LIES 080000004c4945530024744a
GameData@1081 ENES 08000000454e455300000040
GameData@1081 GLES 08000000474c4553b81e053f
GameData@1081 AOSC 08000000414f53430000e03f
GameData@1081 SSSC 
GameData@1081 CLBH 
GameData@1081 SVOL 0800000053564f4c0000803f
GameData@1081 MVOL 080000004d564f4c0000803f
GameData@1081 AVSY 
GameData@1081 BREF 
GameData@1081 BRST 
GameData@1081 PLST 08000000504c5354ff000000
GameData@1081 BTRA 
GameData@1081 BDMO 0800000042444d4f00000000
GameData@1081 BPRS 
GameData@1081 DBIS 
GameData@1081 BTST 
GameData@1081 ARAC 
GameData@1081 OGAC 
GameData@1081 OGDN 
GameData@1081 GDAC 080000004744414301000000
GameData@1081 REOP 
GameData@1081 UAAL 
GameData@1081 UFXA 
GameData@1081 UAOC 
GameData@1081 USSR 
GameData@1081 TMAP 
GameData@1081 EXPO 
GameData@1081 BLST 08000000424c53546666e63f
GameData@1081 MASI 080000004d41534900000000
GameData@1081 MATE 040000004d415445
GameData@1081 MATR 
GameData@1081 RPRB 
GameData@1081 SEDT 080000005345445400000000
GameData@1081 SSND 0800000053534e4400000000
GameData@1081 SIMG 0800000053494d4700000000
GameData@1081 SFNT 0800000053464e5400000000
GameData@1081 SCOL 0800000053434f4c00000000
GameData@1081 NAME 140000004e414d450c0000005400610062006c0065003100
GameData@1081 CCUS 440000004343555300000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000
GameData@1081 SECB 
GameData@1081 CODE 04000000434f444500000000
GameData@1081 TLCK 
GameData@1081 PHMA 
GameData@1072 LEFT 080000004c45465400000000
GameData@1072 TOPX 08000000544f505800000000
GameData@1072 RGHT 080000005247485400006e44
GameData@1072 BOTM 08000000424f544d00200745
GameData@1072 VSM0 
GameData@1072 ROTA 08000000524f544100000000
GameData@1072 INCL 08000000494e434c00000000
GameData@1072 LAYB 080000004c41594200000000
GameData@1072 FOVX 08000000464f565800003442
GameData@1072 XLTX 08000000584c545800000000
GameData@1072 XLTY 08000000584c54590000f041
GameData@1072 XLTZ 08000000584c545a000048c3
GameData@1072 SCLX 0800000053434c580000803f
GameData@1072 SCLY 0800000053434c590000803f
GameData@1072 SCLZ 0800000053434c5a0000803f
GameData@1072 HOF0 
GameData@1072 VOF0 
GameData@1072 WTX0 
GameData@1072 WTY0 
GameData@1072 WTZ0 
GameData@1072 WBX0 
GameData@1072 WBY0 
GameData@1072 WBZ0 
GameData@1072 VSM1 
GameData@1072 EFSS 
GameData@1072 ROTF 08000000524f544600000000
GameData@1072 INCF 08000000494e434600000000
GameData@1072 LAYF 080000004c41594600000000
GameData@1072 FOVF 08000000464f564600003442
GameData@1072 XLFX 08000000584c46580000dc42
GameData@1072 XLFY 08000000584c46590000acc2
GameData@1072 XLFZ 08000000584c465a0000c843
GameData@1072 SCFX 08000000534346586666a63f
GameData@1072 SCFY 0800000053434659e17ab43f
GameData@1072 SCFZ 080000005343465a0000803f
GameData@1072 HOF1 
GameData@1072 VOF1 
GameData@1072 WTX1 
GameData@1072 WTY1 
GameData@1072 WTZ1 
GameData@1072 WBX1 
GameData@1072 WBY1 
GameData@1072 WBZ1 
GameData@1072 VSM2 
GameData@1072 ROFS 
GameData@1072 INFS 
GameData@1072 LAFS 
GameData@1072 FOFS 
GameData@1072 XLXS 
GameData@1072 XLYS 
GameData@1072 XLZS 
GameData@1072 SCXS 
GameData@1072 SCYS 
GameData@1072 SCZS 
GameData@1072 HOF2 
GameData@1072 VOF2 
GameData@1072 WTX2 
GameData@1072 WTY2 
GameData@1072 WTZ2 
GameData@1072 WBX2 
GameData@1072 WBY2 
GameData@1072 WBZ2 
GameData@1072 ORRP 080000004f52525000000000
GameData@1072 ORPF 
GameData@1072 GAVT 08000000474156547ea9e13f
GameData@1072 FRCT 08000000465243549a99993d
GameData@1072 ELAS 08000000454c41530000803e
GameData@1072 ELFA 08000000454c464100000000
GameData@1072 PFSC 080000005046534300000000
GameData@1072 SCAT 080000005343415400000000
GameData@1072 NDGT 080000004e4447540000a040
GameData@1072 MPGC 
GameData@1072 MPDF 
GameData@1072 PHML 0800000050484d4c00000000
GameData@1072 REEL 080000005245454c00000000
GameData@1072 DECL 080000004445434c00000000
GameData@1072 OFFX 080000004f4646580000ee43
GameData@1072 OFFY 080000004f46465900208744
GameData@1072 ZOOM 080000005a4f4f4d0000003f
GameData@1072 SLPX 08000000534c50580000c040
GameData@1072 SLOP 08000000534c4f500000c040
GameData@1072 MAXS 
GameData@1072 ZPD 
GameData@1072 STO 
GameData@1072 OGST 
GameData@1072 IMAG 08000000494d414700000000
GameData@1072 BIMG 0800000042494d4700000000
GameData@1072 BIMF 0800000042494d4600000000
GameData@1072 BIMS 
GameData@1072 BIMN 0800000042494d4e00000000
GameData@1072 IMCG 08000000494d434700000000
GameData@1072 BLIM 08000000424c494d00000000
GameData@1072 BLSM 
GameData@1072 BLIF 08000000424c494600000000
GameData@1072 EIMG 
GameData@1072 NOTX 
GameData@1072 SSHT 080000005353485400000000
GameData@1072 FBCK 080000004642434b00000000
GameData@1072 GLAS 08000000474c41530000c843
GameData@1072 GLAB 
GameData@1072 TBLH 
GameData@1072 PLMA 08000000504c4d4100000000
GameData@1072 BCLR 0800000042434c52626e8e00
GameData@1072 TDFT 0800000054444654cdcc4c3e
GameData@1072 LZAM 080000004c5a414d19191900
GameData@1072 LZDI 080000004c5a444966666600
GameData@1072 LZHI 080000004c5a484900409c45
GameData@1072 LZRA 080000004c5a52410024744a
GameData@1072 LIES 080000004c4945530024744a
GameData@1072 ENES 08000000454e455300000040
GameData@1072 GLES 08000000474c4553b81e053f
GameData@1072 AOSC 08000000414f53430000e03f
GameData@1072 SSSC 
GameData@1072 CLBH 
GameData@1072 SVOL 0800000053564f4c0000803f
GameData@1072 MVOL 080000004d564f4c0000803f
GameData@1072 AVSY 
GameData@1072 BREF 
GameData@1072 BRST 
GameData@1072 PLST 08000000504c5354ff000000
GameData@1072 BTRA 
GameData@1072 BDMO 0800000042444d4f00000000
GameData@1072 BPRS 
GameData@1072 DBIS 
GameData@1072 BTST 
GameData@1072 ARAC 
GameData@1072 OGAC 
GameData@1072 OGDN 
GameData@1072 GDAC 080000004744414301000000
GameData@1072 REOP 
GameData@1072 UAAL 
GameData@1072 UFXA 
GameData@1072 UAOC 
GameData@1072 USSR 
GameData@1072 TMAP 
GameData@1072 EXPO 
GameData@1072 BLST 08000000424c53546666e63f
GameData@1072 MASI 080000004d41534900000000
GameData@1072 MATE 040000004d415445
GameData@1072 MATR 
GameData@1072 RPRB 
GameData@1072 SEDT 080000005345445400000000
GameData@1072 SSND 0800000053534e4400000000
GameData@1072 SIMG 0800000053494d4700000000
GameData@1072 SFNT 0800000053464e5400000000
GameData@1072 SCOL 0800000053434f4c00000000
GameData@1072 NAME 140000004e414d450c0000005400610062006c0065003100
GameData@1072 CCUS 440000004343555300000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000
GameData@1072 SECB 
GameData@1072 CODE 04000000434f444500000000
GameData@1072 TLCK 
GameData@1072 PHMA 
DragPoint VCEN 0c0000005643454e0000000000000000
DragPoint POSZ 08000000504f535a00000000
DragPoint SMTH 08000000534d544800000000
DragPoint SLNG 
DragPoint ATEX 080000004154455800000000
DragPoint TEXC 080000005445584300000000
DragPoint LOCK 080000004c4f434b00000000
DragPoint LAYR 
DragPoint LANR 
DragPoint LVIS 
RenderProbe TYPE 080000005459504500000000
RenderProbe NAME 080000004e414d4500000000
RenderProbe RBAS 080000005242415300000000
RenderProbe RCLE 
RenderProbe RPLA 1400000052504c4100000000000000000000000000000000
RenderProbe RMOD 08000000524d4f4400000000
RenderProbe RLMP 
Material TYPE 080000005459504500000000
Material NAME 150000004e414d450d00000064756d6d794d6174657269616c
Material WLIG 08000000574c494700000000
Material ROUG 08000000524f554700000000
Material GIML 0800000047494d4c0000803f
Material THCK 080000005448434bcdcc4c3d
Material EDGE 08000000454447450000803f
Material EALP 0800000045414c500000803f
Material OPAC 080000004f5041430000803f
Material BASE 0800000042415345b469ff00
Material GLOS 08000000474c4f5300000000
Material COAT 08000000434f415400000000
Material RTNT 0800000052544e54ffffff00
Material EOPA 08000000454f504100000000
Material ELAS 08000000454c415300000000
Material ELFO 08000000454c464f00000000
Material FRIC 080000004652494300000000
Material SCAT 080000005343415400000000
Collection NAME 080000004e414d4500000000
Collection ITEM 
Collection EVNT 0800000045564e5400000000
Collection SSNG 0800000053534e4700000000
Collection GREL 080000004752454c00000000
Font NAME 080000004e414d4500000000
Font PATH 080000005041544800000000
Font SIZE 0800000053495a4500000000
Font DATA 0400000044415441
Image NAME 080000004e414d4500000000
Image INME 
Image PATH 080000005041544800000000
Image WDTH 080000005744544800000000
Image HGHT 080000004847485400000000
Image LINK 
Image JPEG 
Image ALTV 08000000414c545600000000
Image MD5H 
Image OPAQ 
Image SIGN 
Image BITS 
ImageData NAME 080000004e414d4500000000
ImageData INME 
ImageData PATH 080000005041544800000000
ImageData SIZE 0800000053495a4500000000
ImageData DATA 0400000044415441
