# Which model field and which extracted (JSON) value every stored record stands for.
# group <layout> <prefix in the model> <prefix in the extracted files>
#   TAG  model field  JSON field  [names of the enumeration values: model/JSON]
# Bootstrapped from single-record deviations and reviewed against Visual Pinball's own load functions.
group Wall gameitems.0 gameitems/*.json:.Wall
  HTEV  hit_event hit_event
  DROP  is_droppable is_droppable
  FLIP  is_flipbook is_flipbook
  ISBS  is_bottom_solid is_bottom_solid
  CLDW  is_collidable is_collidable
  TMON  timer.is_enabled is_timer_enabled
  TMIN  timer.interval timer_interval
  THRS  threshold threshold
  IMAG  image image
  SIMG  side_image side_image
  SIMA  side_material side_material
  TOMA  top_material top_material
  SLMA  slingshot_material slingshot_material
  HTBT  height_bottom height_bottom
  HTTP  height_top height_top
  NAME  name name
  DSPT  display_texture display_texture
  SLGF  slingshot_force slingshot_force
  SLTH  slingshot_threshold slingshot_threshold
  ELAS  elasticity elasticity
  ELFO  elasticity_falloff elasticity_falloff
  WFCT  friction friction
  WSCT  scatter scatter
  VSBL  is_top_bottom_visible is_top_bottom_visible
  SLGA  slingshot_animation slingshot_animation
  SVBL  is_side_visible is_side_visible
  DILI  disable_lighting_top_old disable_lighting_top_old
  DILT  disable_lighting_top disable_lighting_top
  DILB  disable_lighting_below disable_lighting_below
  REEN  is_reflection_enabled is_reflection_enabled
  MAPH  physics_material physics_material
  OVPH  overwrite_physics overwrite_physics
  LOCK  is_locked =gameitems.json:.0.is_locked
  LAYR  editor_layer =gameitems.json:.0.editor_layer
  LANR  editor_layer_name =gameitems.json:.0.editor_layer_name
  GRUP  part_group_name part_group_name
  LVIS  editor_layer_visibility =gameitems.json:.0.editor_layer_visibility
  DPNT  drag_points drag_points
group Flipper gameitems.0 gameitems/*.json:.Flipper
  VCEN  center center
  BASR  base_radius base_radius
  ENDR  end_radius end_radius
  FLPR  flipper_radius_max flipper_radius_max
  FRTN  return_ return
  ANGS  start_angle start_angle
  ANGE  end_angle end_angle
  OVRP  override_physics override_physics
  FORC  mass mass
  TMON  timer.is_enabled is_timer_enabled
  TMIN  timer.interval timer_interval
  SURF  surface surface
  MATR  material material
  NAME  name name
  RUMA  rubber_material rubber_material
  RTHK  rubber_thickness_int rubber_thickness_int
  RTHF  rubber_thickness rubber_thickness
  RHGT  rubber_height_int rubber_height_int
  RHGF  rubber_height rubber_height
  RWDT  rubber_width_int rubber_width_int
  RWDF  rubber_width rubber_width
  STRG  strength strength
  ELAS  elasticity elasticity
  ELFO  elasticity_falloff elasticity_falloff
  FRIC  friction friction
  RPUP  ramp_up ramp_up
  SCTR  scatter scatter
  TODA  torque_damping torque_damping
  TDAA  torque_damping_angle torque_damping_angle
  VSBL  is_visible is_visible
  ENBL  is_enabled is_enabled
  FRMN  flipper_radius_min flipper_radius_min
  FHGT  height height
  IMAG  image image
  REEN  is_reflection_enabled is_reflection_enabled
  LOCK  is_locked =gameitems.json:.0.is_locked
  LAYR  editor_layer =gameitems.json:.0.editor_layer
  LANR  editor_layer_name =gameitems.json:.0.editor_layer_name
  GRUP  part_group_name part_group_name
  LVIS  editor_layer_visibility =gameitems.json:.0.editor_layer_visibility
group Timer gameitems.0 gameitems/*.json:.Timer
  VCEN  center center
  TMON  timer.is_enabled is_timer_enabled
  TMIN  timer.interval timer_interval
  NAME  name name
  BGLS  backglass backglass
  LOCK  is_locked =gameitems.json:.0.is_locked
  LAYR  editor_layer =gameitems.json:.0.editor_layer
  LANR  editor_layer_name =gameitems.json:.0.editor_layer_name
  GRUP  part_group_name part_group_name
  LVIS  editor_layer_visibility =gameitems.json:.0.editor_layer_visibility
group Plunger gameitems.0 gameitems/*.json:.Plunger
  VCEN  center center
  WDTH  width width
  HIGH  height height
  ZADJ  z_adjust z_adjust
  HPSL  stroke stroke
  SPDP  speed_pull speed_pull
  SPDF  speed_fire speed_fire
  TYPE  plunger_type plunger_type Unknown/unknown,Modern/modern,Flat/flat,Custom/custom
  ANFR  anim_frames anim_frames
  MATR  material material
  IMAG  image image
  MEST  mech_strength mech_strength
  MECH  is_mech_plunger is_mech_plunger
  APLG  auto_plunger auto_plunger
  MPRK  park_position park_position
  PSCV  scatter_velocity scatter_velocity
  MOMX  momentum_xfer momentum_xfer
  TMON  timer.is_enabled is_timer_enabled
  TMIN  timer.interval timer_interval
  VSBL  is_visible is_visible
  REEN  is_reflection_enabled is_reflection_enabled
  SURF  surface surface
  NAME  name name
  TIPS  tip_shape tip_shape
  RODD  rod_diam rod_diam
  RNGG  ring_gap ring_gap
  RNGD  ring_diam ring_diam
  RNGW  ring_width ring_width
  SPRD  spring_diam spring_diam
  SPRG  spring_gauge spring_gauge
  SPRL  spring_loops spring_loops
  SPRE  spring_end_loops spring_end_loops
  LOCK  is_locked =gameitems.json:.0.is_locked
  LAYR  editor_layer =gameitems.json:.0.editor_layer
  LANR  editor_layer_name =gameitems.json:.0.editor_layer_name
  GRUP  part_group_name part_group_name
  LVIS  editor_layer_visibility =gameitems.json:.0.editor_layer_visibility
group TextBox gameitems.0 gameitems/*.json:.TextBox
  VER1  ver1 ver1
  VER2  ver2 ver2
  CLRB  back_color back_color
  CLRF  font_color font_color
  INSC  intensity_scale intensity_scale
  TEXT  text text
  TMON  timer.is_enabled is_timer_enabled
  TMIN  timer.interval timer_interval
  NAME  name name
  ALGN  align align Left/left,Center/center,Right/right
  TRNS  is_transparent is_transparent
  IDMD  is_dmd is_dmd
  LOCK  is_locked =gameitems.json:.0.is_locked
  LAYR  editor_layer =gameitems.json:.0.editor_layer
  LANR  editor_layer_name =gameitems.json:.0.editor_layer_name
  GRUP  part_group_name part_group_name
  LVIS  editor_layer_visibility =gameitems.json:.0.editor_layer_visibility
  FONT  font font
group Bumper gameitems.0 gameitems/*.json:.Bumper
  VCEN  center center
  RADI  radius radius
  TMON  timer.is_enabled is_timer_enabled
  TMIN  timer.interval timer_interval
  THRS  threshold threshold
  FORC  force force
  BSCT  scatter scatter
  HISC  height_scale height_scale
  RISP  ring_speed ring_speed
  ORIN  orientation orientation
  RDLI  ring_drop_offset ring_drop_offset
  MATR  cap_material cap_material
  BAMA  base_material base_material
  SKMA  socket_material socket_material
  RIMA  ring_material ring_material
  SURF  surface surface
  NAME  name name
  CAVI  is_cap_visible is_cap_visible
  BSVS  is_base_visible is_base_visible
  RIVS  is_ring_visible is_ring_visible
  SKVS  is_socket_visible is_socket_visible
  HAHE  hit_event hit_event
  COLI  is_collidable is_collidable
  REEN  is_reflection_enabled is_reflection_enabled
  LOCK  is_locked =gameitems.json:.0.is_locked
  LAYR  editor_layer =gameitems.json:.0.editor_layer
  LANR  editor_layer_name =gameitems.json:.0.editor_layer_name
  GRUP  part_group_name part_group_name
  LVIS  editor_layer_visibility =gameitems.json:.0.editor_layer_visibility
group Trigger gameitems.0 gameitems/*.json:.Trigger
  VCEN  center center
  RADI  radius radius
  ROTA  rotation rotation
  WITI  wire_thickness wire_thickness
  SCAX  scale_x scale_x
  SCAY  scale_y scale_y
  TMON  timer.is_enabled is_timer_enabled
  TMIN  timer.interval timer_interval
  SURF  surface surface
  MATR  material material
  EBLD  is_enabled is_enabled
  VSBL  is_visible is_visible
  THOT  hit_height hit_height
  NAME  name name
  SHAP  shape shape None/none,WireA/wire_a,Star/star,WireB/wire_b,Button/button,WireC/wire_c,WireD/wire_d,Inder/inder
  ANSP  anim_speed anim_speed
  REEN  is_reflection_enabled is_reflection_enabled
  LOCK  is_locked =gameitems.json:.0.is_locked
  LAYR  editor_layer =gameitems.json:.0.editor_layer
  LANR  editor_layer_name =gameitems.json:.0.editor_layer_name
  GRUP  part_group_name part_group_name
  LVIS  editor_layer_visibility =gameitems.json:.0.editor_layer_visibility
  DPNT  drag_points drag_points
group Light gameitems.0 gameitems/*.json:.Light
  VCEN  center center
  HGHT  height height
  RADI  falloff_radius falloff_radius
  FAPO  falloff_power falloff_power
  STAT  state_u32 state_u32
  STTF  state state
  COLR  color color
  COL2  color2 color2
  TMON  timer.is_enabled is_timer_enabled
  TMIN  timer.interval timer_interval
  BPAT  blink_pattern blink_pattern
  IMG1  image image
  BINT  blink_interval blink_interval
  BWTH  intensity intensity
  TRMS  transmission_scale transmission_scale
  SURF  surface surface
  NAME  name name
  BGLS  is_backglass is_backglass
  LIDB  depth_bias depth_bias
  FASP  fade_speed_up fade_speed_up
  FASD  fade_speed_down fade_speed_down
  BULT  is_bulb_light is_bulb_light
  IMMO  is_image_mode is_image_mode
  SHBM  show_bulb_mesh show_bulb_mesh
  STBM  has_static_bulb_mesh has_static_bulb_mesh
  SHRB  show_reflection_on_ball show_reflection_on_ball
  BMSC  mesh_radius mesh_radius
  BMVA  bulb_modulate_vs_add bulb_modulate_vs_add
  BHHI  bulb_halo_height bulb_halo_height
  SHDW  shadows shadows None/none,RaytracedBallShadows/raytraced_ball_shadows
  FADE  fader fader None/none,Linear/linear,Incandescent/incandescent
  VSBL  visible visible
  LOCK  is_locked =gameitems.json:.0.is_locked
  LAYR  editor_layer =gameitems.json:.0.editor_layer
  LANR  editor_layer_name =gameitems.json:.0.editor_layer_name
  GRUP  part_group_name part_group_name
  LVIS  editor_layer_visibility =gameitems.json:.0.editor_layer_visibility
  DPNT  drag_points drag_points
group Kicker gameitems.0 gameitems/*.json:.Kicker
  VCEN  center center
  RADI  radius radius
  TMON  timer.is_enabled is_timer_enabled
  TMIN  timer.interval timer_interval
  MATR  material material
  SURF  surface surface
  EBLD  is_enabled is_enabled
  NAME  name name
  TYPE  kicker_type kicker_type Invisible/invisible,Hole/hole,Cup/cup,HoleSimple/hole_simple,Williams/williams,Gottlieb/gottlieb,Cup2/cup2
  KSCT  scatter scatter
  KHAC  hit_accuracy hit_accuracy
  KHHI  hit_height hit_height
  KORI  orientation orientation
  FATH  fall_through fall_through
  LEMO  legacy_mode legacy_mode
  LOCK  is_locked =gameitems.json:.0.is_locked
  LAYR  editor_layer =gameitems.json:.0.editor_layer
  LANR  editor_layer_name =gameitems.json:.0.editor_layer_name
  GRUP  part_group_name part_group_name
  LVIS  editor_layer_visibility =gameitems.json:.0.editor_layer_visibility
group Decal gameitems.0 gameitems/*.json:.Decal
  VCEN  center center
  WDTH  width width
  HIGH  height height
  ROTA  rotation rotation
  IMAG  image image
  SURF  surface surface
  NAME  name name
  TEXT  text text
  TYPE  decal_type decal_type Text/text,Image/image
  MATR  material material
  COLR  color color
  SIZE  sizing_type sizing_type AutoSize/auto_size,AutoWidth/auto_width,ManualSize/manual_size
  VERT  vertical_text vertical_text
  BGLS  backglass backglass
  LOCK  is_locked =gameitems.json:.0.is_locked
  LAYR  editor_layer =gameitems.json:.0.editor_layer
  LANR  editor_layer_name =gameitems.json:.0.editor_layer_name
  GRUP  part_group_name part_group_name
  LVIS  editor_layer_visibility =gameitems.json:.0.editor_layer_visibility
  FONT  font font
group Gate gameitems.0 gameitems/*.json:.Gate
  VCEN  center center
  LGTH  length length
  HGTH  height height
  ROTA  rotation rotation
  MATR  material material
  TMON  timer.is_enabled is_timer_enabled
  GSUP  show_bracket show_bracket
  GCOL  is_collidable is_collidable
  TMIN  timer.interval timer_interval
  IMGF  imgf imgf
  IMGB  imgb imgb
  SURF  surface surface
  ELAS  elasticity elasticity
  GAMA  angle_max angle_max
  GAMI  angle_min angle_min
  GFRC  friction friction
  AFRC  damping damping
  GGFC  gravity_factor gravity_factor
  GVSB  is_visible is_visible
  NAME  name name
  TWWA  two_way two_way
  REEN  is_reflection_enabled is_reflection_enabled
  GATY  gate_type gate_type 0/0,WireW/wire_w,WireRectangle/wire_rectangle,Plate/plate,LongPlate/long_plate,5/5,6/6
  LOCK  is_locked =gameitems.json:.0.is_locked
  LAYR  editor_layer =gameitems.json:.0.editor_layer
  LANR  editor_layer_name =gameitems.json:.0.editor_layer_name
  GRUP  part_group_name part_group_name
  LVIS  editor_layer_visibility =gameitems.json:.0.editor_layer_visibility
group Spinner gameitems.0 gameitems/*.json:.Spinner
  VCEN  center center
  ROTA  rotation rotation
  TMON  timer.is_enabled is_timer_enabled
  TMIN  timer.interval timer_interval
  HIGH  height height
  LGTH  length length
  AFRC  damping damping
  SMAX  angle_max angle_max
  SMIN  angle_min angle_min
  SELA  elasticity elasticity
  SVIS  is_visible is_visible
  SSUP  show_bracket show_bracket
  MATR  material material
  IMGF  image image
  SURF  surface surface
  NAME  name name
  REEN  is_reflection_enabled is_reflection_enabled
  LOCK  is_locked =gameitems.json:.0.is_locked
  LAYR  editor_layer =gameitems.json:.0.editor_layer
  LANR  editor_layer_name =gameitems.json:.0.editor_layer_name
  GRUP  part_group_name part_group_name
  LVIS  editor_layer_visibility =gameitems.json:.0.editor_layer_visibility
group Ramp gameitems.0 gameitems/*.json:.Ramp
  HTBT  height_bottom height_bottom
  HTTP  height_top height_top
  WDBT  width_bottom width_bottom
  WDTP  width_top width_top
  MATR  material material
  TMON  timer.is_enabled is_timer_enabled
  TMIN  timer.interval timer_interval
  TYPE  ramp_type ramp_type Flat/flat,FourWire/four_wire,TwoWire/two_wire,ThreeWireLeft/three_wire_left,ThreeWireRight/three_wire_right,OneWire/one_wire
  NAME  name name
  IMAG  image image
  ALGN  image_alignment image_alignment World/world,Wrap/wrap,Unknown/unknown
  IMGW  image_walls image_walls
  WLHL  left_wall_height left_wall_height
  WLHR  right_wall_height right_wall_height
  WVHL  left_wall_height_visible left_wall_height_visible
  WVHR  right_wall_height_visible right_wall_height_visible
  HTEV  hit_event hit_event
  THRS  threshold threshold
  ELAS  elasticity elasticity
  RFCT  friction friction
  RSCT  scatter scatter
  CLDR  is_collidable is_collidable
  RVIS  is_visible is_visible
  RADB  depth_bias depth_bias
  RADI  wire_diameter wire_diameter
  RADX  wire_distance_x wire_distance_x
  RADY  wire_distance_y wire_distance_y
  REEN  is_reflection_enabled is_reflection_enabled
  MAPH  physics_material physics_material
  OVPH  overwrite_physics overwrite_physics
  LOCK  is_locked =gameitems.json:.0.is_locked
  LAYR  editor_layer =gameitems.json:.0.editor_layer
  LANR  editor_layer_name =gameitems.json:.0.editor_layer_name
  GRUP  part_group_name part_group_name
  LVIS  editor_layer_visibility =gameitems.json:.0.editor_layer_visibility
  DPNT  drag_points drag_points
group Reel gameitems.0 gameitems/*.json:.Reel
  VER1  ver1 ver1
  VER2  ver2 ver2
  CLRB  back_color back_color
  TMON  timer.is_enabled is_timer_enabled
  TMIN  timer.interval timer_interval
  TRNS  is_transparent is_transparent
  IMAG  image image
  SOUN  sound sound
  NAME  name name
  WDTH  width width
  HIGH  height height
  RCNT  reel_count reel_count
  RSPC  reel_spacing reel_spacing
  MSTP  motor_steps motor_steps
  RANG  digit_range digit_range
  UPTM  update_interval update_interval
  UGRD  use_image_grid use_image_grid
  VISI  is_visible is_visible
  GIPR  images_per_grid_row images_per_grid_row
  LOCK  is_locked =gameitems.json:.0.is_locked
  LAYR  editor_layer =gameitems.json:.0.editor_layer
  LANR  editor_layer_name =gameitems.json:.0.editor_layer_name
  GRUP  part_group_name part_group_name
  LVIS  editor_layer_visibility =gameitems.json:.0.editor_layer_visibility
group LightSequencer gameitems.0 gameitems/*.json:.LightSequencer
  VCEN  center center
  COLC  collection collection
  CTRX  pos_x pos_x
  CTRY  pos_y pos_y
  UPTM  update_interval update_interval
  TMON  timer.is_enabled is_timer_enabled
  TMIN  timer.interval timer_interval
  NAME  name name
  BGLS  backglass backglass
  LOCK  is_locked =gameitems.json:.0.is_locked
  GRUP  part_group_name part_group_name
  LAYR  editor_layer =gameitems.json:.0.editor_layer
  LANR  editor_layer_name =gameitems.json:.0.editor_layer_name
  LVIS  editor_layer_visibility =gameitems.json:.0.editor_layer_visibility
group Primitive gameitems.0 gameitems/*.json:.Primitive
  VPOS  position position
  VSIZ  size size
  RTV0  rot_and_tra.0 rot_and_tra.0
  RTV1  rot_and_tra.1 rot_and_tra.1
  RTV2  rot_and_tra.2 rot_and_tra.2
  RTV3  rot_and_tra.3 rot_and_tra.3
  RTV4  rot_and_tra.4 rot_and_tra.4
  RTV5  rot_and_tra.5 rot_and_tra.5
  RTV6  rot_and_tra.6 rot_and_tra.6
  RTV7  rot_and_tra.7 rot_and_tra.7
  RTV8  rot_and_tra.8 rot_and_tra.8
  IMAG  image image
  NRMA  normal_map normal_map
  SIDS  sides sides
  NAME  name name
  MATR  material material
  SCOL  side_color side_color
  TVIS  is_visible is_visible
  DTXI  draw_textures_inside draw_textures_inside
  HTEV  hit_event hit_event
  THRS  threshold threshold
  ELAS  elasticity elasticity
  ELFO  elasticity_falloff elasticity_falloff
  RFCT  friction friction
  RSCT  scatter scatter
  EFUI  edge_factor_ui edge_factor_ui
  CORF  collision_reduction_factor collision_reduction_factor
  CLDR  is_collidable is_collidable
  ISTO  is_toy is_toy
  U3DM  use_3d_mesh use_3d_mesh
  STRE  static_rendering static_rendering
  DILI  disable_lighting_top_old disable_lighting_top_old
  DILT  disable_lighting_top disable_lighting_top
  DILB  disable_lighting_below disable_lighting_below
  REEN  is_reflection_enabled is_reflection_enabled
  EBFC  backfaces_enabled backfaces_enabled
  MAPH  physics_material physics_material
  OVPH  overwrite_physics overwrite_physics
  DIPT  display_texture display_texture
  OSNM  object_space_normal_map object_space_normal_map
  BMIN  min_aa_bound min_aa_bound
  BMAX  max_aa_bound max_aa_bound
  M3DN  mesh_file_name mesh_file_name
  PIDB  depth_bias depth_bias
  ADDB  add_blend add_blend
  ZMSK  use_depth_mask use_depth_mask
  FALP  alpha alpha
  COLR  color color
  LMAP  light_map light_map
  REFL  reflection_probe reflection_probe
  RSTR  reflection_strength reflection_strength
  REFR  refraction_probe refraction_probe
  RTHI  refraction_thickness refraction_thickness
  LOCK  is_locked =gameitems.json:.0.is_locked
  LAYR  editor_layer =gameitems.json:.0.editor_layer
  LANR  editor_layer_name =gameitems.json:.0.editor_layer_name
  GRUP  part_group_name part_group_name
  LVIS  editor_layer_visibility =gameitems.json:.0.editor_layer_visibility
group Flasher gameitems.0 gameitems/*.json:.Flasher
  FHEI  height height
  FLAX  pos_x pos_x
  FLAY  pos_y pos_y
  FROX  rot_x rot_x
  FROY  rot_y rot_y
  FROZ  rot_z rot_z
  COLR  color color
  TMON  timer.is_enabled is_timer_enabled
  TMIN  timer.interval timer_interval
  NAME  name name
  IMAG  image_a image_a
  IMAB  image_b image_b
  FALP  alpha alpha
  MOVA  modulate_vs_add modulate_vs_add
  FVIS  is_visible is_visible
  DSPT  display_texture display_texture
  ADDB  add_blend add_blend
  IDMD  is_dmd is_dmd
  RDMD  render_mode render_mode Flasher/flasher,DMD/dmd,Display/display,AlphaSeg/alpha_seg,ExtRender/ext_render
  RSTL  render_style render_style
  GRGH  glass_roughness glass_roughness
  GAMB  glass_ambient glass_ambient
  GTOP  glass_pad_top glass_pad_top
  GBOT  glass_pad_bottom glass_pad_bottom
  GLFT  glass_pad_left glass_pad_left
  GRHT  glass_pad_right glass_pad_right
  LINK  image_src_link image_src_link
  FLDB  depth_bias depth_bias
  ALGN  image_alignment image_alignment World/world,Wrap/wrap,Unknown/unknown
  FILT  filter filter None/none,Additive/additive,Overlay/overlay,Multiply/multiply,Screen/screen
  FIAM  filter_amount filter_amount
  LMAP  light_map light_map
  BGLS  backglass backglass
  LOCK  is_locked =gameitems.json:.0.is_locked
  LAYR  editor_layer =gameitems.json:.0.editor_layer
  LANR  editor_layer_name =gameitems.json:.0.editor_layer_name
  GRUP  part_group_name part_group_name
  LVIS  editor_layer_visibility =gameitems.json:.0.editor_layer_visibility
  DPNT  drag_points drag_points
group Rubber gameitems.0 gameitems/*.json:.Rubber
  HTTP  height height
  HTHI  hit_height hit_height
  WDTP  thickness thickness
  HTEV  hit_event hit_event
  MATR  material material
  TMON  timer.is_enabled is_timer_enabled
  TMIN  timer.interval timer_interval
  NAME  name name
  IMAG  image image
  ELAS  elasticity elasticity
  ELFO  elasticity_falloff elasticity_falloff
  RFCT  friction friction
  RSCT  scatter scatter
  CLDR  is_collidable is_collidable
  RVIS  is_visible is_visible
  RADB  radb radb
  ESTR  static_rendering static_rendering
  ESIE  show_in_editor show_in_editor
  ROTX  rot_x rot_x
  ROTY  rot_y rot_y
  ROTZ  rot_z rot_z
  REEN  is_reflection_enabled is_reflection_enabled
  MAPH  physics_material physics_material
  OVPH  overwrite_physics overwrite_physics
  LOCK  is_locked =gameitems.json:.0.is_locked
  LAYR  editor_layer =gameitems.json:.0.editor_layer
  LANR  editor_layer_name =gameitems.json:.0.editor_layer_name
  GRUP  part_group_name part_group_name
  LVIS  editor_layer_visibility =gameitems.json:.0.editor_layer_visibility
  DPNT  drag_points drag_points
group HitTarget gameitems.0 gameitems/*.json:.HitTarget
  VPOS  position position
  VSIZ  size size
  ROTZ  rot_z rot_z
  IMAG  image image
  TRTY  target_type target_type DropTargetBeveled/drop_target_beveled,DropTargetSimple/drop_target_simple,HitTargetRound/hit_target_round,HitTargetRectangle/hit_target_rectangle,HitFatTargetRectangle/hit_fat_target_rectangle,HitFatTargetSquare/hit_fat_target_square,DropTargetFlatSimple/drop_target_flat_simple,HitFatTargetSlim/hit_fat_target_slim,HitTargetSlim/hit_target_slim
  NAME  name name
  MATR  material material
  TVIS  is_visible is_visible
  LEMO  is_legacy is_legacy
  HTEV  use_hit_event use_hit_event
  THRS  threshold threshold
  ELAS  elasticity elasticity
  ELFO  elasticity_falloff elasticity_falloff
  RFCT  friction friction
  RSCT  scatter scatter
  CLDR  is_collidable is_collidable
  DILI  disable_lighting_top_old disable_lighting_top_old
  DILT  disable_lighting_top disable_lighting_top
  DILB  disable_lighting_below disable_lighting_below
  REEN  is_reflection_enabled is_reflection_enabled
  PIDB  depth_bias depth_bias
  ISDR  is_dropped is_dropped
  DRSP  drop_speed drop_speed
  TMON  timer.is_enabled is_timer_enabled
  TMIN  timer.interval timer_interval
  RADE  raise_delay raise_delay
  MAPH  physics_material physics_material
  OVPH  overwrite_physics overwrite_physics
  LOCK  is_locked =gameitems.json:.0.is_locked
  LAYR  editor_layer =gameitems.json:.0.editor_layer
  LANR  editor_layer_name =gameitems.json:.0.editor_layer_name
  GRUP  part_group_name part_group_name
  LVIS  editor_layer_visibility =gameitems.json:.0.editor_layer_visibility
group Ball gameitems.0 gameitems/*.json:.Ball
  VCEN  pos pos
  RADI  radius radius
  MASS  mass mass
  FREF  force_reflection force_reflection
  DCMD  decal_mode decal_mode
  IMAG  image image
  DIMG  image_decal image_decal
  BISC  bulb_intensity_scale bulb_intensity_scale
  PFRF  playfield_reflection_strength playfield_reflection_strength
  COLR  color color
  SPHR  spherical_mapping spherical_mapping
  REEN  is_reflection_enabled is_reflection_enabled
  TMON  timer.is_enabled is_timer_enabled
  TMIN  timer.interval timer_interval
  NAME  name name
  LOCK  is_locked =gameitems.json:.0.is_locked
  LAYR  editor_layer =gameitems.json:.0.editor_layer
  LANR  editor_layer_name =gameitems.json:.0.editor_layer_name
  GRUP  part_group_name part_group_name
  LVIS  editor_layer_visibility =gameitems.json:.0.editor_layer_visibility
group PartGroup gameitems.0 gameitems/*.json:.PartGroup
  NAME  name name
  VCEN  center center
  TMON  timer.is_enabled is_timer_enabled
  TMIN  timer.interval timer_interval
  BGLS  backglass backglass
  VMSK  visibility_mask visibility_mask
  PMSK  player_mode_visibility_mask player_mode_visibility_mask
  SPRF  space_reference space_reference Playfield/playfield,Cabinet/cabinet,CabinetFeet/cabinet_feet,Room/room,Inherit/inherit
  LOCK  is_locked =gameitems.json:.0.is_locked
  LVIS  editor_layer_visibility =gameitems.json:.0.editor_layer_visibility
  LANR  editor_layer_name =gameitems.json:.0.editor_layer_name
group GameData gamedata gamedata.json:
  LEFT  left left
  TOPX  top top
  RGHT  right right
  BOTM  bottom bottom
  CLMO  camera_layout_mode camera_layout_mode
  VSM0  bg_view_mode_desktop bg_view_mode_desktop Legacy/legacy,Camera/camera,Window/window
  ROTA  bg_rotation_desktop bg_rotation_desktop
  INCL  bg_inclination_desktop bg_inclination_desktop
  LAYB  bg_layback_desktop bg_layback_desktop
  FOVX  bg_fov_desktop bg_fov_desktop
  XLTX  bg_offset_x_desktop bg_offset_x_desktop
  XLTY  bg_offset_y_desktop bg_offset_y_desktop
  XLTZ  bg_offset_z_desktop bg_offset_z_desktop
  SCLX  bg_scale_x_desktop bg_scale_x_desktop
  SCLY  bg_scale_y_desktop bg_scale_y_desktop
  SCLZ  bg_scale_z_desktop bg_scale_z_desktop
  HOF0  bg_view_horizontal_offset_desktop bg_view_horizontal_offset_desktop
  VOF0  bg_view_vertical_offset_desktop bg_view_vertical_offset_desktop
  WTX0  bg_window_top_x_offset_desktop bg_window_top_x_offset_desktop
  WTY0  bg_window_top_y_offset_desktop bg_window_top_y_offset_desktop
  WTZ0  bg_window_top_z_offset_desktop bg_window_top_z_offset_desktop
  WBX0  bg_window_bottom_x_offset_desktop bg_window_bottom_x_offset_desktop
  WBY0  bg_window_bottom_y_offset_desktop bg_window_bottom_y_offset_desktop
  WBZ0  bg_window_bottom_z_offset_desktop bg_window_bottom_z_offset_desktop
  VSM1  bg_view_mode_fullscreen bg_view_mode_fullscreen Legacy/legacy,Camera/camera,Window/window
  ROTF  bg_rotation_fullscreen bg_rotation_fullscreen
  INCF  bg_inclination_fullscreen bg_inclination_fullscreen
  LAYF  bg_layback_fullscreen bg_layback_fullscreen
  FOVF  bg_fov_fullscreen bg_fov_fullscreen
  XLFX  bg_offset_x_fullscreen bg_offset_x_fullscreen
  XLFY  bg_offset_y_fullscreen bg_offset_y_fullscreen
  XLFZ  bg_offset_z_fullscreen bg_offset_z_fullscreen
  SCFX  bg_scale_x_fullscreen bg_scale_x_fullscreen
  SCFY  bg_scale_y_fullscreen bg_scale_y_fullscreen
  SCFZ  bg_scale_z_fullscreen bg_scale_z_fullscreen
  HOF1  bg_view_horizontal_offset_fullscreen bg_view_horizontal_offset_fullscreen
  VOF1  bg_view_vertical_offset_fullscreen bg_view_vertical_offset_fullscreen
  WTX1  bg_window_top_x_offset_fullscreen bg_window_top_x_offset_fullscreen
  WTY1  bg_window_top_y_offset_fullscreen bg_window_top_y_offset_fullscreen
  WTZ1  bg_window_top_z_offset_fullscreen bg_window_top_z_offset_fullscreen
  WBX1  bg_window_bottom_x_offset_fullscreen bg_window_bottom_x_offset_fullscreen
  WBY1  bg_window_bottom_y_offset_fullscreen bg_window_bottom_y_offset_fullscreen
  WBZ1  bg_window_bottom_z_offset_fullscreen bg_window_bottom_z_offset_fullscreen
  VSM2  bg_view_mode_full_single_screen bg_view_mode_full_single_screen Legacy/legacy,Camera/camera,Window/window
  ROFS  bg_rotation_full_single_screen bg_rotation_full_single_screen
  INFS  bg_inclination_full_single_screen bg_inclination_full_single_screen
  LAFS  bg_layback_full_single_screen bg_layback_full_single_screen
  FOFS  bg_fov_full_single_screen bg_fov_full_single_screen
  XLXS  bg_offset_x_full_single_screen bg_offset_x_full_single_screen
  XLYS  bg_offset_y_full_single_screen bg_offset_y_full_single_screen
  XLZS  bg_offset_z_full_single_screen bg_offset_z_full_single_screen
  SCXS  bg_scale_x_full_single_screen bg_scale_x_full_single_screen
  SCYS  bg_scale_y_full_single_screen bg_scale_y_full_single_screen
  SCZS  bg_scale_z_full_single_screen bg_scale_z_full_single_screen
  HOF2  bg_view_horizontal_offset_full_single_screen bg_view_horizontal_offset_full_single_screen
  VOF2  bg_view_vertical_offset_full_single_screen bg_view_vertical_offset_full_single_screen
  WTX2  bg_window_top_x_offset_full_single_screen bg_window_top_x_offset_full_single_screen
  WTY2  bg_window_top_y_offset_full_single_screen bg_window_top_y_offset_full_single_screen
  WTZ2  bg_window_top_z_offset_full_single_screen bg_window_top_z_offset_full_single_screen
  WBX2  bg_window_bottom_x_offset_full_single_screen bg_window_bottom_x_offset_full_single_screen
  WBY2  bg_window_bottom_y_offset_full_single_screen bg_window_bottom_y_offset_full_single_screen
  WBZ2  bg_window_bottom_z_offset_full_single_screen bg_window_bottom_z_offset_full_single_screen
  ORRP  override_physics override_physics
  ORPF  override_physics_flipper override_physics_flipper
  GAVT  gravity gravity
  FRCT  friction friction
  ELAS  elasticity elasticity
  ELFA  elastic_falloff elastic_falloff
  PFSC  scatter scatter
  SCAT  default_scatter default_scatter
  NDGT  nudge_time nudge_time
  MPGC  plunger_normalize plunger_normalize
  MPDF  plunger_filter plunger_filter
  PHML  physics_max_loops physics_max_loops
  REEL  render_em_reels render_em_reels
  DECL  render_decals render_decals
  OFFX  offset_x offset_x
  OFFY  offset_y offset_y
  ZOOM  zoom zoom
  SLPX  angle_tilt_max angle_tilt_max
  SLOP  angle_tilt_min angle_tilt_min
  MAXS  stereo_max_separation stereo_max_separation
  ZPD   stereo_zero_parallax_displacement stereo_zero_parallax_displacement
  STO   stereo_offset stereo_offset
  OGST  overwrite_global_stereo3d overwrite_global_stereo3d
  IMAG  image image
  BIMG  backglass_image_full_desktop backglass_image_full_desktop
  BIMF  backglass_image_full_fullscreen backglass_image_full_fullscreen
  BIMS  backglass_image_full_single_screen backglass_image_full_single_screen
  BIMN  image_backdrop_night_day image_backdrop_night_day
  IMCG  image_color_grade image_color_grade
  BLIM  ball_image ball_image
  BLSM  ball_spherical_mapping ball_spherical_mapping
  BLIF  ball_image_front ball_image_front
  EIMG  env_image env_image
  NOTX  notes notes
  SSHT  screen_shot screen_shot
  FBCK  display_backdrop display_backdrop
  GLAS  glass_top_height glass_top_height
  GLAB  glass_bottom_height glass_bottom_height
  TBLH  table_height table_height
  PLMA  playfield_material playfield_material
  BCLR  backdrop_color backdrop_color
  TDFT  global_difficulty global_difficulty
  LZAM  light_ambient light_ambient
  LZDI  light0_emission light0_emission
  LZHI  light_height light_height
  LZRA  light_range light_range
  LIES  light_emission_scale light_emission_scale
  ENES  env_emission_scale env_emission_scale
  GLES  global_emission_scale global_emission_scale
  AOSC  ao_scale ao_scale
  SSSC  ssr_scale ssr_scale
  CLBH  ground_to_lockbar_height ground_to_lockbar_height
  SVOL  table_sound_volume table_sound_volume
  MVOL  table_music_volume table_music_volume
  AVSY  table_adaptive_vsync table_adaptive_vsync
  BREF  use_reflection_for_balls use_reflection_for_balls
  BRST  brst brst
  PLST  playfield_reflection_strength playfield_reflection_strength
  BTRA  use_trail_for_balls use_trail_for_balls
  BDMO  ball_decal_mode ball_decal_mode
  BPRS  ball_playfield_reflection_strength ball_playfield_reflection_strength
  DBIS  default_bulb_intensity_scale_on_ball default_bulb_intensity_scale_on_ball
  BTST  ball_trail_strength ball_trail_strength
  ARAC  user_detail_level user_detail_level
  OGAC  overwrite_global_detail_level overwrite_global_detail_level
  OGDN  overwrite_global_day_night overwrite_global_day_night
  GDAC  show_grid show_grid
  REOP  reflect_elements_on_playfield reflect_elements_on_playfield
  UAAL  use_aal use_aal
  UFXA  use_fxaa use_fxaa
  UAOC  use_ao use_ao
  USSR  use_ssr use_ssr
  TMAP  tone_mapper tone_mapper Reinhard/reinhard,AgX/agx,Filmic/filmic,Neutral/neutral,AgXPunchy/agx_punchy,5/5,6/6
  EXPO  exposure exposure
  BLST  bloom_strength bloom_strength
  MATR  materials materials.0.base_color
  RPRB  render_probes renderprobes.0.disable_light_reflection
  NAME  name name
  CCUS  custom_colors custom_colors
  SECB  protection_data protection_data
  CODE  code =script.vbs
  TLCK  locked locked
group Material gamedata.materials.1 materials.json:.1
  TYPE  type_ type Unknown/unknown,Basic/basic,Metal/metal
  NAME  name name
  WLIG  wrap_lighting wrap_lighting
  ROUG  roughness roughness
  GIML  glossy_image_lerp glossy_image_lerp
  THCK  thickness thickness
  EDGE  edge edge
  EALP  edge_alpha edge_alpha
  OPAC  opacity opacity
  BASE  base_color base_color
  GLOS  glossy_color glossy_color
  COAT  clearcoat_color clearcoat_color
  RTNT  refraction_tint refraction_tint
  EOPA  opacity_active opacity_active
  ELAS  elasticity elasticity
  ELFO  elasticity_falloff elasticity_falloff
  FRIC  friction friction
  SCAT  scatter_angle scatter_angle
group RenderProbe gamedata.render_probes.1 renderprobes.json:.1
  TYPE  render_probe.type_ type PlaneReflection/plane_reflection,ScreenSpaceTransparency/screen_space_transparency
  NAME  render_probe.name name
  RBAS  render_probe.roughness roughness
  RCLE  render_probe.roughness_clear roughness_clear
  RPLA  render_probe.reflection_plane reflection_plane
  RMOD  render_probe.reflection_mode reflection_mode None/none,Balls/balls,Static/static,StaticNBalls/static_and_balls,StaticNDynamic/static_and_dynamic,Dynamic/dynamic,Unknown/unknown
  RLMP  render_probe.disable_light_reflection disable_light_reflection
group DragPoint gameitems.0.drag_points.1 gameitems/*.json:.{}.drag_points.1
  VCEN  * *
  POSZ  z z
  SMTH  smooth smooth
  SLNG  is_slingshot is_slingshot
  ATEX  has_auto_texture has_auto_texture
  TEXC  tex_coord tex_coord
  LOCK  is_locked is_locked
  LAYR  editor_layer editor_layer
  LANR  editor_layer_name editor_layer_name
  LVIS  editor_layer_visibility editor_layer_visibility
