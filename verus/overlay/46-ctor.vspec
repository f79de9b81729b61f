fn transformations::new_map_joint_transform_generic (f) : C09
  ensures res == MapJointTransform::Generic(f, false)
fn transformations::new_map_transform_generic (f) : C07,C09,C10
  ensures res == MapTransform::Generic(f)
fn transformations::new_map_transform_transmute_generic (f) : C10
  ensures res == MapTransform::Generic(f)
fn transformations::new_map_transmute_transform_generic (f) : C10
  ensures res == MapTransform::Generic(f)
fn transformations::new_map_transmute_generic (f) : C08,C10,C11
  ensures res == MapTransmute::Generic(f)
fn transformations::new_map_transmute_transmute_generic (f) : C11
  ensures res == MapTransmute::Generic(f)
fn transformations::new_set_joint_transform_generic (f) : C18
  ensures res == SetJointTransform::Generic(f, false)
fn transformations::new_set_transform_generic (f) : C18
  ensures res == SetTransform::Generic(f)
fn transformations::new_set_transform_transmute_generic (f) : C18
  ensures res == SetTransform::Generic(f)
fn transformations::new_set_transmute_generic (f) : C18
  ensures res == SetTransmute::Generic(f)
fn transformations::new_set_transmute_transmute_generic (f) : C18
  ensures res == SetTransmute::Generic(f)
fn transformations::new_map_joint_transform_unchangedlr (r) : C09
  ensures res == MapJointTransform::UnchangedLR(r)
fn transformations::new_map_joint_transform_unchangedl (r) : C09
  ensures res == MapJointTransform::UnchangedL(r)
fn transformations::new_map_joint_transform_unchangedr (r) : C09
  ensures res == MapJointTransform::UnchangedR(r)
fn transformations::new_map_joint_transform_removed (r) : C09
  ensures res == MapJointTransform::Removed(r)
fn transformations::new_map_transform_unchanged (r) : C07,C09,C10
  ensures res == MapTransform::Unchanged(r)
fn transformations::new_map_transform_removed (r) : C07,C09,C10
  ensures res == MapTransform::Removed(r)
fn transformations::new_map_transform_transmute_unchanged (r) : C10
  ensures res == MapTransform::Unchanged(r)
fn transformations::new_map_transform_transmute_removed (r) : C10
  ensures res == MapTransform::Removed(r)
fn transformations::new_map_transmute_transform_unchanged (r) : C10
  ensures res == MapTransform::Unchanged(r)
fn transformations::new_map_transmute_transform_removed (r) : C10
  ensures res == MapTransform::Removed(r)
fn transformations::new_map_transmute_removed (r) : C08,C10,C11
  ensures res == MapTransmute::Removed(r)
fn transformations::new_map_transmute_transmute_removed (r) : C11
  ensures res == MapTransmute::Removed(r)
fn transformations::new_set_joint_transform_unchangedlr (r) : C18
  ensures res == SetJointTransform::UnchangedLR(r)
fn transformations::new_set_joint_transform_unchangedl (r) : C18
  ensures res == SetJointTransform::UnchangedL(r)
fn transformations::new_set_joint_transform_unchangedr (r) : C18
  ensures res == SetJointTransform::UnchangedR(r)
fn transformations::new_set_joint_transform_removed (r) : C18
  ensures res == SetJointTransform::Removed(r)
fn transformations::new_set_transform_unchanged (r) : C18
  ensures res == SetTransform::Unchanged(r)
fn transformations::new_set_transform_removed (r) : C18
  ensures res == SetTransform::Removed(r)
fn transformations::new_set_transform_transmute_unchanged (r) : C18
  ensures res == SetTransform::Unchanged(r)
fn transformations::new_set_transform_transmute_removed (r) : C18
  ensures res == SetTransform::Removed(r)
fn transformations::new_set_transmute_removed (r) : C18
  ensures res == SetTransmute::Removed(r)
fn transformations::new_set_transmute_transmute_removed (r) : C18
  ensures res == SetTransmute::Removed(r)
