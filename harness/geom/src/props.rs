mod plane;
pub const TABLE: &[&[(&str, extern "C" fn())]] = &[plane::TABLE];
