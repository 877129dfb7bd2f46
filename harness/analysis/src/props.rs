mod smooth;
pub const TABLE: &[&[(&str, extern "C" fn())]] = &[smooth::TABLE];
