mod pool;
mod tuple;
pub const TABLE: &[&[(&str, extern "C" fn())]] = &[pool::TABLE, tuple::TABLE];
