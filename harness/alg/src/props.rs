mod ints;
mod rational;
mod perm;
mod vector;
mod matrix; mod decomp; mod sparse; mod num;
pub const TABLE: &[&[(&str, extern "C" fn())]] = &[ints::TABLE, rational::TABLE, perm::TABLE, vector::TABLE, matrix::TABLE, decomp::TABLE, sparse::TABLE, num::TABLE];
