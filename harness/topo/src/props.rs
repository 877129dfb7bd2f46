mod graph;
mod cube;
mod simplicial;
mod paths;
mod homology;
pub const TABLE: &[&[(&str, extern "C" fn())]] = &[graph::TABLE, cube::TABLE, simplicial::TABLE, paths::TABLE, homology::TABLE];
