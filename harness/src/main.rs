mod core;
mod entry;
mod r#gen;
mod oracle;
mod w_geo;
mod w_num;
mod w_thr;
mod w_tree;
mod w_tt;
mod w_mesh;
mod w_query;
mod w_bool;
mod w_remesh;
mod w_curve;
mod w_io;
mod w_dt;
mod w_ray;
mod zoo;

use crate::core::Prop;

const PROPS: &[&Prop] = &[&w_num::P01, &w_num::P02, &w_num::P03, &w_num::P04, &w_geo::P05, &w_geo::P06, &w_geo::P07, &w_geo::P08, &w_tt::P09, &w_tree::P10, &w_mesh::P11, &w_mesh::P12, &w_mesh::P13, &w_query::P14, &w_query::P15, &w_ray::P16, &w_ray::P17, &w_dt::P18, &w_dt::P19, &w_bool::P20, &w_remesh::P21, &w_io::P22, &w_curve::P23];

fn main() {
    entry::main(PROPS)
}
