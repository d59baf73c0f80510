mod blocks;
mod dbg;
mod deliver;
mod line;
#[path = "../../linalg/src/adapt.rs"]
mod adapt;
#[path = "../../geom/src/affine.rs"]
mod affine;
#[path = "../../geom/src/oper.rs"]
mod oper;
#[path = "../../geom/src/table.rs"]
mod table;
fn main() {
    let mut v = vec![];
    for l in [line::CHECKS, blocks::CHECKS, deliver::CHECKS] { for c in l { v.push(fw::Check { ..*c }) } }
    fw::main(&v)
}
