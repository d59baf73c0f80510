#[path = "../../linalg/src/adapt.rs"]
mod adapt;
mod affine;
mod lat;
mod oper;
mod print;
mod sound;
mod space;
mod table;
mod tabs;
mod typed;
fn main() {
    let mut v = vec![];
    for l in [affine::CHECKS, space::CHECKS, lat::CHECKS, oper::CHECKS, tabs::CHECKS, print::CHECKS, typed::CHECKS, sound::CHECKS] { for c in l { v.push(fw::Check { ..*c }) } }
    fw::main(&v)
}
