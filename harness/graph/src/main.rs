mod adapt;
mod basic;
mod dims;
mod fams;
mod hist;
mod sym;
fn main() {
    let mut v = vec![];
    for l in [basic::CHECKS, sym::CHECKS, hist::CHECKS] { for c in l { v.push(fw::Check { ..*c }) } }
    fw::main(&v)
}
