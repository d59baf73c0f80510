mod adapt;
mod arith;
mod solve;
fn main() {
    let mut v = vec![];
    for l in [solve::CHECKS, arith::CHECKS] { for c in l { v.push(fw::Check { ..*c }) } }
    fw::main(&v)
}
