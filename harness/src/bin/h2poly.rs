pub use h2verif::{engine, ensure, forge, gadget, spec, tamper};

#[path = "../props/poly.rs"]
mod poly;

fn main() {
    let mut v = vec![];
    v.extend(poly::props());
    h2verif::cli(v)
}
