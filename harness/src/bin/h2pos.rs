pub use h2verif::{engine, ensure, forge, gadget, spec, tamper};

#[path = "../props/poseidon.rs"]
mod poseidon;

fn main() {
    let mut v = vec![];
    v.extend(poseidon::props());
    h2verif::cli(v)
}
