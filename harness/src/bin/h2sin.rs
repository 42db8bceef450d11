pub use h2verif::{engine, ensure, forge, gadget, spec, tamper};

#[allow(dead_code)]
#[path = "../props/ecc.rs"]
mod ecc;
#[path = "../props/sin.rs"]
mod sin;

fn main() {
    h2verif::cli(sin::props())
}
