pub use h2verif::{engine, ensure, forge, gadget, spec, tamper};

#[path = "../props/sha.rs"]
mod sha;

fn main() {
    h2verif::cli(sha::props())
}
