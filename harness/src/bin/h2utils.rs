pub use h2verif::{engine, ensure, forge, gadget, spec, tamper};

#[path = "../props/utils.rs"]
mod utils;

fn main() {
    let mut v = vec![];
    v.extend(utils::props());
    h2verif::cli(v)
}
