pub use h2verif::{engine, ensure, forge, gadget, spec, tamper};

#[path = "../props/plonk.rs"]
mod plonk;
#[path = "../props/proof.rs"]
mod proof;
#[path = "../props/layout.rs"]
mod layout;

fn main() {
    let mut v = vec![];
    v.extend(plonk::props());
    v.extend(proof::props());
    v.extend(layout::props());
    h2verif::cli(v)
}
