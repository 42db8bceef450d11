pub use h2verif::{engine, ensure, forge, gadget, spec, tamper};

#[path = "../props/ecc.rs"]
mod ecc;

fn main() {
    if let (Some("gen-bases"), Some(n)) = (std::env::args().nth(1).as_deref(), std::env::args().nth(2)) {
        return ecc::gen_bases(n.parse().unwrap());
    }
    h2verif::cli(ecc::props())
}
