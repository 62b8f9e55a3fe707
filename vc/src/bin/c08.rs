vc::worlds!("c08.rs");
fn main() {
    vc::runner::main(vc::runner::Property {
        id: "C08",
        contracts: contracts(),
        trusted: vc::TRUSTED.to_vec(),
        assumptions: vec![vc::ASSUME_SCALAR, "nothing is proved beyond the bounds: trees of at most three built entries or three operations, corners on two or three lines per axis, and generated histories"],
        external: vec![],
    });
}
