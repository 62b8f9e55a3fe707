vc::worlds!("c11.rs");
fn main() {
    vc::runner::main(vc::runner::Property {
        id: "C11",
        contracts: contracts(),
        trusted: vc::TRUSTED.to_vec(),
        assumptions: vec![vc::ASSUME_SCALAR, "nothing is proved beyond the bounds: positions around cell borders, the enumerated surfaces, and generated sequences with coordinates up to a million"],
        external: vec![],
    });
}
