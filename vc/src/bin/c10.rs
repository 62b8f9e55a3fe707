vc::worlds!("c10.rs");
fn main() {
    vc::runner::main(vc::runner::Property {
        id: "C10",
        contracts: contracts(),
        trusted: vc::TRUSTED.to_vec(),
        assumptions: vec![vc::ASSUME_SCALAR, "nothing is proved beyond the bounds: histories of four or five operations, the enumerated surfaces, and generated histories"],
        external: vec![],
    });
}
