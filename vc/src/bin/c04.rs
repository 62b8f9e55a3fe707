vc::worlds!("c04.rs");
fn main() {
    vc::runner::main(vc::runner::Property {
        id: "C04",
        contracts: contracts(),
        trusted: vc::TRUSTED.to_vec(),
        assumptions: vec![vc::ASSUME_SCALAR],
        external: vec![],
    });
}
