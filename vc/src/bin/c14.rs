vc::worlds!("c14.rs");
fn main() {
    vc::runner::main(vc::runner::Property {
        id: "C14",
        contracts: contracts(),
        trusted: vc::TRUSTED.to_vec(),
        assumptions: vec![vc::ASSUME_SCALAR],
        external: vec![],
    });
}
