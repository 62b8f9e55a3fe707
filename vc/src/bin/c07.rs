vc::worlds!("c07.rs");
fn main() {
    vc::runner::main(vc::runner::Property {
        id: "C07",
        contracts: contracts(),
        trusted: vc::TRUSTED.to_vec(),
        assumptions: vec![vc::ASSUME_SCALAR, "paths through double intervals are decided for the representative doubles listed with each contract; point sets up to four points"],
        external: vec![],
    });
}
