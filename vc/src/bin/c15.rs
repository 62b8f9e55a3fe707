vc::worlds!("c15.rs");
fn main() {
    vc::runner::main(vc::runner::Property {
        id: "C15",
        contracts: contracts(),
        trusted: vc::TRUSTED.to_vec(),
        assumptions: vec![vc::ASSUME_SCALAR, "nothing is proved beyond the bounds: the enumerated surfaces, two collapses in a row, and generated sequences on grids"],
        external: vec![],
    });
}
