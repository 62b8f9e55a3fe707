vc::worlds!("c16.rs");
fn main() {
    vc::runner::main(vc::runner::Property {
        id: "C16",
        contracts: contracts(),
        trusted: vc::TRUSTED.to_vec(),
        assumptions: vec![vc::ASSUME_SCALAR, "nothing is proved: booleans are executed on sampled pairs of solids", "the volume of the set operation is computed in doubles by clipping, to six digits"],
        external: vec![],
    });
}
