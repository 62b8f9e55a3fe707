vc::worlds!("c12.rs");
fn main() {
    vc::runner::main(vc::runner::Property {
        id: "C12",
        contracts: contracts(),
        trusted: vc::TRUSTED.to_vec(),
        assumptions: vec![vc::ASSUME_SCALAR, "nothing is proved beyond the bounds: the enumerated grid sets and generated point sets", "predicates and the bounding box work on doubles as on the concrete numbers executed"],
        external: vec![],
    });
}
