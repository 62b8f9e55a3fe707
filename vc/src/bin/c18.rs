vc::worlds!("c18.rs");
fn main() {
    vc::runner::main(vc::runner::Property {
        id: "C18",
        contracts: contracts(),
        trusted: vc::TRUSTED.to_vec(),
        assumptions: vec![vc::ASSUME_SCALAR, "the tree offers every face whose box meets the box of the ray (C08); the doubles it keeps are taken as unbounded intervals", "more faces than stated are sampled, not proved"],
        external: vec![],
    });
}
