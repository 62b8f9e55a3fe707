vc::worlds!("c13.rs");
fn main() {
    vc::runner::main(vc::runner::Property {
        id: "C13",
        contracts: contracts(),
        trusted: vc::TRUSTED.to_vec(),
        assumptions: vec![vc::ASSUME_SCALAR, "nothing is proved beyond the bounds: the enumerated surfaces, the listed coordinates, one spoilt place per text, and generated meshes and layouts", "the file system returns what was written"],
        external: vec![],
    });
}
