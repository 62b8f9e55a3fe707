vc::worlds!("c17.rs");
fn main() {
    vc::runner::main(vc::runner::Property {
        id: "C17",
        contracts: contracts(),
        trusted: vc::TRUSTED.to_vec(),
        assumptions: vec![vc::ASSUME_SCALAR, "nothing is proved: remeshing is executed on sampled meshes of doubles"],
        external: vec![],
    });
}
