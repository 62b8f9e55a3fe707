vc::worlds!("c06.rs");
fn main() {
    vc::runner::main(vc::runner::Property {
        id: "C06",
        contracts: contracts(),
        trusted: vc::TRUSTED.to_vec(),
        assumptions: vec![vc::ASSUME_SCALAR, "finding the face is executed on meshes of one or two faces only"],
        external: vec![],
    });
}
