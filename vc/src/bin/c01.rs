vc::worlds!("c01.rs");
fn main() {
    vc::runner::main(vc::runner::Property {
        id: "C01",
        contracts: contracts(),
        trusted: vc::TRUSTED.to_vec(),
        assumptions: vec![vc::ASSUME_SCALAR, "the double filters inside the point-in-triangle and 2D orientation tests are executed for three representative approximations (reported separately); that they are never wrong is evaluated concretely only"],
        external: vec![],
    });
}
