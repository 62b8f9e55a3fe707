vc::worlds!("c05.rs");
fn main() {
    vc::runner::main(vc::runner::Property {
        id: "C05",
        contracts: contracts(),
        trusted: vc::TRUSTED.to_vec(),
        assumptions: vec![vc::ASSUME_SCALAR, "the point-merging distance is taken as zero in the proofs", "proofs take normals without a zero component, and one projection axis, corner order and side per contract; the double approximations only choose the dropped axis", "coplanar triangles and most contracts of the detailed variant are evaluated on generated inputs only"],
        external: vec![],
    });
}
