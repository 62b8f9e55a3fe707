vc::worlds!("c09.rs");
fn main() {
    vc::runner::main(vc::runner::Property {
        id: "C09",
        contracts: contracts(),
        trusted: vc::TRUSTED.to_vec(),
        assumptions: vec![vc::ASSUME_SCALAR, "locality: an operation that never looks behind a link leaving the patch (looking there is caught as an access out of range) behaves on every mesh as on its patch; every neighbourhood of an edge or face is one of the patches up to the numbering, of which two orders are executed", "links between patch elements that coincide (an edge whose two faces share more corners) are covered by the contracts on existing diagonals and equal corners only", "positions are symbolic in the contracts on positions and fixed in the contracts on links"],
        external: vec![],
    });
}
