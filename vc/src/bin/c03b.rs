vc::concrete_only!("c03.rs");
fn main() {
    vc::runner::main(vc::runner::Property { id: "C03", contracts: contracts(), trusted: vc::TRUSTED_NUM.to_vec(), assumptions: vec![vc::NO_EXTRACTION], external: vec![] });
}
