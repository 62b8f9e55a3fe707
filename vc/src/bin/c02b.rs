vc::concrete_only!("c02.rs");
fn main() {
    vc::runner::main(vc::runner::Property { id: "C02", contracts: contracts(), trusted: vc::TRUSTED_NUM.to_vec(), assumptions: vec![vc::NO_EXTRACTION], external: vec![] });
}
