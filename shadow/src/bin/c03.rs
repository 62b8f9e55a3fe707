#[allow(unused_imports, unused_variables, unused_macros, unused_mut, dead_code)]
mod in_sym {
    use shadow::world::*;
    include!(concat!(env!("VERIF"), "/vc/src/prelude.rs"));
    include!(concat!(env!("VERIF"), "/vc/src/contracts/c03.rs"));
}
#[allow(unused_imports, unused_variables, unused_macros, unused_mut, dead_code)]
mod in_conc {
    use vc::world_num::*;
    include!(concat!(env!("VERIF"), "/vc/src/prelude.rs"));
    include!(concat!(env!("VERIF"), "/vc/src/contracts/c03.rs"));
}
fn main() {
    let contracts = in_sym::list().into_iter().zip(in_conc::list()).map(|(s, c)| vc::runner::Contract { d: s, conc: c.f, lazy: None }).collect();
    vc::runner::main(vc::runner::Property { id: "C03", contracts, trusted: vc::TRUSTED_NUM.to_vec(), assumptions: vc::ASSUME_NUM.to_vec(), external: vec![] });
}
