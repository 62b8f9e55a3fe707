//! Contract verification of the generic geometry code by symbolic execution on a symbolic scalar.
pub mod conc_state;
pub mod engine;
pub mod json;
pub mod poly;
pub mod runner;
pub mod sym;
pub mod world_conc;
pub mod world_lazy;
pub mod world_num;
pub mod world_sym;

/// Include a contract file in the symbolic and the two concrete worlds and collect its contracts.
#[macro_export]
macro_rules! worlds {
    ($file:literal) => {
        #[allow(unused_imports, unused_variables, unused_macros, unused_mut, dead_code)]
        mod in_sym {
            use vc::world_sym::*;
            include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/prelude.rs"));
            include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/prelude_geo.rs"));
            include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/contracts/", $file));
        }
        #[allow(unused_imports, unused_variables, unused_macros, unused_mut, dead_code)]
        mod in_conc {
            use vc::world_conc::*;
            include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/prelude.rs"));
            include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/prelude_geo.rs"));
            include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/contracts/", $file));
        }
        #[allow(unused_imports, unused_variables, unused_macros, unused_mut, dead_code)]
        mod in_lazy {
            use vc::world_lazy::*;
            include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/prelude.rs"));
            include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/prelude_geo.rs"));
            include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/contracts/", $file));
        }
        fn contracts() -> Vec<vc::runner::Contract> {
            in_sym::list()
                .into_iter()
                .zip(in_conc::list())
                .zip(in_lazy::list())
                .map(|((s, c), l)| vc::runner::Contract { d: s, conc: c.f, lazy: Some(l.f) })
                .collect()
        }
    };
}
/// Contracts of the numeric modules when their extraction does not build: concrete evaluation only.
#[macro_export]
macro_rules! concrete_only {
    ($file:literal) => {
        #[allow(unused_imports, unused_variables, unused_macros, unused_mut, dead_code)]
        mod in_conc {
            use vc::world_num::*;
            include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/prelude.rs"));
            include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/contracts/", $file));
        }
        fn contracts() -> Vec<vc::runner::Contract> {
            in_conc::list()
                .into_iter()
                .map(|mut d| {
                    d.bounded = true;
                    vc::runner::Contract { conc: d.f, d, lazy: None }
                })
                .collect()
        }
    };
}
pub const NO_EXTRACTION: &str = "the extraction of the numeric modules did not build on this tree: nothing was proved on this run, contracts were only evaluated on random and adversarial inputs";
/// Trusted base shared by all properties decided by the symbolic-scalar engine.
pub const TRUSTED: &[&str] = &[
    "rustc and the Rust standard library",
    "z3 4.8.12, z3 4.x (z3-new), cvc5",
    "the VC generator in /verif/vc (path enumeration by re-execution, polynomial arithmetic, SMT encoding)",
    "GMP/rug rational arithmetic",
];
pub const ASSUME_SCALAR: &str = "the scalar type is an exact ordered field whose trait methods (sign, is_zero, comparison, abs, constants) mean what they say: proved or checked for the rational and lazy types by C02 and C03; generic code cannot observe the type otherwise (parametricity)";
/// Additional trusted base of the numeric properties.
pub const TRUSTED_NUM: &[&str] = &[
    "rustc and the Rust standard library",
    "z3 4.8.12, z3 4.x (z3-new), cvc5",
    "the VC generator in /verif/vc (path enumeration by re-execution, polynomial arithmetic, SMT encoding)",
    "the extraction in /verif/extract (f64 and rug names replaced by stand-in types, modules other than the numeric ones dropped) and the stand-in types in /verif/shadow/src/shim.rs",
];
pub const ASSUME_NUM: &[&str] = &[
    "doubles follow IEEE 754 binary64 round-to-nearest: each operation returns a value within half an ulp of the exact result, infinite from the overflow threshold on; the sign of a computed zero is arbitrary",
    "rug::Rational is an exact ordered field; to_f64 truncates towards zero and overflows to an infinity",
    "induction over expressions: operands are arbitrary numbers with any enclosing ball, so each operation is proved for every expression depth",
];
