macro_rules! require { ($f:expr) => { if !assume_($f) { return; } } }
use vc::runner::{proof, bounded, Decl};
// Included into both worlds: derived specification vocabulary.
#[allow(dead_code)] pub fn zero(x: &S) -> F { sgn(x, 2) }
#[allow(dead_code)] pub fn nonzero(x: &S) -> F { sgn(x, 5) }
#[allow(dead_code)] pub fn pos(x: &S) -> F { sgn(x, 4) }
#[allow(dead_code)] pub fn neg(x: &S) -> F { sgn(x, 1) }
#[allow(dead_code)] pub fn nonneg(x: &S) -> F { sgn(x, 6) }
#[allow(dead_code)] pub fn nonpos(x: &S) -> F { sgn(x, 3) }
#[allow(dead_code)] pub fn eq(a: &S, b: &S) -> F { zero(&(a - b)) }
#[allow(dead_code)] pub fn ne(a: &S, b: &S) -> F { nonzero(&(a - b)) }
#[allow(dead_code)] pub fn lt(a: &S, b: &S) -> F { neg(&(a - b)) }
#[allow(dead_code)] pub fn le(a: &S, b: &S) -> F { nonpos(&(a - b)) }
#[allow(dead_code)] pub fn imp(a: F, b: F) -> F { or(vec![not(a), b]) }
#[allow(dead_code)] pub fn iff(a: F, b: F) -> F { and(vec![imp(a.clone(), b.clone()), imp(b, a)]) }
#[allow(dead_code)] pub fn bool_(b: bool) -> F { if b { t() } else { ff() } }
#[allow(dead_code)] pub fn is_true_iff(b: bool, f: F) -> F { if b { f } else { not(f) } }
#[allow(dead_code)] pub const NN: u8 = 6;
