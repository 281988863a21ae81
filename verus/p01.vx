//@ # P01: integer literals are read with exactly their C value and type.
use vstd::prelude::*;
verus! {
//@ include lex.vxi
use lemmas_lex::*;
//@ include cow.vxi
//@ include lits.vxi
//@ include int.vxi
}
fn main() {}
