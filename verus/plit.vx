//@ # A literal of one kind is never taken for one of another kind (P01, P03, P04, P15).
use vstd::prelude::*;
verus! {
//@ include lex.vxi
use lemmas_lex::*;
//@ include cow.vxi
//@ include lits.vxi
//@ assume escape.vxi
//@ assume int.vxi
//@ assume char.vxi
//@ assume string.vxi
//@ assume float.vxi
//@ include lit.vxi
}
fn main() {}
