//@ # P05: every spelling is classified as the C token it is.
use vstd::prelude::*;
verus! {
//@ include lex.vxi
use lemmas_lex::*;
//@ include cow.vxi
//@ include lits.vxi
//@ include escape.vxi
//@ assume int.vxi
//@ assume char.vxi
//@ assume string.vxi
//@ assume float.vxi
//@ include ident.vxi
//@ include lit.vxi
//@ include token.vxi
}
fn main() {}
