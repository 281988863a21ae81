//@ # P04: string literals decode to exactly the text they denote.
use vstd::prelude::*;
verus! {
//@ include lex.vxi
use lemmas_lex::*;
//@ include cow.vxi
//@ include lits.vxi
//@ include escape.vxi
//@ include string.vxi
}
fn main() {}
