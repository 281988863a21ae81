//@ # P03: character literals decode to exactly the code point they denote.
use vstd::prelude::*;
verus! {
//@ include lex.vxi
use lemmas_lex::*;
//@ include cow.vxi
//@ include lits.vxi
//@ include escape.vxi
//@ include char.vxi
}
fn main() {}
