//@ # P12: type names denote the C types they spell.
use vstd::prelude::*;
verus! {
//@ include lex.vxi
//@ include ast.vxi
//@ item macro_token/mod.rs MacroToken
//@ include clones.vxi
//@ include strtext.vxi
//@ include tok.vxi
//@ include idexpr.vxi
//@ include ty.vxi
}
fn main() {}
