//@ # P17: statements keep their order and control flow.
use vstd::prelude::*;
verus! {
//@ include lex.vxi
//@ include ast.vxi
//@ item macro_token/mod.rs MacroToken
//@ include clones.vxi
//@ include strtext.vxi
//@ assume tok.vxi
//@ assume idexpr.vxi
//@ assume ty.vxi
//@ assume expr.vxi
//@ include stmt.vxi
}
fn main() {}
