//@ # P11: expressions are parsed with C's precedence and associativity.
use vstd::prelude::*;
verus! {
//@ include lex.vxi
//@ include ast.vxi
//@ item macro_token/mod.rs MacroToken
//@ include clones.vxi
//@ include strtext.vxi
//@ include tok.vxi
//@ assume idexpr.vxi
//@ assume ty.vxi
//@ include expr.vxi
}
fn main() {}
