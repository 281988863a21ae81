//@ # P11: what a macro is: its name, its parameters, and its body, an expression wherever it is one as a whole.
use vstd::prelude::*;
verus! {
//@ include lex.vxi
//@ include ast.vxi
//@ item macro_token/mod.rs MacroToken
//@ include clones.vxi
//@ include strtext.vxi
//@ assume tok.vxi
//@ assume idexpr.vxi
//@ assume ty.vxi
//@ assume expr.vxi
//@ assume stmt.vxi
//@ include macro.vxi
}
fn main() {}
