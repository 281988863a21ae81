//@ # P03, P04: literals as tokens, and adjacent string literals.
use vstd::prelude::*;
verus! {
//@ include lex.vxi
use lemmas_lex::*;
//@ include cow.vxi
//@ include lits.vxi
//@ item ast/identifier.rs Identifier
//@ item ast/identifier.rs IdentifierContinue
//@ item ast/macro_arg.rs MacroArg Clone PartialEq
//@ item ast/comment.rs Comment
//@ item ast/punctuation.rs Punctuation
//@ item macro_token/mod.rs MacroToken
//@ include escape.vxi
//@ assume char.vxi
//@ assume string.vxi
impl<'t> Clone for Lit<'t> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@ include tok.vxi
//@ include tlit.vxi
}
fn main() {}
