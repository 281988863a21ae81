//@ # P10: operands of `##` which are arguments.
use vstd::prelude::*;
verus! {
//@ include expand.vxi
//@ item macro_set/mod.rs MacroSet Clone Default

/// How arguments are stringified and macro-expanded (P08, P09).
pub uninterp spec fn expanded<'t>(set: MacroSet, names: Set<Seq<char>>, a: Seq<Token<'t>>, e: Seq<Token<'t>>) -> bool;
pub uninterp spec fn inner_error(e: ExpansionError) -> bool;
pub uninterp spec fn stringified<'t>(ts: Seq<Token<'t>>, nested: bool, out: Seq<Token<'t>>) -> bool;
/// Proved in P09.
pub axiom fn lemma_stringified<'t>(ts: Seq<Token<'t>>, nested: bool, out: Seq<Token<'t>>)
    requires stringified(ts, nested, out),
    ensures last_operand(out) is Some, forall|s: Seq<char>| !ends_with_op(out, s);
#[verifier::external_body]
pub fn stringify(tokens: Vec<Token<'_>>, nested: bool) -> (r: Vec<Token<'_>>)
    ensures stringified(tokens@, nested, r@),
{ unimplemented!() }
//@ include args.vxi
impl MacroSet {
    #[verifier::external_body]
    pub fn expand_macro_body<'s, 't>(&'s self, non_replaced_names: VSet<'_>, body: &Vec<Token<'t>>) -> (r: Result<Vec<Token<'t>>, ExpansionError>)
        ensures match r { Ok(e) => expanded(*self, non_replaced_names@, body@, e@), Err(e) => inner_error(e) },
    { unimplemented!() }
//@ include expand_arguments.vxi
}
}
fn main() {}
