//@ # P07: a macro call takes exactly its parenthesised, comma-separated arguments.
use vstd::prelude::*;
verus! {
//@ include expand.vxi
//@ item macro_set/mod.rs MacroSet Clone Default
//@ include calls.vxi

// ---- no token is lost ----------------------------------------------------------------------------------------------

/// Arguments with commas in between.
pub open spec fn join<'t>(a: Seq<Seq<Token<'t>>>, comma: Token<'t>) -> Seq<Token<'t>>
    decreases a.len()
{
    if a.len() == 0 { Seq::empty() }
    else if a.len() == 1 { a[0] }
    else { join(a.drop_last(), comma).push(comma) + a.last() }
}
/// Tokens which are the same but for the place where a comma is stored.
pub open spec fn alike<'t>(s: Seq<Token<'t>>, t: Seq<Token<'t>>) -> bool {
    s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == t[i] || (punct(s[i], ","@) && punct(t[i], ","@))
}
/// In order and without loss: the arguments, joined by commas, are the tokens between the parentheses.
pub proof fn lemma_arguments<'t>(s: Seq<Token<'t>>, k: nat, comma: Token<'t>)
    requires k <= s.len(), punct(comma, ","@),
    ensures
        alike(join(split_args(s, k), comma), s.take(k as int)),
        // and no argument contains a comma which is not within brackets of its own
        split_args(s, k).len() == 1 + top_commas(s, k),
    decreases k,
{
    if k > 0 {
        let a = split_args(s, (k - 1) as nat);
        lemma_arguments(s, (k - 1) as nat, comma);
        lemma_split_len(s, (k - 1) as nat);
        assert(s.take(k as int) =~= s.take(k - 1).push(s[k - 1]));
        let t = s[k - 1];
        if outside(s, k - 1) && punct(t, ","@) {
            let b = a.push(Seq::empty());
            assert(b.drop_last() =~= a);
            assert(join(b, comma) =~= join(a, comma).push(comma));
        } else {
            let b = a.drop_last().push(a.last().push(t));
            assert(b.drop_last() =~= a.drop_last());
            assert(join(b, comma) =~= join(a, comma).push(t));
        }
    }
}
pub open spec fn top_commas(s: Seq<Token>, k: nat) -> nat
    decreases k
{
    if k == 0 { 0 } else { top_commas(s, (k - 1) as nat) + if outside(s, k - 1) && punct(s[k - 1], ","@) { 1nat } else { 0nat } }
}

// ---- the number of arguments ---------------------------------------------------------------------------------------

pub open spec fn variadic(params: Seq<Token>) -> bool { params.len() > 0 && punct(params.last(), "..."@) }
pub open spec fn arity(params: Seq<Token>, args: Seq<Vec<Token>>) -> bool {
    if variadic(params) {
        args.len() >= params.len() - 1
    } else {
        ||| args.len() == params.len()
        // one empty argument counts as none
        ||| params.len() == 0 && args.len() == 1 && all_comments(args[0]@)
    }
}
/// An error in the expansion of an argument or of the body itself.
pub uninterp spec fn inner_error(e: ExpansionError) -> bool;
impl MacroSet {
    #[verifier::external_body]
    pub fn expand_arguments<'s, 't>(&'s self, non_replaced_names: VSet<'_>, arg_names: &Vec<Token<'t>>, args: &Vec<Vec<Token<'t>>>, tokens: &Vec<Token<'t>>) -> (r: Result<Vec<Token<'t>>, ExpansionError>)
        requires arity(arg_names@, args@),
        ensures r matches Err(e) ==> inner_error(e),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn expand_concat(tokens: Vec<Token<'_>>) -> (r: Result<Vec<Token<'_>>, ExpansionError>)
        ensures r matches Err(e) ==> inner_error(e),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_placemarkers(tokens: &mut Vec<Token<'_>>) { unimplemented!() }
    #[verifier::external_body]
    pub fn expand_macro_body<'s, 't>(&'s self, non_replaced_names: VSet<'_>, body: &Vec<Token<'t>>) -> (r: Result<Vec<Token<'t>>, ExpansionError>)
        ensures r matches Err(e) ==> inner_error(e),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn exclude_calls(&self, tokens: &mut Vec<Token<'_>>) { unimplemented!() }

//@ fn macro_set/mod.rs MacroSet::contains_var_args
    ensures r == has_var_args(body@),
//@ end
//@ fn macro_set/mod.rs MacroSet::expand_fn_macro_body
    requires no_comments(arg_names@).len() < usize::MAX,
    ensures
        ({
            let params = no_comments(arg_names@);
            let count = params.len() - if variadic(params) { 1int } else { 0 };
            match args {
                Some(args) => if arity(params, args@) {
                    r matches Err(ExpansionError::FnMacroArgumentError { name: n, required, given }) ==> inner_error(r->Err_0)
                } else {
                    r matches Err(e) && (
                        (e matches ExpansionError::FnMacroArgumentError { name: n, required, given } && n@ == name@ && required == count && given == args@.len())
                        || (e is NonVariadicVarArgs && !variadic(params) && has_var_args(body@)))
                },
                None => r matches Err(ExpansionError::FnMacroArgumentError { name: n, required, given }) ==> inner_error(r->Err_0),
            }
        }),
//@ end
}
}
fn main() {}
