//@ # P06: the macro table always reflects the latest definition of each name.
use vstd::prelude::*;
verus! {
//@ include mset.vxi

// ---- whitespace and comments in a body -----------------------------------------------------------------------------

/// `str::trim`
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn vx_trim(s: &str) -> (r: &str)
    ensures r@ == trimmed(s@),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_starts_with(s: &str, p: &str) -> (r: bool)
    ensures r == p@.is_prefix_of(s@),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_ends_with(s: &str, p: &str) -> (r: bool)
    ensures r == p@.is_suffix_of(s@),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_empty(s: &str) -> (r: bool)
    ensures r == (s@.len() == 0),
{ unimplemented!() }
//@ rule $s.trim() ~> vx_trim($s)
//@ rule $s.starts_with($p) ~> vx_starts_with($s, $p)
//@ rule $s.ends_with($p) ~> vx_ends_with($s, $p)
//@ rule s.is_empty() ~> vx_empty(s)

pub open spec fn comment(s: Seq<char>) -> bool {
    ||| "/*"@.is_prefix_of(s) && "*/"@.is_suffix_of(s)
    ||| "//"@.is_prefix_of(s)
}
pub open spec fn blank(s: Seq<char>) -> bool {
    trimmed(s).len() == 0 || comment(trimmed(s))
}
/// The tokens of a text which count.
pub open spec fn significant(v: Seq<Seq<char>>) -> Seq<Seq<char>> {
    v.filter(|s: Seq<char>| !blank(s))
}

//@ fn macro_set/mod.rs is_comment
    ensures r == comment(s@),
//@ end
//@ fn macro_set/mod.rs is_whitespace
    ensures r == blank(s@),
//@ end

/// `v.iter().filter(|t| keep(t))`
pub fn vx_filter<'a, F: Fn(&String) -> bool>(v: &'a Vec<String>, keep: F) -> (r: Vec<&'a String>)
    requires
        forall|s: &String| call_requires(keep, (s,)),
        forall|s: &String, b: bool| call_ensures(keep, (s,), b) ==> b == !blank(s@),
    ensures ref_texts(r@) == significant(texts(v@)),
{
    let mut out: Vec<&'a String> = Vec::new();
    let mut i = 0;
    proof { assert(texts(v@).take(0) =~= Seq::empty()); assert(significant(Seq::empty()) =~= Seq::empty()) by { reveal(Seq::filter); } assert(ref_texts(out@) =~= Seq::empty()); }
    while i < v.len()
        invariant
            i <= v.len(),
            forall|s: &String| call_requires(keep, (s,)),
            forall|s: &String, b: bool| call_ensures(keep, (s,), b) ==> b == !blank(s@),
            ref_texts(out@) == significant(texts(v@).take(i as int)),
        decreases v.len() - i,
    {
        proof {
            let a = texts(v@).take(i as int + 1);
            assert(a.drop_last() =~= texts(v@).take(i as int));
            assert(a.last() == v@[i as int]@);
            reveal(Seq::filter);
        }
        let ghost before = out@;
        if keep(&v[i]) {
            out.push(&v[i]);
            proof { assert(ref_texts(out@) =~= ref_texts(before).push(v@[i as int]@)); }
        }
        i += 1;
    }
    proof { assert(texts(v@).take(v@.len() as int) =~= texts(v@)); }
    out
}
/// `Iterator::eq`
#[verifier::external_body]
pub fn vx_eq(a: Vec<&String>, b: Vec<&String>) -> (r: bool)
    ensures r == (ref_texts(a@) == ref_texts(b@)),
{ unimplemented!() }
//@ rule $x.iter().filter(|$t| $p) ~> vx_filter(&$x, __vx_raw!(|$t: &String| -> (keep: bool) ensures keep == !blank($t@) { $p }))
//@ rule $a.eq($b) ~> vx_eq($a, $b)
//@ rule $x.into_iter().map(|$t| vx_owned(&$u)).collect::<Vec<_>>() ~> $x.vx_collect()
//@ rule $x.into_iter().map(|$t| $t.vx_str().to_owned()).collect::<Vec<_>>() ~> $x.vx_collect()

// ---- the table -----------------------------------------------------------------------------------------------------

//@ item macro_set/mod.rs MacroSet Clone Default

/// A definition.
pub enum Def {
    Var(Seq<Seq<char>>),
    /// Parameters and body
    Fn(Seq<Seq<char>>, Seq<Seq<char>>),
}
/// Equal but for whitespace and comments.
pub open spec fn same(a: Def, b: Def) -> bool {
    match (a, b) {
        (Def::Var(a), Def::Var(b)) => significant(a) == significant(b),
        (Def::Fn(p, a), Def::Fn(q, b)) => significant(p) == significant(q) && significant(a) == significant(b),
        _ => false,
    }
}

impl MacroSet {
    /// No name is defined as both kinds.
    pub open spec fn wf(&self) -> bool {
        forall|n: Seq<char>| !(self.var_macros@.dom().contains(n) && self.fn_macros@.dom().contains(n))
    }
    /// What is defined.
    pub open spec fn table(&self) -> Map<Seq<char>, Def> {
        Map::new(
            self.var_macros@.dom().union(self.fn_macros@.dom()),
            |n: Seq<char>| if self.var_macros@.dom().contains(n) { Def::Var(texts(self.var_macros@[n]@)) }
                else { Def::Fn(texts(self.fn_macros@[n].0@), texts(self.fn_macros@[n].1@)) },
        )
    }

//@ fn macro_set/mod.rs MacroSet::new
    ensures r.wf(), r.table() =~= Map::<Seq<char>, Def>::empty(),
//@ rule Self::default() ~> MacroSet { var_macros: VMap::new(), fn_macros: VMap::new() }
//@ end

//@ fn macro_set/mod.rs MacroSet::define_var_macro
//@ sig pub fn define_var_macro<N: VxText, B: VxTexts>(&mut self, name: N, body: B) -> (r: bool)
    requires old(self).wf(),
    ensures
        final(self).wf(),
        final(self).table() =~= old(self).table().insert(name.text(), Def::Var(body.all())),
        r == (old(self).table().dom().contains(name.text()) && !same(old(self).table()[name.text()], Def::Var(body.all()))),
//@ end

//@ fn macro_set/mod.rs MacroSet::define_fn_macro
//@ sig pub fn define_fn_macro<N: VxText, A: VxTexts, B: VxTexts>(&mut self, name: N, args: A, body: B) -> (r: bool)
    requires old(self).wf(),
    ensures
        final(self).wf(),
        final(self).table() =~= old(self).table().insert(name.text(), Def::Fn(args.all(), body.all())),
        r == (old(self).table().dom().contains(name.text())
            && !same(old(self).table()[name.text()], Def::Fn(args.all(), body.all()))),
//@ end

//@ fn macro_set/mod.rs MacroSet::undefine_var_macro
    requires old(self).wf(),
    ensures
        final(self).wf(),
        r == (old(self).table().dom().contains(name@) && old(self).table()[name@] is Var),
        final(self).table() =~= (if r { old(self).table().remove(name@) } else { old(self).table() }),
//@ end

//@ fn macro_set/mod.rs MacroSet::undefine_fn_macro
    requires old(self).wf(),
    ensures
        final(self).wf(),
        r == (old(self).table().dom().contains(name@) && old(self).table()[name@] is Fn),
        final(self).table() =~= (if r { old(self).table().remove(name@) } else { old(self).table() }),
//@ end
}

// ---- lookups -------------------------------------------------------------------------------------------------------

/// Tokens while a macro is expanded, and resulting tokens. How they are expanded is left abstract, but for what it
/// depends on: the table, the name, its parameters and its body.
#[verifier::external_body]
pub struct Tokens<'t> { _p: std::marker::PhantomData<&'t u8> }
#[verifier::external_body]
pub struct MacroTokens<'t> { _p: std::marker::PhantomData<&'t u8> }
//@ item macro_set/mod.rs ExpansionError PartialEq
//@ type Vec<Token<$l>> ~> Tokens<$l>
//@ type &[Token<$l>] ~> &Tokens<$l>
//@ type Vec<MacroToken<$l>> ~> MacroTokens<$l>
//@ rule &[] ~> &vx_no_tokens()
pub uninterp spec fn no_tokens() -> Tokens<'static>;
#[verifier::external_body]
pub fn vx_no_tokens() -> (r: Tokens<'static>)
    ensures r == no_tokens(),
{ unimplemented!() }

pub uninterp spec fn params_of(params: Seq<Seq<char>>) -> Result<Tokens<'static>, ExpansionError>;
pub uninterp spec fn body_of(params: Tokens, body: Seq<Seq<char>>) -> Tokens<'static>;
pub uninterp spec fn var_tokens(m: Map<Seq<char>, Def>, not: Set<Seq<char>>, name: Seq<char>, body: Tokens) -> Result<Tokens<'static>, ExpansionError>;
pub uninterp spec fn fn_tokens(m: Map<Seq<char>, Def>, not: Set<Seq<char>>, name: Seq<char>, params: Tokens, args: bool, body: Tokens) -> Result<Tokens<'static>, ExpansionError>;
pub uninterp spec fn results(params: Tokens, t: Tokens) -> Result<MacroTokens<'static>, ExpansionError>;

#[verifier::external_body]
pub fn tokenize_arg_names<'t>(arg_names: &Vec<String>) -> (r: Result<Tokens<'t>, ExpansionError>)
    ensures r == params_of(texts(arg_names@)),
{ unimplemented!() }
#[verifier::external_body]
pub fn tokenize<'t>(arg_names: &Tokens<'t>, tokens: &Vec<String>) -> (r: Tokens<'t>)
    ensures r == body_of(*arg_names, texts(tokens@)),
{ unimplemented!() }
#[verifier::external_body]
pub fn detokenize<'t>(arg_names: &Tokens<'t>, tokens: Tokens<'t>) -> (r: Result<MacroTokens<'t>, ExpansionError>)
    ensures r == results(*arg_names, tokens),
{ unimplemented!() }

pub open spec fn then(t: Result<Tokens<'static>, ExpansionError>, params: Tokens) -> Result<MacroTokens<'static>, ExpansionError> {
    match t { Ok(t) => results(params, t), Err(e) => Err(e) }
}
/// What a variable-like macro expands to.
pub open spec fn var_result(m: Map<Seq<char>, Def>, name: Seq<char>) -> Result<MacroTokens<'static>, ExpansionError> {
    if m.dom().contains(name) && m[name] is Var {
        then(var_tokens(m, Set::empty(), name, body_of(no_tokens(), m[name]->Var_0)), no_tokens())
    } else {
        Err(ExpansionError::MacroNotFound)
    }
}
/// What a function-like macro expands to.
pub open spec fn fn_result(m: Map<Seq<char>, Def>, name: Seq<char>) -> Result<(MacroTokens<'static>, MacroTokens<'static>), ExpansionError> {
    if m.dom().contains(name) && m[name] is Fn {
        match params_of(m[name]->Fn_0) {
            Err(e) => Err(e),
            Ok(p) => match then(fn_tokens(m, Set::empty(), name, p, false, body_of(p, m[name]->Fn_1)), p) {
                Err(e) => Err(e),
                Ok(t) => match results(no_tokens(), p) {
                    Err(e) => Err(e),
                    Ok(q) => Ok((q, t)),
                },
            },
        }
    } else {
        Err(ExpansionError::MacroNotFound)
    }
}

impl MacroSet {
    #[verifier::external_body]
    pub fn expand_var_macro_body<'s, 't, 'n>(&'s self, non_replaced_names: VSet<'n>, name: &'n str, body: &Tokens<'t>) -> (r: Result<Tokens<'t>, ExpansionError>)
        ensures r == var_tokens(self.table(), non_replaced_names@, name@, *body),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn expand_fn_macro_body<'s, 't, 'n>(&'s self, non_replaced_names: VSet<'n>, name: &'n str, arg_names: &Tokens<'t>, args: Option<&Vec<Tokens<'t>>>, body: &Tokens<'t>) -> (r: Result<Tokens<'t>, ExpansionError>)
        ensures r == fn_tokens(self.table(), non_replaced_names@, name@, *arg_names, args is Some, *body),
    { unimplemented!() }

//@ fn macro_set/mod.rs MacroSet::expand_var_macro
    requires self.wf(),
    ensures r == var_result(self.table(), name@),
//@ end
//@ fn macro_set/mod.rs MacroSet::expand_fn_macro
    requires self.wf(),
    ensures r == fn_result(self.table(), name@),
//@ end
}
}
fn main() {}
