//@ # P08: expansion terminates, is complete and never expands a macro inside itself.
use vstd::prelude::*;
verus! {
//@ include expand.vxi
//@ item macro_set/mod.rs MacroSet Clone Default
//@ include calls.vxi
//@ include fine.vxi

// ---- the rules -----------------------------------------------------------------------------------------------------

/// `out` is what the tokens `s` expand to while the macros `names` are being expanded. Nothing is known about it but
/// the rules below: it is the least relation which they allow.
pub uninterp spec fn expanded<'t>(set: MacroSet, names: Set<Seq<char>>, s: Seq<Token<'t>>, out: Seq<Token<'t>>) -> bool;
/// How tokens are pasted (P10) and stringified (P09).
pub uninterp spec fn pasted<'t>(s: Seq<Token<'t>>, out: Seq<Token<'t>>) -> bool;
pub uninterp spec fn stringified<'t>(ts: Seq<Token<'t>>, nested: bool, out: Seq<Token<'t>>) -> bool;
/// Which token a spelling stands for (P05).
pub uninterp spec fn classified(s: Seq<char>, t: Token) -> bool;
pub uninterp spec fn inner_error(e: ExpansionError) -> bool;
/// Proved in P09.
pub axiom fn lemma_stringified<'t>(ts: Seq<Token<'t>>, nested: bool, out: Seq<Token<'t>>)
    requires stringified(ts, nested, out),
    ensures
        last_operand(out) is Some, forall|s: Seq<char>| !ends_with_op(out, s),
        forall|va: bool| #[trigger] all_fine(ts, va) ==> all_fine(out, va);
//@ include args.vxi
pub open spec fn all_texts<T: VxText>(v: Seq<T>) -> Seq<Seq<char>> { v.map_values(|t: T| t.text()) }

pub open spec fn ident_in(t: Token, names: Set<Seq<char>>) -> bool { t matches Token::Identifier(i) && names.contains(i.id@) }
pub open spec fn var_name(set: MacroSet, t: Token) -> bool { ident_in(t, set.var_macros@.dom()) }
pub open spec fn fn_name(set: MacroSet, t: Token) -> bool { ident_in(t, set.fn_macros@.dom()) }
pub open spec fn name_of(t: Token) -> Seq<char> { t->Identifier_0.id@ }
/// The parenthesised arguments of a call follow.
pub open spec fn is_call(t: Seq<Token>) -> bool { exists|n: int| call(t, n) }
/// `r` is the token `t`, which is never replaced from now on.
pub open spec fn painted<'t>(t: Token<'t>, r: Token<'t>) -> bool { r matches Token::NonReplacable(b) && *b == t }
/// Names of function-like macros which were no calls when they were scanned are none later on either.
pub open spec fn calls_painted<'t>(set: MacroSet, s: Seq<Token<'t>>, out: Seq<Token<'t>>) -> bool {
    &&& out.len() == s.len()
    &&& forall|i: int| 0 <= i < s.len() ==> call_painted(set, s, i, #[trigger] out[i])
}
pub open spec fn call_painted<'t>(set: MacroSet, s: Seq<Token<'t>>, i: int, r: Token<'t>) -> bool {
    if fn_name(set, s[i]) && is_call(s.skip(i + 1)) { painted(s[i], r) } else { r == s[i] }
}
pub open spec fn without_placemarkers<'t>(s: Seq<Token<'t>>) -> Seq<Token<'t>> { s.filter(|t: Token<'t>| !(t is Placemarker)) }

/// The parameters which are spelled like this.
pub open spec fn params_of<'t>(spelled: Seq<Seq<char>>, params: Seq<Token<'t>>) -> bool {
    &&& params.len() == spelled.len()
    &&& forall|i: int| 0 <= i < params.len() ==> #[trigger] param(params[i]) && classified(spelled[i], params[i])
    &&& forall|i: int, j: int| 0 <= i < j < params.len() && #[trigger] punct(params[i], "..."@) ==> #[trigger] params[j] is Comment
}
pub open spec fn param(t: Token) -> bool { t is Identifier || t is Comment || punct(t, "..."@) }
/// The position of the parameter with the given name among the parameters.
pub open spec fn param_index(params: Seq<Token>, name: Seq<char>) -> Option<nat>
    decreases params.len()
{
    if params.len() == 0 { None }
    else if params[0] matches Token::Identifier(i) && i.id@ == name { Some(0) }
    else {
        match param_index(params.skip(1), name) {
            Some(k) => Some(if params[0] is Identifier || params[0] is Punctuation { k + 1 } else { k }),
            None => None,
        }
    }
}
/// `t` is the token of a body which is spelled like this.
pub open spec fn body_token(params: Seq<Token>, spelled: Seq<char>, t: Token) -> bool {
    match param_index(params, spelled) {
        Some(k) => t matches Token::MacroArg(i) && i == k,
        None => classified(spelled, t) && !(t is MacroArg || t is NonReplacable || t is Placemarker),
    }
}
pub open spec fn body_of<'t>(params: Seq<Token<'t>>, spelled: Seq<Seq<char>>, body: Seq<Token<'t>>) -> bool {
    body.len() == spelled.len() && forall|i: int| 0 <= i < body.len() ==> body_token(params, spelled[i], #[trigger] body[i])
}
/// What the body of the macro `name` is expanded to once the arguments are in place.
pub open spec fn rescanned<'t>(set: MacroSet, names: Set<Seq<char>>, name: Seq<char>, body: Seq<Token<'t>>, out: Seq<Token<'t>>) -> bool {
    exists|p: Seq<Token<'t>>, e: Seq<Token<'t>>| {
        &&& #[trigger] pasted(body, p)
        &&& #[trigger] expanded(set, names.insert(name), without_placemarkers(p), e)
        &&& calls_painted(set, e, out)
    }
}
/// What a use of a variable-like macro is replaced by.
pub open spec fn var_replaced<'t>(set: MacroSet, names: Set<Seq<char>>, name: Seq<char>, out: Seq<Token<'t>>) -> bool {
    exists|body: Seq<Token<'t>>| #[trigger] body_of(Seq::empty(), all_texts(set.var_macros@[name]@), body) && !has_var_args(body)
        && rescanned(set, names, name, body, out)
}
pub open spec fn variadic(params: Seq<Token>) -> bool { params.len() > 0 && punct(params.last(), "..."@) }
/// What a call of a function-like macro with the given parameters, arguments and body is replaced by.
pub open spec fn fn_replaced<'t>(set: MacroSet, names: Set<Seq<char>>, name: Seq<char>, params: Seq<Token<'t>>, args: Option<Seq<Vec<Token<'t>>>>, body: Seq<Token<'t>>, out: Seq<Token<'t>>) -> bool {
    &&& has_var_args(body) ==> variadic(params)
    &&& match args {
        Some(args) => exists|pieces: Seq<Seq<Token<'t>>>| {
            &&& #[trigger] substituted(set, names, params.len() as int, args, body, pieces)
            &&& pieces.len() == body.len()
            &&& rescanned(set, names, name, flatten(pieces), out)
        },
        None => rescanned(set, names, name, body, out),
    }
}
/// What a call is replaced by, whose parentheses are closed by the `n`th of the tokens after the opening one.
pub open spec fn call_replaced<'t>(set: MacroSet, names: Set<Seq<char>>, name: Seq<char>, s: Seq<Token<'t>>, n: int, out: Seq<Token<'t>>) -> bool {
    exists|params: Seq<Token<'t>>, args: Seq<Vec<Token<'t>>>, body: Seq<Token<'t>>| {
        &&& #[trigger] params_of(all_texts(set.fn_macros@[name].0@), params)
        &&& #[trigger] token_lists(args) == split_args(s, n as nat)
        &&& #[trigger] body_of(params, all_texts(set.fn_macros@[name].1@), body)
        &&& fn_replaced(set, names, name, no_comments(params), Some(args), body, out)
    }
}

/// A use of a function-like macro, with its arguments.
pub open spec fn called(set: MacroSet, names: Set<Seq<char>>, s: Seq<Token>) -> bool {
    s.len() > 0 && fn_name(set, s[0]) && !ident_in(s[0], names) && is_call(s.skip(1))
}
pub open spec fn used(set: MacroSet, names: Set<Seq<char>>, s: Seq<Token>) -> bool {
    s.len() > 0 && var_name(set, s[0]) && !ident_in(s[0], names) && !called(set, names, s)
}
/// Nothing is left of no tokens.
pub axiom fn rule_done<'t>(set: MacroSet, names: Set<Seq<char>>)
    ensures expanded(set, names, Seq::<Token<'t>>::empty(), Seq::<Token<'t>>::empty());
/// The name of a macro which is being expanded is left as it is, from now on.
pub axiom fn rule_paint<'t>(set: MacroSet, names: Set<Seq<char>>, s: Seq<Token<'t>>, r: Token<'t>, out: Seq<Token<'t>>)
    requires s.len() > 0, ident_in(s[0], names), painted(s[0], r), expanded(set, names, s.skip(1), out),
    ensures expanded(set, names, s, seq![r] + out);
/// What is no use of a macro is kept.
pub axiom fn rule_keep<'t>(set: MacroSet, names: Set<Seq<char>>, s: Seq<Token<'t>>, out: Seq<Token<'t>>)
    requires s.len() > 0, !ident_in(s[0], names), !used(set, names, s), !called(set, names, s), expanded(set, names, s.skip(1), out),
    ensures expanded(set, names, s, seq![s[0]] + out);
/// A call is replaced, and what replaces it is scanned again along with what follows.
pub axiom fn rule_call<'t>(set: MacroSet, names: Set<Seq<char>>, s: Seq<Token<'t>>, n: int, e: Seq<Token<'t>>, out: Seq<Token<'t>>)
    requires
        called(set, names, s), call(s.skip(1), n), call_replaced(set, names, name_of(s[0]), s.skip(2), n, e),
        expanded(set, names, e + s.skip(n + 3), out),
    ensures expanded(set, names, s, out);
/// A use is replaced, and what replaces it is scanned again along with what follows.
pub axiom fn rule_use<'t>(set: MacroSet, names: Set<Seq<char>>, s: Seq<Token<'t>>, e: Seq<Token<'t>>, out: Seq<Token<'t>>)
    requires used(set, names, s), var_replaced(set, names, name_of(s[0]), e), expanded(set, names, e + s.skip(1), out),
    ensures expanded(set, names, s, out);

// ---- results -------------------------------------------------------------------------------------------------------

/// No use of a variable-like macro is left, nor a name of a macro which is being expanded.
pub open spec fn complete(set: MacroSet, names: Set<Seq<char>>, out: Seq<Token>) -> bool {
    forall|i: int| 0 <= i < out.len() ==> !var_name(set, #[trigger] out[i]) && !ident_in(out[i], names)
}
/// No call is left either.
pub open spec fn no_calls(set: MacroSet, out: Seq<Token>) -> bool {
    forall|i: int| 0 <= i < out.len() && fn_name(set, #[trigger] out[i]) ==> !is_call(out.skip(i + 1))
}

// ---- parameters ----------------------------------------------------------------------------------------------------

pub open spec fn args_fine(args: Seq<Vec<Token>>, va: bool) -> bool { forall|i: int| 0 <= i < args.len() ==> all_fine(#[trigger] args[i]@, va) }
/// The tokens of a body as it was defined.
pub open spec fn fresh(s: Seq<Token>) -> bool { forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i] is NonReplacable) }
/// The number of parameters which have a name.
pub open spec fn named(params: Seq<Token>) -> int { params.len() - if variadic(params) { 1int } else { 0 } }
/// Every parameter in the body is one of the given ones.
pub open spec fn params_in(params: Seq<Token>, body: Seq<Token>) -> bool {
    forall|i: int| 0 <= i < body.len() && #[trigger] body[i] is MacroArg ==> body[i]->MacroArg_0 < named(params)
}
pub proof fn lemma_param_index(params: Seq<Token>, name: Seq<char>)
    requires forall|i: int| 0 <= i < params.len() ==> #[trigger] param(params[i]),
    ensures param_index(params, name) matches Some(k) ==> k < no_comments(params).len() && no_comments(params)[k as int] is Identifier,
    decreases params.len(),
{
    if params.len() > 0 {
        let (a, b) = (seq![params[0]], params.skip(1));
        assert forall|i: int| 0 <= i < b.len() implies #[trigger] param(b[i]) by { assert(param(params[i + 1])); }
        lemma_param_index(b, name);
        assert(params =~= a + b);
        Seq::filter_distributes_over_add(a, b, |t: Token| !(t is Comment));
        reveal_with_fuel(Seq::filter, 2);
        assert(param(params[0]));
        assert(a.drop_last() =~= Seq::empty());
        if params[0] is Comment { assert(no_comments(a) =~= Seq::empty()); assert(no_comments(params) =~= no_comments(b)); }
        else { assert(no_comments(a) =~= a); assert(no_comments(params) =~= a + no_comments(b)); }
    }
}
pub proof fn lemma_params_in(params: Seq<Token>, spelled: Seq<Seq<char>>, body: Seq<Token>)
    requires
        forall|i: int| 0 <= i < params.len() ==> #[trigger] param(params[i]),
        body_of(params, spelled, body),
    ensures params_in(no_comments(params), body), fresh(body),
{
    assert forall|i: int| 0 <= i < body.len() implies !(#[trigger] body[i] is NonReplacable)
        && (body[i] is MacroArg ==> body[i]->MacroArg_0 < named(no_comments(params))) by {
        assert(body_token(params, spelled[i], body[i]));
        lemma_param_index(params, spelled[i]);
    }
}

// ---- termination ---------------------------------------------------------------------------------------------------

/// Nothing in here is to be expanded on its own, whatever is being expanded.
pub open spec fn live(set: MacroSet, s: Seq<Token>, i: int) -> bool {
    var_name(set, s[i]) || (fn_name(set, s[i]) && is_call(s.skip(i + 1)))
}
pub open spec fn inert(set: MacroSet, s: Seq<Token>) -> bool { forall|i: int| 0 <= i < s.len() ==> !#[trigger] live(set, s, i) }
/// The length of the longest inert part at the start of the first `k` tokens.
pub open spec fn settled(set: MacroSet, s: Seq<Token>, k: nat) -> nat
    decreases k
{
    if k == 0 || inert(set, s.take(k as int)) { k } else { settled(set, s, (k - 1) as nat) }
}
/// How many tokens are left behind what is settled.
pub open spec fn work(set: MacroSet, s: Seq<Token>) -> nat { (s.len() - settled(set, s, s.len())) as nat }
/// The macros which may still be expanded.
pub open spec fn free(set: MacroSet, names: Set<Seq<char>>) -> Set<Seq<char>> {
    (set.var_macros@.dom() + set.fn_macros@.dom()).difference(names)
}
pub open spec fn rank(set: MacroSet, names: Set<Seq<char>>) -> nat { 2 * free(set, names).len() }
pub proof fn lemma_rank(set: MacroSet, names: Set<Seq<char>>, name: Seq<char>)
    ensures
        rank(set, names.insert(name)) <= rank(set, names),
        free(set, names).contains(name) ==> rank(set, names.insert(name)) + 2 == rank(set, names),
{
    assert(free(set, names.insert(name)) =~= free(set, names).remove(name));
}

/// The same but for what is no bracket.
pub open spec fn same_shape(a: Seq<Token>, b: Seq<Token>) -> bool {
    a.len() == b.len() && forall|i: int, p: Seq<char>| 0 <= i < a.len() ==> punct(a[i], p) == #[trigger] punct(b[i], p)
}
pub proof fn lemma_brackets(a: Seq<Token>, b: Seq<Token>, k: nat)
    requires same_shape(a, b), k <= a.len(),
    ensures open_brackets(a, k) == open_brackets(b, k),
    decreases k,
{
    if k > 0 {
        lemma_brackets(a, b, (k - 1) as nat);
        assert(forall|p: Seq<char>| punct(a[k - 1], p) == #[trigger] punct(b[k - 1], p));
    }
}
pub proof fn lemma_same_call(a: Seq<Token>, b: Seq<Token>)
    requires same_shape(a, b),
    ensures is_call(a) == is_call(b),
{
    assert forall|n: int| call(a, n) == call(b, n) by {
        if a.len() > 0 {
            let (s, t) = (a.skip(1), b.skip(1));
            assert forall|i: int, p: Seq<char>| 0 <= i < s.len() implies punct(s[i], p) == #[trigger] punct(t[i], p) by {
                assert(punct(a[i + 1], p) == punct(b[i + 1], p));
            }
            assert(punct(a[0], "("@) == punct(b[0], "("@));
            if 0 <= n < s.len() { lemma_brackets(s, t, n as nat); assert(punct(s[n], ")"@) == punct(t[n], ")"@)); }
        }
    }
    if is_call(a) { let n = choose|n: int| call(a, n); assert(call(b, n)); }
    if is_call(b) { let n = choose|n: int| call(b, n); assert(call(a, n)); }
}
/// Whether a call is closed depends only on the tokens up to there.
pub proof fn lemma_call_prefix(a: Seq<Token>, b: Seq<Token>, n: int)
    requires a.len() <= b.len(), b.take(a.len() as int) == a,
    ensures
        call(a, n) ==> call(b, n),
        call(b, n) && n + 2 <= a.len() ==> call(a, n),
{
    if a.len() > 0 {
        let (s, t) = (a.skip(1), b.skip(1));
        assert(t.take(s.len() as int) =~= s);
        assert(a[0] == b[0]);
        if 0 <= n < s.len() {
            lemma_brackets_prefix(s, t, n as nat);
            assert(s[n] == t[n]);
        }
    }
}
pub proof fn lemma_brackets_prefix(a: Seq<Token>, b: Seq<Token>, k: nat)
    requires k <= a.len() <= b.len(), b.take(a.len() as int) == a,
    ensures open_brackets(a, k) == open_brackets(b, k),
    decreases k,
{
    if k > 0 { lemma_brackets_prefix(a, b, (k - 1) as nat); assert(a[k - 1] == b[k - 1]); }
}
/// A part of what is inert is inert.
pub proof fn lemma_inert_part(set: MacroSet, s: Seq<Token>, a: int, b: int)
    requires inert(set, s), 0 <= a <= b <= s.len(),
    ensures inert(set, s.subrange(a, b)),
{
    let p = s.subrange(a, b);
    assert forall|i: int| 0 <= i < p.len() implies !#[trigger] live(set, p, i) by {
        assert(!live(set, s, a + i));
        let (x, y) = (p.skip(i + 1), s.skip(a + i + 1));
        assert(y.take(x.len() as int) =~= x);
        if is_call(x) { let n = choose|n: int| call(x, n); lemma_call_prefix(x, y, n); assert(call(y, n)); }
    }
}
pub proof fn lemma_settled(set: MacroSet, s: Seq<Token>, k: nat)
    requires k <= s.len(),
    ensures settled(set, s, k) <= k, inert(set, s.take(settled(set, s, k) as int)),
    decreases k,
{
    if k > 0 && !inert(set, s.take(k as int)) { lemma_settled(set, s, (k - 1) as nat); }
}
pub proof fn lemma_settled_most(set: MacroSet, s: Seq<Token>, k: nat, n: nat)
    requires k <= n <= s.len(), inert(set, s.take(k as int)),
    ensures settled(set, s, n) >= k,
    decreases n,
{
    if n > k && !inert(set, s.take(n as int)) { lemma_settled_most(set, s, k, (n - 1) as nat); }
}
/// At most what is behind an inert part is to be done.
pub proof fn lemma_work(set: MacroSet, s: Seq<Token>, k: nat)
    requires k <= s.len(), inert(set, s.take(k as int)),
    ensures work(set, s) <= s.len() - k,
{
    lemma_settled(set, s, s.len());
    lemma_settled_most(set, s, k, s.len());
}
/// There is no more to do in a part than in the whole, and less unless it contains all which was left to do.
pub proof fn lemma_work_part(set: MacroSet, s: Seq<Token>, a: int, b: int)
    requires 0 <= a <= b <= s.len(),
    ensures
        work(set, s.subrange(a, b)) <= work(set, s),
        b < s.len() && work(set, s) >= s.len() - b ==> work(set, s.subrange(a, b)) < work(set, s),
{
    let p = s.subrange(a, b);
    let k = settled(set, s, s.len()) as int;
    lemma_settled(set, s, s.len());
    lemma_settled(set, p, p.len());
    if k > a {
        let m = if k < b { k } else { b };
        lemma_inert_part(set, s.take(k), a, m);
        assert(s.take(k).subrange(a, m) =~= p.take(m - a));
        lemma_work(set, p, (m - a) as nat);
    }
}
pub proof fn lemma_live_at(set: MacroSet, s: Seq<Token>, n: int)
    requires
        s.len() > 0,
        (var_name(set, s[0]) && n == 0) || (fn_name(set, s[0]) && call(s.skip(1), n - 2)),
    ensures n < s.len(), work(set, s) >= s.len() - n,
{
    let k = settled(set, s, s.len()) as int;
    lemma_settled(set, s, s.len());
    if k > n {
        let p = s.take(k);
        assert(p[0] == s[0]);
        if !var_name(set, s[0]) {
            assert(s.skip(1).take(k - 1) =~= p.skip(1));
            lemma_call_prefix(p.skip(1), s.skip(1), n - 2);
            assert(call(p.skip(1), n - 2));
        }
        assert(live(set, p, 0));
    }
}
/// The arguments of a call, with commas in between.
pub open spec fn all_args<'t>(args: Seq<Vec<Token<'t>>>) -> Seq<Token<'t>> { joined(args, args.len()) }
pub open spec fn args_work<'t>(set: MacroSet, args: Option<Seq<Vec<Token<'t>>>>) -> nat {
    match args { Some(args) => work(set, all_args(args)), None => 0 }
}
/// Every argument is a part of all of them.
pub proof fn lemma_arg_part<'t>(args: Seq<Vec<Token<'t>>>, i: int, k: nat) -> (a: int)
    requires 0 <= i < k <= args.len(),
    ensures
        0 <= a, a + args[i]@.len() <= joined(args, k).len(),
        joined(args, k).subrange(a, a + args[i]@.len()) == args[i]@,
    decreases k,
{
    let j = joined(args, k);
    if k == 1 {
        assert(j.subrange(0, j.len() as int) =~= j);
        0
    } else if i == k - 1 {
        let a = (joined(args, (k - 1) as nat).len() + 1) as int;
        assert(j.subrange(a, a + args[i]@.len()) =~= args[i]@);
        a
    } else {
        let p = joined(args, (k - 1) as nat);
        let a = lemma_arg_part(args, i, (k - 1) as nat);
        assert(j.subrange(a, a + args[i]@.len()) =~= p.subrange(a, a + args[i]@.len()));
        a
    }
}
pub proof fn lemma_args_suffix<'t>(args: Seq<Vec<Token<'t>>>, m: int, k: nat)
    requires 0 <= m < k <= args.len(),
    ensures ({
        let (j, s) = (joined(args, k), joined(args.skip(m), (k - m) as nat));
        s.len() <= j.len() && j.skip(j.len() - s.len()) == s
    }),
    decreases k,
{
    let (j, s) = (joined(args, k), joined(args.skip(m), (k - m) as nat));
    assert(args.skip(m)[k - m - 1] == args[k - 1]);
    if k == m + 1 {
        if m > 0 { assert(j.skip(j.len() - s.len()) =~= s); } else { assert(j =~= s); assert(j.skip(0) =~= s); }
    } else {
        lemma_args_suffix(args, m, (k - 1) as nat);
        assert(j.skip(j.len() - s.len()) =~= s);
    }
}
/// What is passed for a parameter is a part of all arguments.
pub proof fn lemma_argument_work<'t>(set: MacroSet, t: Token<'t>, n: int, args: Seq<Vec<Token<'t>>>)
    requires has_args(n, args, seq![t]), is_param(t),
    ensures work(set, argument(t, n, args)) <= work(set, all_args(args)),
{
    let all = all_args(args);
    assert(seq![t][0] == t);
    match t {
        Token::MacroArg(i) => {
            let a = lemma_arg_part(args, i as int, args.len());
            lemma_work_part(set, all, a, a + args[i as int]@.len());
        },
        _ => {
            if n - 1 < args.len() {
                lemma_args_suffix(args, n - 1, args.len());
                let s = argument(t, n, args);
                assert(all.subrange(all.len() - s.len(), all.len() as int) =~= s);
                lemma_work_part(set, all, all.len() - s.len(), all.len() as int);
            } else {
                lemma_work(set, argument(t, n, args), 0);
            }
        },
    }
}
pub open spec fn joined_lists<'t>(a: Seq<Seq<Token<'t>>>) -> Seq<Token<'t>>
    decreases a.len()
{
    if a.len() == 0 { Seq::empty() }
    else if a.len() == 1 { a[0] }
    else { joined_lists(a.drop_last()).push(comma()) + a.last() }
}
pub proof fn lemma_joined_lists<'t>(args: Seq<Vec<Token<'t>>>, k: nat)
    requires k <= args.len(),
    ensures joined_lists(token_lists(args).take(k as int)) == joined(args, k),
    decreases k,
{
    let a = token_lists(args).take(k as int);
    if k > 1 {
        lemma_joined_lists(args, (k - 1) as nat);
        assert(a.drop_last() =~= token_lists(args).take(k - 1));
    } else if k == 0 {
        assert(a =~= Seq::empty());
    }
}
/// Tokens which are the same but for the place where a comma is stored.
pub open spec fn alike<'t>(s: Seq<Token<'t>>, t: Seq<Token<'t>>) -> bool {
    s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] == t[i] || (punct(s[i], ","@) && punct(t[i], ","@)))
}
/// The arguments, joined by commas, are the tokens between the parentheses.
pub proof fn lemma_between<'t>(s: Seq<Token<'t>>, k: nat)
    requires k <= s.len(),
    ensures alike(joined_lists(split_args(s, k)), s.take(k as int)),
    decreases k,
{
    if k > 0 {
        let a = split_args(s, (k - 1) as nat);
        lemma_between(s, (k - 1) as nat);
        lemma_split_len(s, (k - 1) as nat);
        assert(s.take(k as int) =~= s.take(k - 1).push(s[k - 1]));
        let t = s[k - 1];
        if outside(s, k - 1) && punct(t, ","@) {
            let b = a.push(Seq::empty());
            assert(b.drop_last() =~= a);
            assert(joined_lists(b) =~= joined_lists(a).push(comma()));
        } else {
            let b = a.drop_last().push(a.last().push(t));
            assert(b.drop_last() =~= a.drop_last());
            assert(joined_lists(b) =~= joined_lists(a).push(t));
        }
    }
}
pub proof fn lemma_alike_work(set: MacroSet, s: Seq<Token>, t: Seq<Token>)
    requires alike(s, t),
    ensures work(set, s) == work(set, t),
{
    lemma_alike_settled(set, s, t, s.len());
}
pub proof fn lemma_alike_settled(set: MacroSet, s: Seq<Token>, t: Seq<Token>, k: nat)
    requires alike(s, t), k <= s.len(),
    ensures settled(set, s, k) == settled(set, t, k),
    decreases k,
{
    if k > 0 {
        lemma_alike_settled(set, s, t, (k - 1) as nat);
        let (a, b) = (s.take(k as int), t.take(k as int));
        assert forall|i: int| 0 <= i < a.len() implies #[trigger] live(set, a, i) == live(set, b, i) by {
            assert(s[i] == t[i] || (punct(s[i], ","@) && punct(t[i], ","@)));
            let (x, y) = (a.skip(i + 1), b.skip(i + 1));
            assert forall|j: int, p: Seq<char>| 0 <= j < x.len() implies punct(x[j], p) == #[trigger] punct(y[j], p) by {
                assert(s[i + 1 + j] == t[i + 1 + j] || (punct(s[i + 1 + j], ","@) && punct(t[i + 1 + j], ","@)));
            }
            lemma_same_call(x, y);
        }
        assert(inert(set, a) == inert(set, b)) by {
            if inert(set, a) { assert forall|i: int| 0 <= i < b.len() implies !#[trigger] live(set, b, i) by { assert(!live(set, a, i)); } }
            if inert(set, b) { assert forall|i: int| 0 <= i < a.len() implies !#[trigger] live(set, a, i) by { assert(!live(set, b, i)); } }
        }
    }
}
/// There is less to do in the arguments of a call than in the tokens which begin with the call.
pub proof fn lemma_call_work<'t>(set: MacroSet, s: Seq<Token<'t>>, n: int, args: Seq<Vec<Token<'t>>>)
    requires s.len() > 0, fn_name(set, s[0]), call(s.skip(1), n), token_lists(args) == split_args(s.skip(2), n as nat),
    ensures args_work(set, Some(args)) < work(set, s),
{
    let k = args.len();
    lemma_joined_lists(args, k);
    assert(token_lists(args).take(k as int) =~= token_lists(args));
    lemma_between(s.skip(2), n as nat);
    assert(s.skip(1).skip(1) =~= s.skip(2));
    assert(s.skip(2).take(n) =~= s.subrange(2, n + 2));
    lemma_alike_work(set, all_args(args), s.subrange(2, n + 2));
    lemma_live_at(set, s, n + 2);
    lemma_work_part(set, s, 2, n + 2);
}
pub open spec fn inert_for(set: MacroSet, names: Set<Seq<char>>, out: Seq<Token>) -> bool {
    inert(set, out) && complete(set, names, out) && no_calls(set, out)
}
pub open spec fn inert_if_complete(set: MacroSet, s: Seq<Token>, out: Seq<Token>) -> bool {
    forall|names: Set<Seq<char>>| #[trigger] complete(set, names, s) ==> inert_for(set, names, out)
}
pub proof fn lemma_without()
    ensures forall|s: Seq<Token>, va: bool| all_fine(s, va) ==> #[trigger] all_fine(without_placemarkers(s), va),
{
    assert forall|s: Seq<Token>, va: bool| all_fine(s, va) implies #[trigger] all_fine(without_placemarkers(s), va) by { lemma_without_one(s, va); }
}
pub proof fn lemma_without_one(s: Seq<Token>, va: bool)
    requires all_fine(s, va),
    ensures all_fine(without_placemarkers(s), va),
    decreases s.len(),
{
    reveal_with_fuel(Seq::filter, 2);
    if s.len() > 0 {
        assert(all_fine(s.drop_last(), va));
        lemma_without_one(s.drop_last(), va);
        assert(fine(s.last(), va));
        let p = without_placemarkers(s.drop_last());
        assert(without_placemarkers(s) =~= if s.last() is Placemarker { p } else { p.push(s.last()) });
    }
}
/// What replaces a use is inert.
pub proof fn lemma_inert<'t>(set: MacroSet, names: Set<Seq<char>>, e: Seq<Token<'t>>, out: Seq<Token<'t>>)
    requires complete(set, names, e), calls_painted(set, e, out),
    ensures inert(set, out), complete(set, names, out), no_calls(set, out),
{
    assert forall|i: int| 0 <= i < out.len() implies !#[trigger] live(set, out, i) && !var_name(set, out[i]) && !ident_in(out[i], names) by {
        assert(call_painted(set, e, i, out[i]));
        let (x, y) = (e.skip(i + 1), out.skip(i + 1));
        assert forall|j: int, p: Seq<char>| 0 <= j < x.len() implies punct(x[j], p) == #[trigger] punct(y[j], p) by {
            assert(call_painted(set, e, i + 1 + j, out[i + 1 + j]));
        }
        lemma_same_call(x, y);
    }
    assert forall|i: int| 0 <= i < out.len() && fn_name(set, #[trigger] out[i]) implies !is_call(out.skip(i + 1)) by { assert(!live(set, out, i)); }
}

// ---- the code ------------------------------------------------------------------------------------------------------

impl<'t> Token<'t> {
    #[verifier::external_body]
    pub fn from_str(token: &str) -> (r: Self)
        ensures classified(token@, r), !(r is MacroArg || r is NonReplacable || r is Placemarker),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_has<'t>(v: &Vec<Token<'t>>, t: &Token<'t>) -> (r: bool)
    ensures r == exists|i: int| 0 <= i < v@.len() && same_token(#[trigger] v@[i], *t),
{ unimplemented!() }
/// `slice::Iter`: the elements which are left.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VRefs<'a, T> { _p: std::marker::PhantomData<&'a T> }
impl<'a, T> View for VRefs<'a, T> {
    type V = Seq<T>;
    uninterp spec fn view(&self) -> Seq<T>;
}
impl<'a, T> VRefs<'a, T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> (r matches Some(t) && *t == old(self)@[0]) && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_refs<'a, T>(v: &'a Vec<T>) -> (r: VRefs<'a, T>)
    ensures r@ == v@,
{ unimplemented!() }
//@ fn macro_set/mod.rs tokenize_arg_names
//@ opt for-next ref-match
//@ rule $x.contains(&token) ~> vx_has(&$x, &token)
//@ rule $x.iter() ~> vx_refs($x)
//@ sig pub fn tokenize_arg_names<'s, 't, T: VxText>(arg_names: &'s Vec<T>) -> (r: Result<Vec<Token<'t>>, ExpansionError>)
//@ attr #[verifier::loop_isolation(false)]
    ensures r matches Ok(v) ==> params_of(all_texts(arg_names@), v@),
//@ at start
    let ghost names = arg_names@;
    proof { assert(names.take(0) =~= Seq::empty()); assert(names.skip(0) =~= names); }
//@ loop 1
        invariant
            vx_it0@.len() <= names.len(),
            vx_it0@ == names.skip(names.len() - vx_it0@.len()),
            params_of(all_texts(names.take(names.len() - vx_it0@.len())), arg_names@),
            is_variadic == exists|i: int| 0 <= i < arg_names@.len() && punct(#[trigger] arg_names@[i], "..."@),
        decreases vx_it0@.len(),
//@ at loop 1 start
        let ghost k = names.len() - vx_it0@.len();
        let ghost out0 = arg_names@;
        let ghost var0 = is_variadic;
        proof {
            str_ext();
            assert(*token == names[k - 1]) by { assert(names.skip(k - 1)[0] == names[k - 1]); }
            assert(vx_it0@ =~= names.skip(k));
            assert(names.take(k) =~= names.take(k - 1).push(names[k - 1]));
        }
//@ at loop 1 end
        proof {
            assert(arg_names@.drop_last() =~= out0);
            assert(names.take(k).len() == k);
            if vx_it0@.len() == 0 { assert(names.take(k) =~= names); }
            assert(arg_names@.last() == arg_names@[out0.len() as int]);
            let texts = all_texts(names.take(k));
            assert forall|i: int| 0 <= i < arg_names@.len() implies #[trigger] param(arg_names@[i]) && classified(texts[i], arg_names@[i]) by {
                if i < out0.len() { assert(param(out0[i])); assert(texts[i] == all_texts(names.take(k - 1))[i]); }
            }
            assert forall|i: int, j: int| 0 <= i < j < arg_names@.len() && #[trigger] punct(arg_names@[i], "..."@) implies #[trigger] arg_names@[j] is Comment by {
                assert(punct(out0[i], "..."@));
                if j < out0.len() { assert(out0[j] is Comment); }
            }
            if is_variadic {
                if var0 {
                    let i = choose|i: int| 0 <= i < out0.len() && punct(#[trigger] out0[i], "..."@);
                    assert(punct(arg_names@[i], "..."@));
                } else {
                    assert(punct(arg_names@.last(), "..."@));
                }
            } else {
                assert forall|i: int| 0 <= i < arg_names@.len() implies !punct(#[trigger] arg_names@[i], "..."@) by {
                    if i < out0.len() { assert(!punct(out0[i], "..."@)); }
                }
            }
        }
//@ end
/// `v.iter().filter(f).position(|arg| ..)`: the position of the parameter `name`, comments not counted.
#[verifier::external_body]
pub fn vx_position<'t, F: Fn(&Token<'t>) -> bool, G: Fn(&Token<'t>) -> bool>(v: &Vec<Token<'t>>, name: &str, f: F, g: G) -> (r: Option<usize>)
    requires
        forall|t: &Token<'t>| call_requires(f, (t,)) && call_requires(g, (t,)),
        forall|t: &Token<'t>, b: bool| call_ensures(f, (t,), b) ==> b == (t is Punctuation || t is Identifier),
        forall|t: &Token<'t>, b: bool| call_ensures(g, (t,), b) ==> b == (t matches Token::Identifier(i) && i.id@ == name@),
    ensures match param_index(v@, name@) { Some(k) => r matches Some(i) && i == k, None => r is None },
{ unimplemented!() }
pub open spec fn body_tokens<'t>(params: Seq<Token<'t>>, spelled: Seq<Seq<char>>, body: Seq<Token<'t>>) -> bool {
    body.len() <= spelled.len() && forall|i: int| 0 <= i < body.len() ==> body_token(params, spelled[i], #[trigger] body[i])
}
//@ fn macro_set/mod.rs tokenize
//@ rule $x.iter().filter(|$t| $p).position(|$a| $e) ~> vx_position($x, t, \
//@     __vx_raw!(|$t: &Token<'_>| -> (keep: bool) ensures keep == ($t is Punctuation || $t is Identifier) { $p }), \
//@     __vx_raw!(|$a: &Token<'_>| -> (hit: bool) ensures hit == ($a matches Token::Identifier(i) && i.id@ == t@) { $e }))
//@ rule $x.iter().map(|$t| $e).collect() ~> { \
//@     let mut it = vx_refs($x); let mut out: Vec<Token<'_>> = Vec::new(); \
//@     while let Some($t) = it.next() { let token = $e; out.push(token); } out }
//@ sig pub fn tokenize<'t, T: VxText>(arg_names: &Vec<Token<'t>>, tokens: &'t Vec<T>) -> (r: Vec<Token<'t>>)
//@ attr #[verifier::loop_isolation(false)]
    ensures body_of(arg_names@, all_texts(tokens@), r@),
//@ at start
    let ghost input = tokens@;
//@ loop 1
        invariant
            it@.len() <= input.len(),
            it@ == input.skip(input.len() - it@.len()),
            out@.len() == input.len() - it@.len(),
            body_tokens(arg_names@, all_texts(input), out@),
        decreases it@.len(),
//@ at loop 1 start
        let ghost k = input.len() - it@.len();
        let ghost out0 = out@;
        proof {
            str_ext();
            assert(*t == input[k - 1]) by { assert(input.skip(k - 1)[0] == input[k - 1]); }
            assert(it@ =~= input.skip(k));
        }
//@ end

pub proof fn lemma_split_fine(s: Seq<Token>, k: nat, va: bool)
    requires all_fine(s, va), k <= s.len(),
    ensures forall|i: int| 0 <= i < split_args(s, k).len() ==> all_fine(#[trigger] split_args(s, k)[i], va),
    decreases k,
{
    if k > 0 {
        lemma_split_fine(s, (k - 1) as nat, va);
        lemma_split_len(s, (k - 1) as nat);
        let a = split_args(s, (k - 1) as nat);
        assert forall|i: int| 0 <= i < split_args(s, k).len() implies all_fine(#[trigger] split_args(s, k)[i], va) by {
            let p = split_args(s, k)[i];
            if i < a.len() {
                assert forall|j: int| 0 <= j < p.len() implies fine(#[trigger] p[j], va) by {
                    if j < a[i].len() { assert(fine(a[i][j], va)); } else { assert(fine(s[k - 1], va)); }
                }
            }
        }
    }
}
pub proof fn lemma_joined_fine(args: Seq<Vec<Token>>, k: nat, va: bool)
    requires args_fine(args, va), k <= args.len(),
    ensures all_fine(joined(args, k), va),
    decreases k,
{
    if k > 0 {
        lemma_joined_fine(args, (k - 1) as nat, va);
        assert(all_fine(args[k - 1]@, va));
        assert(all_fine(args[0]@, va));
    }
}
pub proof fn lemma_argument_fine<'t>(t: Token<'t>, n: int, args: Seq<Vec<Token<'t>>>, va: bool)
    requires has_args(n, args, seq![t]), is_param(t), args_fine(args, va),
    ensures all_fine(argument(t, n, args), va),
{
    assert(seq![t][0] == t);
    match t {
        Token::MacroArg(i) => { assert(all_fine(args[i as int]@, va)); },
        _ => {
            assert forall|i: int| 0 <= i < args.skip(n - 1).len() implies all_fine(#[trigger] args.skip(n - 1)[i]@, va) by { assert(all_fine(args[i + n - 1]@, va)); }
            lemma_joined_fine(args.skip(n - 1), (args.len() - (n - 1)) as nat, va);
        },
    }
}

pub proof fn lemma_args_fine<'t>(s: Seq<Token<'t>>, n: int, args: Seq<Vec<Token<'t>>>)
    requires call(s.skip(1), n), s.len() > 0, token_lists(args) == split_args(s.skip(2), n as nat),
    ensures forall|va: bool| all_fine(s, va) ==> #[trigger] args_fine(args, va),
{
    assert forall|va: bool| all_fine(s, va) implies #[trigger] args_fine(args, va) by {
        assert forall|i: int| 0 <= i < s.skip(2).len() implies fine(#[trigger] s.skip(2)[i], va) by { assert(fine(s[i + 2], va)); }
        assert(s.skip(1).skip(1) =~= s.skip(2));
        lemma_split_fine(s.skip(2), n as nat, va);
        assert forall|i: int| 0 <= i < args.len() implies all_fine(#[trigger] args[i]@, va) by { assert(token_lists(args)[i] == args[i]@); }
    }
}
pub proof fn lemma_no_ops_fine()
    ensures forall|s: Seq<Token>, r: Seq<Token>, va: bool| #[trigger] no_ops(s, r) && #[trigger] all_fine(s, va) ==> all_fine(r, va),
{
    assert forall|s: Seq<Token>, r: Seq<Token>, va: bool| #[trigger] no_ops(s, r) && #[trigger] all_fine(s, va) implies all_fine(r, va) by {
        assert forall|i: int| 0 <= i < r.len() implies fine(#[trigger] r[i], va) by { assert(fine(s[i], va)); assert(no_op(s[i], r[i])); }
    }
}
#[verifier::external_body]
pub fn stringify(tokens: Vec<Token<'_>>, nested: bool) -> (r: Vec<Token<'_>>)
    ensures stringified(tokens@, nested, r@),
{ unimplemented!() }
/// `a.into_iter().chain(b).collect()`
#[verifier::external_body]
pub fn vx_chain<'t>(a: Vec<Token<'t>>, b: VIter<'t>) -> (r: Vec<Token<'t>>)
    ensures r@ == a@ + b@,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_none<'t>() -> (r: Vec<Token<'t>>)
    ensures r@ == Seq::<Token<'t>>::empty(),
{ unimplemented!() }
//@ rule $x.into_iter().chain($y).collect::<Vec<_>>() ~> vx_chain($x, $y)
//@ rule tokenize(&[], $b) ~> tokenize(&vx_none(), $b)
//@ rule detokenize(&[], $b) ~> detokenize(&vx_none(), $b)
/// Which result the tokens of an expansion give (P10).
pub uninterp spec fn results<'t>(s: Seq<Token<'t>>, params: Seq<Token<'t>>, out: Seq<MacroToken<'t>>) -> bool;
#[verifier::external_body]
pub fn detokenize<'t>(arg_names: &Vec<Token<'t>>, tokens: Vec<Token<'t>>) -> (r: Result<Vec<MacroToken<'t>>, ExpansionError>)
    requires all_fine(tokens@, operands_in(arg_names@) > 0),
    ensures r matches Ok(v) ==> results(tokens@, arg_names@, v@),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_slice_from<'t>(v: &Vec<Token<'t>>, from: usize) -> (r: VIter<'t>)
    requires from <= v@.len(),
    ensures r@ == v@.skip(from as int),
{ unimplemented!() }
//@ type &mut [Token<$l>] ~> &mut Vec<Token<$l>>
pub proof fn lemma_rest_work(set: MacroSet)
    ensures forall|e: Seq<Token>, rest: Seq<Token>| inert(set, e) ==> #[trigger] work(set, e + rest) <= rest.len(),
{
    assert forall|e: Seq<Token>, rest: Seq<Token>| inert(set, e) implies #[trigger] work(set, e + rest) <= rest.len() by {
        assert((e + rest).take(e.len() as int) =~= e);
        lemma_work(set, e + rest, e.len());
    }
}
pub proof fn lemma_fine_less()
    ensures forall|s: Seq<Token>, va: bool| #[trigger] all_fine(s, false) ==> #[trigger] all_fine(s, va),
{
    assert forall|s: Seq<Token>, va: bool| #[trigger] all_fine(s, false) implies #[trigger] all_fine(s, va) by {
        assert forall|i: int| 0 <= i < s.len() implies fine(#[trigger] s[i], va) by { assert(fine(s[i], false)); }
    }
}
pub proof fn lemma_params_fine()
    ensures forall|spelled: Seq<Seq<char>>, params: Seq<Token>, va: bool| #[trigger] params_of(spelled, params) ==> #[trigger] all_fine(params, va),
{
    assert forall|spelled: Seq<Seq<char>>, params: Seq<Token>, va: bool| #[trigger] params_of(spelled, params) implies #[trigger] all_fine(params, va) by {
        assert forall|i: int| 0 <= i < params.len() implies fine(#[trigger] params[i], va) by { assert(param(params[i])); }
    }
}
/// The body of a variable-like macro has no parameters.
pub proof fn lemma_fresh(set: MacroSet)
    ensures forall|none: Seq<Token>, texts: Seq<Seq<char>>, body: Seq<Token>| none.len() == 0 && #[trigger] body_of(none, texts, body) ==> fresh(body),
{
    assert forall|none: Seq<Token>, texts: Seq<Seq<char>>, body: Seq<Token>| none.len() == 0 && #[trigger] body_of(none, texts, body) implies fresh(body) by {
        lemma_params_in(none, texts, body);
    }
}
pub proof fn lemma_params_all()
    ensures forall|spelled: Seq<Seq<char>>, params: Seq<Token>, texts: Seq<Seq<char>>, body: Seq<Token>|
        #[trigger] params_of(spelled, params) && #[trigger] body_of(params, texts, body) ==> params_in(no_comments(params), body) && fresh(body),
{
    assert forall|spelled: Seq<Seq<char>>, params: Seq<Token>, texts: Seq<Seq<char>>, body: Seq<Token>|
        #[trigger] params_of(spelled, params) && #[trigger] body_of(params, texts, body) implies params_in(no_comments(params), body) && fresh(body) by {
        lemma_params_in(params, texts, body);
    }
}
/// The parts of a call.
pub open spec fn call_of<'t>(set: MacroSet, s: Seq<Token<'t>>, n: int, rest: Seq<Token<'t>>, params: Seq<Token<'t>>, args: Seq<Vec<Token<'t>>>, body: Seq<Token<'t>>) -> bool {
    &&& call(s.skip(1), n) && rest == s.skip(n + 3)
    &&& params_of(all_texts(set.fn_macros@[name_of(s[0])].0@), params)
    &&& token_lists(args) == split_args(s.skip(2), n as nat)
    &&& body_of(params, all_texts(set.fn_macros@[name_of(s[0])].1@), body)
}
pub proof fn lemma_called<'t>(set: MacroSet, names: Set<Seq<char>>, input: Seq<Token<'t>>, tokens: Seq<Token<'t>>, s: Seq<Token<'t>>)
    requires called(set, names, s), leads(set, names, input, tokens, s),
    ensures forall|n: int, rest: Seq<Token<'t>>, params: Seq<Token<'t>>, args: Seq<Vec<Token<'t>>>, body: Seq<Token<'t>>, e: Seq<Token<'t>>|
        #[trigger] call_of(set, s, n, rest, params, args, body) && #[trigger] fn_replaced(set, names, name_of(s[0]), no_comments(params), Some(args), body, e)
        ==> leads(set, names, input, tokens, e + rest),
{
    assert forall|n: int, rest: Seq<Token<'t>>, params: Seq<Token<'t>>, args: Seq<Vec<Token<'t>>>, body: Seq<Token<'t>>, e: Seq<Token<'t>>|
        #[trigger] call_of(set, s, n, rest, params, args, body) && #[trigger] fn_replaced(set, names, name_of(s[0]), no_comments(params), Some(args), body, e)
        implies leads(set, names, input, tokens, e + rest) by {
        assert forall|o: Seq<Token<'t>>| #[trigger] expanded(set, names, e + rest, o) implies expanded(set, names, input, tokens + o) by {
            rule_call(set, names, s, n, e, o);
        }
    }
}
pub proof fn lemma_used<'t>(set: MacroSet, names: Set<Seq<char>>, input: Seq<Token<'t>>, tokens: Seq<Token<'t>>, s: Seq<Token<'t>>)
    requires used(set, names, s), leads(set, names, input, tokens, s),
    ensures forall|none: Seq<Token<'t>>, body: Seq<Token<'t>>, e: Seq<Token<'t>>|
        none.len() == 0 && #[trigger] body_of(none, all_texts(set.var_macros@[name_of(s[0])]@), body) && !has_var_args(body)
        && #[trigger] rescanned(set, names, name_of(s[0]), body, e)
        ==> leads(set, names, input, tokens, e + s.skip(1)),
{
    assert forall|none: Seq<Token<'t>>, body: Seq<Token<'t>>, e: Seq<Token<'t>>|
        none.len() == 0 && #[trigger] body_of(none, all_texts(set.var_macros@[name_of(s[0])]@), body) && !has_var_args(body)
        && #[trigger] rescanned(set, names, name_of(s[0]), body, e)
        implies leads(set, names, input, tokens, e + s.skip(1)) by {
        assert(none =~= Seq::empty());
        assert forall|o: Seq<Token<'t>>| #[trigger] expanded(set, names, e + s.skip(1), o) implies expanded(set, names, input, tokens + o) by {
            rule_use(set, names, s, e, o);
        }
    }
}
/// What the tokens `s` expand to, behind what there is already, is what the input expands to.
pub open spec fn leads<'t>(set: MacroSet, names: Set<Seq<char>>, input: Seq<Token<'t>>, tokens: Seq<Token<'t>>, s: Seq<Token<'t>>) -> bool {
    forall|o: Seq<Token<'t>>| #[trigger] expanded(set, names, s, o) ==> expanded(set, names, input, tokens + o)
}
pub proof fn lemma_step<'t>(set: MacroSet, names: Set<Seq<char>>, input: Seq<Token<'t>>, tokens: Seq<Token<'t>>, s: Seq<Token<'t>>)
    requires s.len() > 0, leads(set, names, input, tokens, s),
    ensures
        ident_in(s[0], names) ==> forall|r: Token<'t>| painted(s[0], r) ==> #[trigger] leads(set, names, input, tokens.push(r), s.skip(1)),
        !ident_in(s[0], names) && !used(set, names, s) && !called(set, names, s) ==> leads(set, names, input, tokens.push(s[0]), s.skip(1)),
{
    if ident_in(s[0], names) {
        assert forall|r: Token<'t>| painted(s[0], r) implies #[trigger] leads(set, names, input, tokens.push(r), s.skip(1)) by {
            assert forall|o: Seq<Token<'t>>| #[trigger] expanded(set, names, s.skip(1), o) implies expanded(set, names, input, tokens.push(r) + o) by {
                rule_paint(set, names, s, r, o);
                assert(tokens.push(r) + o =~= tokens + (seq![r] + o));
            }
        }
    } else if !used(set, names, s) && !called(set, names, s) {
        let r = s[0];
        assert forall|o: Seq<Token<'t>>| #[trigger] expanded(set, names, s.skip(1), o) implies expanded(set, names, input, tokens.push(r) + o) by {
            rule_keep(set, names, s, o);
            assert(tokens.push(r) + o =~= tokens + (seq![r] + o));
        }
    }
}
impl MacroSet {
//@ fn macro_set/mod.rs MacroSet::contains_var_args
    ensures r == has_var_args(body@),
//@ end
    #[verifier::external_body]
    pub fn expand_concat(tokens: Vec<Token<'_>>) -> (r: Result<Vec<Token<'_>>, ExpansionError>)
        requires all_fine(tokens@, true),
        ensures r matches Ok(v) ==> pasted(tokens@, v@) && forall|va: bool| #[trigger] all_fine(tokens@, va) ==> all_fine(v@, va),
    { unimplemented!() }
//@ fn macro_set/mod.rs MacroSet::remove_placemarkers
    ensures
        final(tokens)@ == without_placemarkers(old(tokens)@),
        forall|va: bool| #[trigger] all_fine(old(tokens)@, va) ==> all_fine(final(tokens)@, va),
//@ at start
    proof { lemma_without(); }
//@ end

//@ fn macro_set/mod.rs MacroSet::exclude_calls
//@ rule $x[$from..].iter().cloned() ~> vx_slice_from(&$x, $from)
//@ attr #[verifier::loop_isolation(false)]
    ensures
        calls_painted(*self, old(tokens)@, final(tokens)@),
        inert_if_complete(*self, old(tokens)@, final(tokens)@),
        forall|va: bool| #[trigger] all_fine(old(tokens)@, va) ==> all_fine(final(tokens)@, va),
//@ at end
    proof {
        assert forall|names: Set<Seq<char>>| #[trigger] complete(*self, names, old(tokens)@) implies inert_for(*self, names, tokens@) by {
            lemma_inert(*self, names, old(tokens)@, tokens@);
        }
        assert forall|va: bool| #[trigger] all_fine(old(tokens)@, va) implies all_fine(tokens@, va) by {
            assert forall|i: int| 0 <= i < tokens@.len() implies fine(#[trigger] tokens@[i], va) by {
                assert(call_painted(*self, old(tokens)@, i, tokens@[i]));
                assert(fine(old(tokens)@[i], va));
            }
        }
    }
//@ loop 1
        invariant
            tokens@.len() == old(tokens)@.len(),
            forall|k: int| 0 <= k < i ==> call_painted(*self, old(tokens)@, k, #[trigger] tokens@[k]),
            forall|k: int| i <= k < tokens@.len() ==> #[trigger] tokens@[k] == old(tokens)@[k],
//@ at loop 1 start
        proof { assert(tokens@.skip(i + 1) =~= old(tokens)@.skip(i + 1)); }
//@ end

//@ fn macro_set/mod.rs MacroSet::expand_var_macro_body
//@ attr #[verifier::rlimit(100)]
    requires fresh(body@),
    ensures r matches Ok(out) ==> {
        &&& !has_var_args(body@)
        &&& rescanned(*self, non_replaced_names@, name@, body@, out@)
        &&& complete(*self, non_replaced_names@.insert(name@), out@)
        &&& no_calls(*self, out@) && inert(*self, out@)
        &&& all_fine(out@, false)
    },
    decreases rank(*self, non_replaced_names@.insert(name@)) + 1, 0nat, 0nat,
//@ at start
    let ghost names = non_replaced_names@;
    proof {
        lemma_rank(*self, names, name@);
        if !has_var_args(body@) { assert(all_fine(body@, false)); }
    }
//@ end

//@ fn macro_set/mod.rs MacroSet::expand_macro_body
//@ opt ref-match
//@ attr #[verifier::loop_isolation(false)] #[verifier::rlimit(100)]
    requires all_fine(body@, true),
    ensures r matches Ok(out) ==> {
        &&& expanded(*self, non_replaced_names@, body@, out@)
        &&& complete(*self, non_replaced_names@, out@)
        &&& forall|va: bool| #[trigger] all_fine(body@, va) ==> all_fine(out@, va)
    },
    decreases rank(*self, non_replaced_names@), work(*self, body@), 0nat,
//@ at start
    let ghost input = body@;
    let ghost names = non_replaced_names@;
    proof {
        assert forall|o: Seq<Token<'t>>| #![trigger Seq::<Token<'t>>::empty() + o] Seq::<Token<'t>>::empty() + o == o by { assert(Seq::<Token<'t>>::empty() + o =~= o); }
        rule_done(*self, names);
    }
//@ loop 1
        invariant
            work(*self, it@) <= work(*self, input),
            complete(*self, names, tokens@),
            forall|va: bool| #[trigger] all_fine(input, va) ==> all_fine(tokens@, va) && all_fine(it@, va),
            leads(*self, names, input, tokens@, it@),
        decreases work(*self, it@), it@.len(),
//@ at end
    proof {
        assert(it@ =~= Seq::empty());
        assert(tokens@ + Seq::<Token<'t>>::empty() =~= tokens@);
    }
//@ at loop 1 start
        let ghost s = seq![token] + it@;
        let ghost before = tokens@;
        proof {
            assert forall|p: Seq<Token<'t>>| #![trigger leads(*self, names, input, before, p)] p.len() > 0 implies p == seq![p[0]] + p.skip(1) by {
                assert(p =~= seq![p[0]] + p.skip(1));
            }
            assert(s.skip(1) =~= it@);
            lemma_work_part(*self, s, 1, s.len() as int);
            assert(s.subrange(1, s.len() as int) =~= s.skip(1));
            assert(forall|va: bool| #[trigger] all_fine(s, va) ==> fine(s[0], va) && all_fine(it@, va));
            lemma_step(*self, names, input, before, s);
            if var_name(*self, token) || called(*self, names, s) { lemma_rank(*self, names, name_of(token)); }
            if used(*self, names, s) { lemma_used(*self, names, input, before, s); lemma_live_at(*self, s, 0); }
            if called(*self, names, s) { lemma_called(*self, names, input, before, s); }
            lemma_rest_work(*self);
            lemma_params_all();
        }
//@ before `self.expand_fn_macro_body`
                    proof {
                        let n = choose|n: int| call(s.skip(1), n) && it@ == s.skip(1).skip(n + 2) && token_lists(args@) == split_args(s.skip(1).skip(1), n as nat);
                        assert(s.skip(1).skip(1) =~= s.skip(2));
                        assert(s.skip(1).skip(n + 2) =~= s.skip(n + 3));
                        lemma_call_work(*self, s, n, args@);
                        lemma_args_fine(s, n, args@);
                        lemma_live_at(*self, s, n + 2);
                        assert(call_of(*self, s, n, it@, arg_names@, args@, body@));
                    }
//@ end
//@ fn macro_set/mod.rs MacroSet::expand_fn_macro_body
    requires
        free(*self, non_replaced_names@).contains(name@),
        params_in(no_comments(arg_names@), body@), fresh(body@),
        args matches Some(a) ==> args_fine(a@, true),
    ensures r matches Ok(out) ==> {
        &&& fn_replaced(*self, non_replaced_names@, name@, no_comments(arg_names@), match args { Some(a) => Some(a@), None => None }, body@, out@)
        &&& complete(*self, non_replaced_names@.insert(name@), out@)
        &&& no_calls(*self, out@) && inert(*self, out@)
        &&& all_fine(out@, true)
        &&& match args { Some(a) => args_fine(a@, false), None => !has_var_args(body@) } ==> all_fine(out@, false)
    },
    decreases rank(*self, non_replaced_names@), args_work(*self, match args { Some(a) => Some(a@), None => None }), 2nat,
//@ at start
    let ghost names = non_replaced_names@;
    proof {
        lemma_rank(*self, names, name@);
        if !has_var_args(body@) { assert(all_fine(body@, false)); }
        assert(all_fine(body@, true));
    }
//@ end
//@ fn macro_set/mod.rs MacroSet::expand_arguments
//@ opt for-next ref-match
//@ rule args[$i].clone() ~> vx_to_vec(&args[$i])
//@ rule arg.clone() ~> vx_to_vec(arg)
//@ rule $x.into_iter().map(|t| $e) ~> vx_map($x, __vx_raw!(|t: Token<'t>| -> (r: Token<'t>) ensures no_op(t, r) { $e }))
//@ rule $o.map(|$i| $e) ~> (match $o { Some($i) => Some($e), None => None })
//@ rule $o == Some(Token::Punctuation(Punctuation { punctuation: $s })) ~> vx_is_punct(&$o, $s)
//@ attr #[verifier::loop_isolation(false)]
    requires has_args(arg_names@.len() as int, args@, tokens@), args_fine(args@, true), fresh(tokens@),
    ensures r matches Ok(out) ==> {
        &&& exists|pieces: Seq<Seq<Token<'t>>>| {
            &&& pieces.len() == tokens@.len()
            &&& #[trigger] substituted(*self, non_replaced_names@, arg_names@.len() as int, args@, tokens@, pieces)
            &&& out@ == flatten(pieces)
        }
        &&& forall|va: bool| #[trigger] args_fine(args@, va) ==> all_fine(out@, va)
    },
    decreases rank(*self, non_replaced_names@), args_work(*self, Some(args@)), 1nat,
//@ at start
    let ghost body = tokens@;
    let ghost n = arg_names@.len() as int;
    let ghost names = non_replaced_names@;
    let ghost mut pieces = Seq::<Seq<Token<'t>>>::empty();
    proof { str_ext(); puncts_differ(); lemma_sub_start(*self, names, n, args@, body); }
//@ loop 1
        invariant
            it@.len() <= body.len(),
            it@ == body.skip(body.len() - it@.len()),
            pieces.len() == body.len() - it@.len(),
            progress(*self, names, n, args@, body, pieces, tokens@),
            forall|va: bool| #[trigger] args_fine(args@, va) ==> all_fine(tokens@, va),
        decreases it@.len(),
//@ at loop 1 start
        let ghost k = pieces.len() as int;
        let ghost out = tokens@;
        let ghost a = argument(token, n, args@);
        proof {
            assert(token == body[k]);
            if is_param(token) {
                assert(seq![token][0] == token);
                lemma_argument_work(*self, token, n, args@);
                assert forall|va: bool| #[trigger] args_fine(args@, va) implies all_fine(a, va) by { lemma_argument_fine(token, n, args@, va); }
            }
            lemma_no_ops_fine();
            assert(it@ =~= body.skip(k + 1));
            assert(body.skip(k).skip(1) =~= body.skip(k + 1));
            lemma_last(out);
            lemma_first(body.skip(k + 1));
            assert(punct(token, "#"@) == punct(body[k], "#"@));
            assert forall|x: Seq<Token<'t>>| #![trigger out + x] (out + x).skip(out.len() as int) == x by { assert((out + x).skip(out.len() as int) =~= x); }
            let f = flatten(pieces);
            assert forall|x: Seq<Token<'t>>| #![trigger f + x] (f + x).skip(f.len() as int) == x by { assert((f + x).skip(f.len() as int) =~= x); }
            assert(out.take(flatten(pieces).len() as int) =~= flatten(pieces));
        }
//@ loop 2
        invariant
            vx_it0.all() == args@.skip(n - 1),
            0 <= vx_it0.pos() <= vx_it0.all().len(),
            var_args@ == joined(vx_it0.all(), vx_it0.pos() as nat),
        decreases vx_it0.all().len() - vx_it0.pos(),
//@ at loop 2 end
            proof { assert(Seq::<Token<'t>>::empty() + arg@ =~= arg@); }
//@ at loop 1 end
        proof {
            let h = after_op(body, k, "#"@);
            let piece = if punct(body[k], "#"@) || (body[k] is Comment && h) { Seq::empty() }
                else if is_param(body[k]) && h { tokens@.skip(flatten(pieces).len() as int) }
                else { tokens@.skip(out.len() as int) };
            if is_param(body[k]) && h { assert(tokens@ =~= flatten(pieces) + piece); }
            else if !(punct(body[k], "#"@) || (body[k] is Comment && h)) { assert(tokens@ =~= out + piece); }
            assert(replaced_by(*self, names, n, args@, body, k, piece));
            if is_param(body[k]) && h { lemma_stringified(a, names.len() > 1, piece); }
            assert forall|va: bool| #[trigger] args_fine(args@, va) implies all_fine(tokens@, va) by {
                assert(all_fine(out, va));
                if is_param(body[k]) {
                    assert(all_fine(a, va));
                    assert(all_fine(piece, va));
                }
                assert forall|i: int| 0 <= i < tokens@.len() implies fine(#[trigger] tokens@[i], va) by {
                    if is_param(body[k]) && h {
                        let f = flatten(pieces).len() as int;
                        if i < f { assert(fine(out[i], va)); } else { assert(fine(piece[i - f], va)); }
                    } else if i < out.len() {
                        assert(fine(out[i], va));
                    } else if is_param(body[k]) {
                        assert(fine(piece[i - out.len()], va));
                    }
                }
            }
            lemma_sub_step(*self, names, n, args@, body, pieces, out, piece, tokens@);
            pieces = pieces.push(piece);
        }
//@ at end
    proof { lemma_sub_done(*self, names, n, args@, body, pieces, tokens@); }
//@ end

//@ fn macro_set/mod.rs MacroSet::expand_var_macro
    ensures r matches Ok(v) ==> {
        &&& self.var_macros@.dom().contains(name@)
        &&& exists|body: Seq<Token<'t>>, out: Seq<Token<'t>>| {
            &&& #[trigger] body_of(Seq::empty(), all_texts(self.var_macros@[name@]@), body) && !has_var_args(body)
            &&& #[trigger] rescanned(*self, Set::empty(), name@, body, out)
            &&& results(out, Seq::empty(), v@)
            &&& complete(*self, set![name@], out) && no_calls(*self, out)
        }
    },
//@ at start
    proof { lemma_fresh(*self); lemma_fine_less(); }
//@ end
//@ fn macro_set/mod.rs MacroSet::expand
//@ sig pub fn expand<'s, 'b, 't, T: VxText>(&'s self, body: &'b Vec<T>) -> (r: Result<Vec<MacroToken<'t>>, ExpansionError>) where 's: 't, 'b: 't
    ensures r matches Ok(v) ==> exists|b: Seq<Token<'t>>, out: Seq<Token<'t>>| {
        &&& #[trigger] body_of(Seq::empty(), all_texts(body@), b) && !has_var_args(b)
        &&& #[trigger] rescanned(*self, Set::empty(), Seq::empty(), b, out)
        &&& results(out, Seq::empty(), v@)
        &&& complete(*self, Set::empty(), out) && no_calls(*self, out)
    },
//@ at start
    proof { lemma_fresh(*self); lemma_fine_less(); reveal_strlit(""); assert(""@ =~= Seq::empty()); }
//@ end
//@ fn macro_set/mod.rs MacroSet::expand_fn_macro
    ensures r matches Ok(v) ==> {
        &&& self.fn_macros@.dom().contains(name@)
        &&& exists|params: Seq<Token<'t>>, body: Seq<Token<'t>>, out: Seq<Token<'t>>| {
            &&& #[trigger] params_of(all_texts(self.fn_macros@[name@].0@), params)
            &&& #[trigger] body_of(params, all_texts(self.fn_macros@[name@].1@), body)
            &&& #[trigger] fn_replaced(*self, Set::empty(), name@, no_comments(params), None, body, out)
            &&& results(params, Seq::empty(), v.0@)
            &&& results(out, params, v.1@)
            &&& complete(*self, set![name@], out) && no_calls(*self, out)
        }
    },
//@ at start
    proof { lemma_params_all(); lemma_fine_less(); lemma_params_fine(); }
//@ end
}
}
fn main() {}
