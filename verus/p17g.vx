//@ # P17: the code of statements keeps their order and control flow, and so does the pass before it.
use vstd::prelude::*;
verus! {
//@ include ast.vxi
//@ include tokens.vxi
//@ include clones.vxi
/// `asm` statements are not looked into.
#[verifier::external_body]
pub struct Asm<'t> { _s: std::marker::PhantomData<&'t u8> }
//@ item ast/function_decl.rs FunctionDecl
//@ item ast/var_decl.rs VarDecl
//@ item ast/statement.rs Statement
//@ item error.rs CodegenError
//@ item macro_body.rs MacroBody

// ---- what statements are made of -----------------------------------------------------------------------------------

/// The code of an expression (P13), of a type (P08) and of a name (P08).
pub uninterp spec fn expr_code(e: Expr, s: Seq<TT>) -> bool;
pub uninterp spec fn type_code(t: Type, s: Seq<TT>) -> bool;
pub uninterp spec fn name_code(n: IdentifierExpr, s: Seq<TT>) -> bool;
pub uninterp spec fn asm_code(a: Asm, s: Seq<TT>) -> bool;
/// What `finish` makes of an expression (P02), of a type, of a name and of `asm`.
pub uninterp spec fn expr_fin(a: Expr, b: Expr) -> bool;
pub uninterp spec fn type_fin(a: Type, b: Type) -> bool;
pub uninterp spec fn name_fin(a: IdentifierExpr, b: IdentifierExpr) -> bool;
pub uninterp spec fn asm_fin(a: Asm, b: Asm) -> bool;
/// An expression whose type is not `bool` is compared with 0.
pub uninterp spec fn condition_fin(a: Expr, b: Expr) -> bool;
impl<'t> Expr<'t> {
    #[verifier::external_body]
    pub fn to_token_stream(&self, ctx: &mut Ctx) -> (r: TokenStream)
        ensures expr_code(*self, r@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(&mut self, ctx: &mut Ctx) -> (r: Result<Option<Type<'t>>, CodegenError>)
        ensures r is Ok ==> expr_fin(*old(self), *final(self)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn finish_condition(&mut self, ctx: &mut Ctx) -> (r: Result<Option<Type<'t>>, CodegenError>)
        ensures r is Ok ==> condition_fin(*old(self), *final(self)),
    { unimplemented!() }
}
impl<'t> Asm<'t> {
    #[verifier::external_body]
    pub fn to_token_stream(&self, ctx: &mut Ctx) -> (r: TokenStream)
        ensures asm_code(*self, r@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(&mut self, ctx: &mut Ctx) -> (r: Result<Option<Type<'t>>, CodegenError>)
        ensures r is Ok ==> asm_fin(*old(self), *final(self)),
    { unimplemented!() }
}
impl<'t> Type<'t> {
    #[verifier::external_body]
    pub fn to_token_stream(&self, ctx: &mut Ctx) -> (r: TokenStream)
        ensures type_code(*self, r@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(&mut self, ctx: &mut Ctx) -> (r: Result<(), CodegenError>)
        ensures r is Ok ==> type_fin(*old(self), *final(self)),
    { unimplemented!() }
    pub open spec fn void(self) -> bool { self == Type::<'t>::BuiltIn(BuiltInType::Void) }
//@ fn ast/ty.rs Type::is_void
    ensures r == self.void(),
//@ end
}
impl<'t> IdentifierExpr<'t> {
    #[verifier::external_body]
    pub fn to_token_stream(&self, ctx: &mut Ctx) -> (r: TokenStream)
        ensures name_code(*self, r@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(&mut self, ctx: &mut Ctx) -> (r: Result<Option<Type<'t>>, CodegenError>)
        ensures r is Ok ==> name_fin(*old(self), *final(self)),
    { unimplemented!() }
}
impl MacroArg {
    #[verifier::external_body]
    pub fn index(&self) -> usize { unimplemented!() }
}
impl Ctx {
    #[verifier::external_body]
    pub fn vx_set_ident(&mut self, n: usize) { unimplemented!() }
}
//@ rule *ctx.arg_type_mut($n) = MacroArgType::Ident ~> ctx.vx_set_ident($n)

// ---- the code of statements ----------------------------------------------------------------------------------------

pub open spec fn id(s: Seq<char>) -> TT { TT::Id(s) }
pub open spec fn p(s: Seq<char>) -> TT { TT::P(s) }
pub open spec fn paren(s: Seq<TT>) -> TT { TT::G("("@, s) }
pub open spec fn brace(s: Seq<TT>) -> TT { TT::G("{"@, s) }
pub open spec fn semi() -> Seq<TT> { seq![p(";"@)] }
/// Marks what is generated, for the instantiation of quantifiers.
pub open spec fn wit(v: Vec<Statement>, s: Seq<TT>) -> bool { true }
pub open spec fn wits(s: Seq<Seq<TT>>) -> bool { true }
pub open spec fn views(v: Seq<TokenStream>) -> Seq<Seq<TT>> { v.map_values(|t: TokenStream| t@) }
/// Statements one after the other.
pub open spec fn sequence(items: Seq<Seq<TT>>, s: Seq<TT>) -> bool { s == repeated(items, Seq::empty(), ""@) || s == repeated(items, Seq::empty(), ";"@) }
/// `s` is the code of `v` without the braces around it.
pub open spec fn stmts_code(v: Vec<Statement>, s: Seq<TT>) -> bool
    decreases v,
{
    exists|items: Seq<Seq<TT>>| #[trigger] wits(items) && items.len() == v@.len() && sequence(items, s)
        && forall|k: int| 0 <= k < v@.len() ==> stmt_code(#[trigger] v@[k], items[k])
}
/// `[static mut | let mut] name: type = value`
pub open spec fn var_decl_code(d: VarDecl, s: Seq<TT>) -> bool {
    exists|t: Seq<TT>, n: Seq<TT>, e: Seq<TT>| #[trigger] type_code(d.ty, t) && #[trigger] name_code(d.name, n) && #[trigger] expr_code(d.rhs, e)
        && s == seq![id(if d.is_static { "static"@ } else { "let"@ })] + seq![id("mut"@)] + n + seq![p(":"@)] + t + seq![p("="@)] + e
}
pub open spec fn param_code(a: (Type, IdentifierExpr), s: Seq<TT>) -> bool {
    exists|t: Seq<TT>, n: Seq<TT>| #[trigger] type_code(a.0, t) && #[trigger] name_code(a.1, n) && s == n + seq![p(":"@)] + t
}
pub open spec fn params_code(v: Seq<(Type, IdentifierExpr)>, s: Seq<TT>) -> bool {
    exists|items: Seq<Seq<TT>>| #[trigger] wits(items) && items.len() == v.len() && s == repeated(items, Seq::empty(), ","@)
        && forall|k: int| 0 <= k < v.len() ==> param_code(#[trigger] v[k], items[k])
}
/// `extern "C" { pub fn name(parameters) [-> type]; }`
pub open spec fn fn_decl_code(d: FunctionDecl, s: Seq<TT>) -> bool {
    exists|n: Seq<TT>, a: Seq<TT>| #[trigger] name_code(d.name, n) && #[trigger] params_code(d.args@, a)
        && if d.ret_ty.void() { s == declared(n, a, Seq::empty()) } else { exists|t: Seq<TT>| #[trigger] type_code(d.ret_ty, t) && s == declared(n, a, seq![p("->"@)] + t) }
}
pub open spec fn declared(n: Seq<TT>, a: Seq<TT>, result: Seq<TT>) -> Seq<TT> {
    seq![id("extern"@)] + seq![TT::L("\"C\""@)] + seq![brace(seq![id("pub"@)] + seq![id("fn"@)] + n + seq![paren(a)] + result + semi())]
}
/// `s` is Rust code for the C statement.
pub open spec fn stmt_code(st: Statement, s: Seq<TT>) -> bool
    decreases st,
{
    match st {
        Statement::Asm(a) => exists|t: Seq<TT>| #[trigger] asm_code(a, t) && s == t + semi(),
        Statement::Expr(e) => exists|t: Seq<TT>| #[trigger] expr_code(e, t) && s == t + semi(),
        Statement::FunctionDecl(d) => fn_decl_code(d, s),
        Statement::VarDecl(d) => exists|t: Seq<TT>| #[trigger] var_decl_code(d, t) && s == t + semi(),
        Statement::Block(v) => exists|t: Seq<TT>| #[trigger] wit(v, t) && stmts_code(v, t) && s == seq![brace(t)],
        Statement::If { condition, if_branch, else_branch } => exists|c: Seq<TT>, a: Seq<TT>| #[trigger] expr_code(condition, c) && #[trigger] wit(if_branch, a) && stmts_code(if_branch, a)
            && if else_branch@.len() == 0 { s == seq![id("if"@)] + c + seq![brace(a)] } else {
                exists|b: Seq<TT>| #[trigger] wit(else_branch, b) && stmts_code(else_branch, b) && s == seq![id("if"@)] + c + seq![brace(a)] + seq![id("else"@)] + seq![brace(b)]
            },
        // the statements at least once, and again as long as the condition holds
        Statement::DoWhile { block, condition } => exists|c: Seq<TT>, a: Seq<TT>|
            #[trigger] expr_code(condition, c) && #[trigger] wit(block, a) && stmts_code(block, a)
                && s == seq![id("loop"@)] + seq![brace(a + seq![id("if"@)] + c + seq![brace(seq![id("continue"@)])] + seq![id("break"@)])],
    }
}
/// What `finish` makes of a statement: the same, but for its expressions, types and names.
pub open spec fn stmt_fin(a: Statement, b: Statement) -> bool
    decreases a,
{
    match (a, b) {
        (Statement::Asm(x), Statement::Asm(y)) => asm_fin(x, y),
        (Statement::Expr(x), Statement::Expr(y)) => expr_fin(x, y),
        (Statement::FunctionDecl(x), Statement::FunctionDecl(y)) => fn_decl_fin(x, y),
        (Statement::VarDecl(x), Statement::VarDecl(y)) => var_decl_fin(x, y),
        (Statement::Block(x), Statement::Block(y)) => stmts_fin(x, y),
        (Statement::If { condition: c, if_branch: x, else_branch: y }, Statement::If { condition: d, if_branch: u, else_branch: w }) =>
            condition_fin(c, d) && stmts_fin(x, u) && stmts_fin(y, w),
        (Statement::DoWhile { block: x, condition: c }, Statement::DoWhile { block: y, condition: d }) => condition_fin(c, d) && stmts_fin(x, y),
        _ => false,
    }
}
pub open spec fn stmts_fin(a: Vec<Statement>, b: Vec<Statement>) -> bool
    decreases a,
{
    a@.len() == b@.len() && forall|k: int| 0 <= k < a@.len() ==> stmt_fin(a@[k], #[trigger] b@[k])
}
pub open spec fn var_decl_fin(a: VarDecl, b: VarDecl) -> bool {
    type_fin(a.ty, b.ty) && name_fin(a.name, b.name) && expr_fin(a.rhs, b.rhs) && a.is_static == b.is_static
}
pub open spec fn fn_decl_fin(a: FunctionDecl, b: FunctionDecl) -> bool {
    type_fin(a.ret_ty, b.ret_ty) && name_fin(a.name, b.name) && a.args@.len() == b.args@.len()
        && forall|k: int| 0 <= k < a.args@.len() ==> type_fin(a.args@[k].0, (#[trigger] b.args@[k]).0) && name_fin(a.args@[k].1, b.args@[k].1)
}

use lemmas::{pushed, code_pushed};
pub mod lemmas {
use super::*;
pub open spec fn pushed(a: Seq<TT>, b: Seq<TT>) -> Seq<TT> { b.skip(a.len() as int) }
pub open spec fn code_pushed(a: Seq<TT>, b: Seq<TT>) -> bool { a.is_prefix_of(b) }
pub broadcast proof fn lemma_pushed(a: Seq<TT>, b: Seq<TT>)
    ensures #[trigger] pushed(a, a + b) =~= b,
{
}
pub broadcast proof fn lemma_pushed_prefix(a: Seq<TT>, b: Seq<TT>)
    ensures #[trigger] code_pushed(a, a + b),
{
    assert((a + b).subrange(0, a.len() as int) =~= a);
}
pub broadcast proof fn lemma_assoc(a: Seq<TT>, b: Seq<TT>, c: Seq<TT>)
    ensures #[trigger] (a + (b + c)) == (a + b) + c,
{
    assert(a + (b + c) =~= (a + b) + c);
}
pub broadcast proof fn lemma_empty_l(a: Seq<TT>)
    ensures #[trigger] (Seq::<TT>::empty() + a) == a,
{
    assert(Seq::<TT>::empty() + a =~= a);
}
pub broadcast proof fn lemma_empty_r(a: Seq<TT>)
    ensures #[trigger] (a + Seq::<TT>::empty()) == a,
{
    assert(a + Seq::<TT>::empty() =~= a);
}
pub broadcast proof fn lemma_push(a: Seq<TT>, x: TT)
    ensures #[trigger] a.push(x) == a + seq![x],
{
    assert(a.push(x) =~= a + seq![x]);
}
pub broadcast proof fn lemma_views(v: Vec<TokenStream>)
    ensures #[trigger] v.items() == views(v@), wits(views(v@)),
{
    assert(v.items() =~= views(v@));
}
pub broadcast proof fn lemma_stmts(v: Vec<Statement>, items: Seq<Seq<TT>>, sep: Seq<char>)
    requires items.len() == v@.len(), forall|k: int| 0 <= k < v@.len() ==> stmt_code(#[trigger] v@[k], items[k]), sep == ""@ || sep == ";"@,
    ensures #![trigger v@, repeated(items, Seq::empty(), sep)] wit(v, repeated(items, Seq::empty(), sep)) && stmts_code(v, repeated(items, Seq::empty(), sep)),
{
    assert(wits(items));
}
pub broadcast proof fn lemma_params(v: Seq<(Type, IdentifierExpr)>, items: Seq<Seq<TT>>)
    requires items.len() == v.len(), forall|k: int| 0 <= k < v.len() ==> param_code(#[trigger] v[k], items[k]),
    ensures #![trigger v.len(), repeated(items, Seq::empty(), ","@)] params_code(v, repeated(items, Seq::empty(), ","@)),
{
    assert(wits(items));
}
pub broadcast proof fn lemma_pushed0(b: Seq<TT>)
    ensures #[trigger] pushed(Seq::empty(), b) =~= b,
{
}
}


broadcast use {lemmas::lemma_assoc, lemmas::lemma_empty_l, lemmas::lemma_empty_r, lemmas::lemma_push, lemmas::lemma_pushed, lemmas::lemma_pushed_prefix, lemmas::lemma_pushed0};

impl<'t> VarDecl<'t> {
//@ fn ast/var_decl.rs VarDecl::finish
//@ sig pub fn finish(&mut self, ctx: &mut Ctx) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures r is Ok ==> var_decl_fin(*old(self), *final(self)),
//@ end
//@ fn ast/var_decl.rs VarDecl::to_tokens
//@ sig pub fn to_tokens(&self, ctx: &mut Ctx, tokens: &mut TokenStream)
    ensures code_pushed(old(tokens)@, final(tokens)@), var_decl_code(*self, pushed(old(tokens)@, final(tokens)@)),
//@ end
//@ fn ast/var_decl.rs VarDecl::to_token_stream
//@ sig pub fn to_token_stream(&self, ctx: &mut Ctx) -> (r: TokenStream)
    ensures var_decl_code(*self, r@),
//@ end
}
impl<'t> FunctionDecl<'t> {
//@ fn ast/function_decl.rs FunctionDecl::finish
//@ opt for-pat
//@ sig pub fn finish(&mut self, ctx: &mut Ctx) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures r is Ok ==> fn_decl_fin(*old(self), *final(self)),
//@ attr #[verifier::loop_isolation(false)]
//@ loop 1
    invariant forall|j: int| 0 <= j < it1.index@ ==> type_fin((*it1.seq()[j]).0, (*final(#[trigger] it1.seq()[j])).0) && name_fin((*it1.seq()[j]).1, (*final(it1.seq()[j])).1),
//@ end
//@ fn ast/function_decl.rs FunctionDecl::to_tokens
//@ sig pub fn to_tokens(&self, ctx: &mut Ctx, tokens: &mut TokenStream)
//@ opt iter-map
    ensures code_pushed(old(tokens)@, final(tokens)@), fn_decl_code(*self, pushed(old(tokens)@, final(tokens)@)),
//@ attr #[verifier::loop_isolation(false)]
//@ at start
    broadcast use {lemmas::lemma_views, lemmas::lemma_stmts, lemmas::lemma_params};
//@ loop 1
    invariant vx_m1@.len() == it1.index@, forall|k: int| 0 <= k < it1.index@ ==> param_code(#[trigger] self.args@[k], views(vx_m1@)[k]),
//@ end
}
impl<'t> Statement<'t> {
//@ fn ast/statement.rs Statement::finish
//@ opt for-mut
//@ sig pub fn finish(&mut self, ctx: &mut Ctx) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures r is Ok ==> stmt_fin(*old(self), *final(self)),
    decreases *old(self), 1int,
//@ attr #[verifier::loop_isolation(false)]
//@ loop 1
    invariant forall|j: int| 0 <= j < it1.index@ ==> stmt_fin(*it1.seq()[j], *final(#[trigger] it1.seq()[j])),
//@ loop 2
    invariant forall|j: int| 0 <= j < it2.index@ ==> stmt_fin(*it2.seq()[j], *final(#[trigger] it2.seq()[j])),
//@ loop 3
    invariant forall|j: int| 0 <= j < it3.index@ ==> stmt_fin(*it3.seq()[j], *final(#[trigger] it3.seq()[j])),
//@ loop 4
    invariant forall|j: int| 0 <= j < it4.index@ ==> stmt_fin(*it4.seq()[j], *final(#[trigger] it4.seq()[j])),
//@ end
//@ fn ast/statement.rs Statement::to_tokens
//@ sig pub fn to_tokens(&self, ctx: &mut Ctx, tokens: &mut TokenStream)
//@ opt iter-map
    ensures code_pushed(old(tokens)@, final(tokens)@), stmt_code(*self, pushed(old(tokens)@, final(tokens)@)),
    decreases *self, 0int,
//@ attr #[verifier::loop_isolation(false)]
//@ at start
    broadcast use {lemmas::lemma_views, lemmas::lemma_stmts, lemmas::lemma_params};
//@ loop 1
    invariant vx_m1@.len() == it1.index@, forall|k: int| 0 <= k < it1.index@ ==> stmt_code(#[trigger] block@[k], views(vx_m1@)[k]),
//@ loop 2
    invariant vx_m2@.len() == it2.index@, forall|k: int| 0 <= k < it2.index@ ==> stmt_code(#[trigger] if_branch@[k], views(vx_m2@)[k]),
//@ loop 3
    invariant vx_m3@.len() == it3.index@, forall|k: int| 0 <= k < it3.index@ ==> stmt_code(#[trigger] else_branch@[k], views(vx_m3@)[k]),
//@ loop 4
    invariant vx_m4@.len() == it4.index@, forall|k: int| 0 <= k < it4.index@ ==> stmt_code(#[trigger] block@[k], views(vx_m4@)[k]),
//@ end
//@ fn ast/statement.rs Statement::to_token_stream
//@ sig pub fn to_token_stream(&self, ctx: &mut Ctx) -> (r: TokenStream)
    ensures stmt_code(*self, r@),
    decreases *self, 1int,
//@ end
}
impl<'t> MacroBody<'t> {
//@ fn macro_body.rs MacroBody::finish
//@ sig pub fn finish(&mut self, ctx: &mut Ctx) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures r is Ok ==> match (*old(self), *final(self)) {
        (MacroBody::Statement(a), MacroBody::Statement(b)) => stmt_fin(a, b),
        (MacroBody::Expr(a), MacroBody::Expr(b)) => expr_fin(a, b),
        _ => false,
    },
//@ end
}
}
fn main() {}
