//@ # P18: what makes a macro remain a macro, and which types its parameters get.
use vstd::prelude::*;
verus! {
//@ include ast.vxi
//@ include clones.vxi
//@ include p18c.vxi
/// The types in `e`, what has become of an expression, are noted in the context.
pub open spec fn types_noted(e: Expr, b: Ctx) -> bool {
    forall|i: int| 0 <= i < b.arg_types@.len() && as_type(e, i) ==> type_like(#[trigger] b.arg_types@[i])
}
pub open spec fn type_is_noted(t: Type, b: Ctx) -> bool {
    forall|i: int| 0 <= i < b.arg_types@.len() && type_is(t, i) ==> type_like(#[trigger] b.arg_types@[i])
}
/// Does `e` tell the type of parameter `i`?
pub open spec fn typed(e: Expr, i: int) -> bool
    decreases e,
{
    match e {
        Expr::FunctionCall(c) => given_type(c, i) || exists|k: int| 0 <= k < c.args@.len() && typed(#[trigger] c.args@[k], i),
        Expr::Cast(c) => typed(*c.expr, i),
        Expr::Unary(u) => typed(*u.expr, i),
        Expr::Binary(b) => typed(*b.lhs, i) || typed(*b.rhs, i),
        Expr::Ternary(t) => typed(*t.condition, i) || typed(*t.if_branch, i) || typed(*t.else_branch, i),
        _ => false,
    }
}
pub open spec fn later(a: MacroArgType, b: MacroArgType) -> bool {
    &&& a is Ident ==> b is Ident
    &&& type_like(a) ==> type_like(b)
    &&& name_like(a) ==> name_like(b)
    &&& a is Known ==> b == a || name_like(b)
}
/// What any part of the body may do to the context.
pub open spec fn grows(a: Ctx, b: Ctx) -> bool {
    &&& b.arg_types@.len() == a.arg_types@.len()
    &&& b.is_variable_macro == a.is_variable_macro
    &&& a.export_as_macro ==> b.export_as_macro
    &&& forall|i: int| 0 <= i < a.arg_types@.len() ==> later(a.arg_types@[i], #[trigger] b.arg_types@[i])
}
/// What `e` demands is noted in the context.
pub open spec fn noted(e: Expr, b: Ctx) -> bool {
    &&& needs_macro(e) ==> b.export_as_macro
    &&& forall|i: int| 0 <= i < b.arg_types@.len() ==> (named(e, i, Use::Name) ==> fits(#[trigger] b.arg_types@[i], Use::Name)) && (named(e, i, Use::Type) ==> fits(b.arg_types@[i], Use::Type)) && (named(e, i, Use::Text) ==> fits(b.arg_types@[i], Use::Text))
    &&& forall|i: int| 0 <= i < b.arg_types@.len() && typed(e, i) ==> !(#[trigger] b.arg_types@[i] is Unknown)
}
/// What `a` demands is noted in the context, or `b` (what has become of `a`) still demands it.
pub open spec fn kept(a: Expr, b: Expr, x: Ctx) -> bool {
    &&& needs_macro(a) ==> x.export_as_macro || needs_macro(b)
    &&& forall|i: int| 0 <= i < x.arg_types@.len() ==> (named(a, i, Use::Name) ==> fits(#[trigger] x.arg_types@[i], Use::Name) || named(b, i, Use::Name)) && (named(a, i, Use::Type) ==> fits(x.arg_types@[i], Use::Type) || named(b, i, Use::Type)) && (named(a, i, Use::Text) ==> fits(x.arg_types@[i], Use::Text) || named(b, i, Use::Text))
    &&& forall|i: int| 0 <= i < x.arg_types@.len() && typed(a, i) ==> !(#[trigger] x.arg_types@[i] is Unknown) || typed(b, i)
}
pub open spec fn carried(a: Expr, b: Expr, x: Ctx) -> bool {
    &&& kept(a, b, x)
    &&& arg_place(a) ==> arg_place(b)
    &&& forall|i: int| #[trigger] is_arg(a, i) ==> is_arg(b, i)
}
pub open spec fn type_noted(t: Type, b: Ctx) -> bool {
    forall|i: int| 0 <= i < b.arg_types@.len() && type_named(t, i) ==> #[trigger] b.arg_types@[i] is Ident
}
pub open spec fn name_noted(n: IdentifierExpr, b: Ctx) -> bool {
    forall|i: int| 0 <= i < b.arg_types@.len() && pasted(n, i) ==> #[trigger] b.arg_types@[i] is Ident
}


impl<'t> IdentifierExpr<'t> {
//@ fn ast/identifier_expr.rs IdentifierExpr::finish
//@ sig pub fn finish(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures
        *final(self) == *old(self), grows(*old(ctx), *final(ctx)),
        r is Ok ==> name_noted(*old(self), *final(ctx)),
        final(ctx).export_as_macro == old(ctx).export_as_macro,
//@ opt for-ref
//@ attr #[verifier::loop_isolation(false)]
//@ rule unreachable!() ~> vx_panics()
//@ loop 1
    invariant
        grows(*old(ctx), *ctx), ctx.export_as_macro == old(ctx).export_as_macro,
        it1.seq().len() == ids0.len(),
        forall|j: int| 0 <= j < it1.seq().len() ==> *(#[trigger] it1.seq()[j]) == ids0[j],
        forall|j: int, i: int| 0 <= j < it1.index@ && 0 <= i < ctx.arg_types@.len() && #[trigger] part_arg(ids0[j], i) ==> ctx.arg_types@[i] is Ident,
//@ before `for id in`
    let ghost ids0 = ids@;
//@ end
}

/// The text of `#` or a name in the context does not change what is needed.
pub open spec fn type_carried(a: Type, b: Type, x: Ctx) -> bool {
    forall|i: int| 0 <= i < x.arg_types@.len() && type_named(a, i) ==> #[trigger] x.arg_types@[i] is Ident || type_named(b, i)
}
impl<'t> Type<'t> {
//@ fn ast/ty.rs Type::finish
//@ sig pub fn finish(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures
        grows(*old(ctx), *final(ctx)),
        type_carried(*old(self), *final(self), *final(ctx)),
        r is Ok ==> type_noted(*old(self), *final(ctx)) && type_is_noted(*old(self), *final(ctx)) && type_is_noted(*final(self), *final(ctx)),
        final(ctx).export_as_macro == old(ctx).export_as_macro,
    decreases *old(self),
//@ end
}
impl TypeQualifier {
    #[verifier::external_body]
    pub fn is_const(&self) -> bool { unimplemented!() }
}
impl<'t> Var<'t> {
//@ fn ast/var.rs Var::finish
//@ sig pub fn finish(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures
        *final(self) == *old(self), grows(*old(ctx), *final(ctx)),
        r is Ok ==> noted(Expr::Var(*old(self)), *final(ctx)),
        // the type of a parameter is the one which is known
        old(self).name matches IdentifierExpr::Arg(a) ==> (r matches Ok(t) ==> match t {
            Some(t) => final(ctx).arg_types@[a.index as int] == MacroArgType::Known(t),
            None => !(final(ctx).arg_types@[a.index as int] is Known),
        }),
//@ at start
    proof { str_ext(); }
//@ end
}
impl<'t> Stringify<'t> {
//@ fn ast/stringify.rs Stringify::finish
//@ sig pub fn finish(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures
        r is Ok ==> *final(self) == *old(self), grows(*old(ctx), *final(ctx)),
        carried(Expr::Stringify(*old(self)), Expr::Stringify(*final(self)), *final(ctx)),
        r is Ok ==> noted(Expr::Stringify(*old(self)), *final(ctx)) && types_noted(Expr::Stringify(*final(self)), *final(ctx)),
//@ opt hoist-guards wild-guards
//@ end
}

impl LitInt {
//@ fn ast/literal/int.rs LitInt::finish
//@ sig pub fn finish<'t>(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures *final(self) == *old(self), *final(ctx) == *old(ctx),
//@ end
}
impl LitFloat {
//@ fn ast/literal/float.rs LitFloat::finish
//@ sig pub fn finish<'t>(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures *final(self) == *old(self), *final(ctx) == *old(ctx),
//@ end
}
/// What is known about the type of a string or character depends on the context only.
impl<'t> LitString<'t> {
    #[verifier::external_body]
    pub fn finish(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
        ensures grows(*old(ctx), *final(ctx)),
    { unimplemented!() }
}
impl LitChar {
    #[verifier::external_body]
    pub fn finish<'t>(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
        ensures grows(*old(ctx), *final(ctx)), r matches Ok(t) ==> t matches Some(t) && foreign(t),
    { unimplemented!() }
}
impl<'t> Lit<'t> {
//@ fn ast/literal.rs Lit::finish
//@ sig pub fn finish(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures grows(*old(ctx), *final(ctx)), (*final(self) is Char) == (*old(self) is Char), *old(self) is Char ==> (r matches Ok(t) ==> t matches Some(t) && foreign(t)),
//@ end
}
impl<'t> Cast<'t> {
//@ fn ast/cast.rs Cast::finish
//@ sig pub fn finish(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures
        grows(*old(ctx), *final(ctx)),
        carried(Expr::Cast(*old(self)), Expr::Cast(*final(self)), *final(ctx)),
        r is Ok ==> noted(Expr::Cast(*old(self)), *final(ctx)) && types_noted(Expr::Cast(*final(self)), *final(ctx)),
        // the value of a cast is of the type it names
        r matches Ok(t) ==> t == Some(final(self).ty),
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ end
}
impl<'t> UnaryExpr<'t> {
//@ fn ast/unary_expr.rs UnaryExpr::finish
//@ sig pub fn finish(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures
        grows(*old(ctx), *final(ctx)), final(self).op == old(self).op,
        carried(Expr::Unary(*old(self)), Expr::Unary(*final(self)), *final(ctx)),
        r is Ok ==> noted(Expr::Unary(*old(self)), *final(ctx)) && types_noted(Expr::Unary(*final(self)), *final(ctx)),
        r is Ok && old(self).op is Not ==> r->Ok_0 == Some(Type::<'t>::BuiltIn(BuiltInType::Bool)),
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ end
}
impl BinaryOp {
//@ fn ast/binary_expr.rs BinaryOp::is_assignment
    ensures r == assigns(*self),
//@ end
}
impl<'t> BinaryExpr<'t> {
//@ fn ast/binary_expr.rs BinaryExpr::finish
//@ sig pub fn finish(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures
        grows(*old(ctx), *final(ctx)), final(self).op == old(self).op,
        carried(Expr::Binary(*old(self)), Expr::Binary(*final(self)), *final(ctx)),
        r is Ok ==> noted(Expr::Binary(*old(self)), *final(ctx)) && types_noted(Expr::Binary(*final(self)), *final(ctx)),
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ opt hoist-guards
//@ closure 1
    -> (r: Option<Type<'t>>) ensures r matches Some(t) ==> t is BuiltIn
//@ at start
    proof { reveal_with_fuel(as_type, 4); reveal_with_fuel(type_is, 3); }
//@ end
}
pub open spec fn args_carried(a: FunctionCall, b: FunctionCall, x: Ctx) -> bool {
    a.name == b.name && a.args@.len() == b.args@.len()
        && forall|j: int| #![trigger a.args@[j]] #![trigger b.args@[j]] 0 <= j < a.args@.len() ==> carried(a.args@[j], b.args@[j], x)
}
pub broadcast proof fn lemma_call(a: FunctionCall, b: FunctionCall, x: Ctx)
    requires args_carried(a, b, x),
    ensures #[trigger] carried(Expr::FunctionCall(a), Expr::FunctionCall(b), x),
{
    reveal_with_fuel(needs_macro, 2); reveal_with_fuel(named, 2); reveal_with_fuel(typed, 2);
    let (e, f) = (Expr::FunctionCall(a), Expr::FunctionCall(b));
    assert forall|i: int| 0 <= i < x.arg_types@.len() implies (named(e, i, Use::Name) ==> fits(#[trigger] x.arg_types@[i], Use::Name) || named(f, i, Use::Name)) && (named(e, i, Use::Type) ==> fits(x.arg_types@[i], Use::Type) || named(f, i, Use::Type)) && (named(e, i, Use::Text) ==> fits(x.arg_types@[i], Use::Text) || named(f, i, Use::Text)) by {}
    assert forall|i: int| 0 <= i < x.arg_types@.len() && typed(e, i) implies !(#[trigger] x.arg_types@[i] is Unknown) || typed(f, i) by {}
}
pub broadcast proof fn lemma_grown(e: Expr, f: Expr, x: Ctx, y: Ctx)
    requires #[trigger] carried(e, f, x), #[trigger] grows(x, y),
    ensures carried(e, f, y), types_noted(f, x) ==> types_noted(f, y), types_noted(e, x) ==> types_noted(e, y),
{
    assert(types_noted(f, x) ==> types_noted(f, y)) by { assert(forall|i: int| 0 <= i < x.arg_types@.len() ==> later(x.arg_types@[i], #[trigger] y.arg_types@[i])); }
    assert(types_noted(e, x) ==> types_noted(e, y)) by { assert(forall|i: int| 0 <= i < x.arg_types@.len() ==> later(x.arg_types@[i], #[trigger] y.arg_types@[i])); }
    assert forall|i: int| 0 <= i < y.arg_types@.len() implies (named(e, i, Use::Name) ==> fits(#[trigger] y.arg_types@[i], Use::Name) || named(f, i, Use::Name)) && (named(e, i, Use::Type) ==> fits(y.arg_types@[i], Use::Type) || named(f, i, Use::Type)) && (named(e, i, Use::Text) ==> fits(y.arg_types@[i], Use::Text) || named(f, i, Use::Text)) by { assert(later(x.arg_types@[i], y.arg_types@[i])); }
    assert forall|i: int| 0 <= i < y.arg_types@.len() && typed(e, i) implies !(#[trigger] y.arg_types@[i] is Unknown) || typed(f, i) by { assert(later(x.arg_types@[i], y.arg_types@[i])); }
}
impl<'t> FunctionCall<'t> {
//@ fn ast/function_call.rs FunctionCall::finish
//@ sig pub fn finish(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures
        grows(*old(ctx), *final(ctx)),
        carried(Expr::FunctionCall(*old(self)), Expr::FunctionCall(*final(self)), *final(ctx)),
        r is Ok ==> noted(Expr::FunctionCall(*old(self)), *final(ctx)) && types_noted(Expr::FunctionCall(*final(self)), *final(ctx)),
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ attr #[verifier::loop_isolation(false)]
//@ opt wild-guards for-index
//@ loop 1
    invariant
        grows(*old(ctx), *ctx), grows(ctx0, *ctx), self.name == old(self).name, self.args@.len() == args0.len(),
        forall|j: int| #![trigger args0[j]] #![trigger self.args@[j]] 0 <= j < vx_i1 ==> noted(args0[j], *ctx) && carried(args0[j], self.args@[j], *ctx) && types_noted(self.args@[j], *ctx),
        forall|j: int| #![trigger args0[j]] #![trigger self.args@[j]] vx_i1 <= j < args0.len() ==> self.args@[j] == args0[j],
//@ loop 2
    invariant
        grows(*old(ctx), *ctx), grows(ctx1, *ctx), self.name == old(self).name, self.args@ == args1,
        forall|j: int, i: int| 0 <= j < vx_i2 && 0 <= i < ctx.arg_types@.len() && #[trigger] is_arg(args1[j], i) ==> !(ctx.arg_types@[i] is Unknown),
//@ at start
    broadcast use lemma_call, lemma_grown;
//@ before `for vx_i1 in`
    let ghost args0 = self.args@;
    let ghost ctx0 = *ctx;
//@ after `for vx_i1 in`
    let ghost args1 = self.args@;
    let ghost ctx1 = *ctx;
//@ end
}
impl<'t> TernaryExpr<'t> {
//@ fn ast/ternary_expr.rs TernaryExpr::finish
//@ sig pub fn finish(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures
        grows(*old(ctx), *final(ctx)),
        carried(Expr::Ternary(*old(self)), Expr::Ternary(*final(self)), *final(ctx)),
        r is Ok ==> noted(Expr::Ternary(*old(self)), *final(ctx)) && types_noted(Expr::Ternary(*final(self)), *final(ctx)),
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ end
}
pub open spec fn compares(op: BinaryOp) -> bool {
    op is Eq || op is Neq || op is And || op is Or || op is Lt || op is Lte || op is Gt || op is Gte
}
impl<'t> Expr<'t> {
    /// Concatenated strings are not looked into.
    #[verifier::external_body]
    pub fn vx_concat_string(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
        ensures grows(*old(ctx), *final(ctx)), *final(self) is ConcatString || *final(self) is Literal,
    { unimplemented!() }
//@ fn ast/expr.rs Expr::is_arg_place
//@ sig pub fn is_arg_place(&self) -> (r: bool)
    ensures r == arg_place(*self),
    decreases *self,
//@ end
//@ fn ast/expr.rs Expr::finish_condition
//@ sig pub fn finish_condition(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures
        grows(*old(ctx), *final(ctx)),
        kept(*old(self), *final(self), *final(ctx)),
        r is Ok ==> noted(*old(self), *final(ctx)) && types_noted(*final(self), *final(ctx)),
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ at start
    proof { reveal_with_fuel(as_type, 4); reveal_with_fuel(type_is, 3); }
//@ end
//@ fn ast/expr.rs Expr::finish
//@ sig pub fn finish(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures
        grows(*old(ctx), *final(ctx)),
        carried(*old(self), *final(self), *final(ctx)),
        r is Ok ==> noted(*old(self), *final(ctx)) && types_noted(*final(self), *final(ctx)),
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ arm Self::ConcatString(names) ~> self.vx_concat_string(ctx)
//@ rule LitFloat::Float(-$f) ~> LitFloat::Float(vx_fneg($f))
//@ rule LitFloat::Double(-$f) ~> LitFloat::Double(vx_fneg($f))
//@ rule LitFloat::LongDouble(-$f) ~> LitFloat::LongDouble(vx_fneg($f))
//@ rule *$f == 0.0 ~> vx_fzero($f)
//@ rule (*i == 0).into() ~> vx_bool_i128(*i == 0)
//@ before `return self.finish(ctx)`
proof {
    reveal_with_fuel(needs_macro, 5); reveal_with_fuel(named, 5); reveal_with_fuel(typed, 5);
    assert(kept(e1, *self, *ctx));
    assert(kept(*old(self), *self, *ctx));
}
//@ after `let cast1`
    let ghost e1 = Expr::Cast(*cast1);
    proof { assert(kept(*old(self), e1, *ctx)); }
//@ at start
    proof { reveal_with_fuel(as_type, 4); reveal_with_fuel(type_is, 3); }
//@ end
}
// ---- statements and declarations -----------------------------------------------------------------------------------

pub open spec fn asm_needs(a: Asm) -> bool {
    ||| global_asm(a.template@)
    ||| exists|k: int| 0 <= k < a.outputs@.len() && needs_macro((#[trigger] a.outputs@[k]).2)
    ||| exists|k: int| 0 <= k < a.inputs@.len() && needs_macro((#[trigger] a.inputs@[k]).1)
}
pub open spec fn asm_named(a: Asm, i: int, k0: Use) -> bool {
    ||| exists|k: int| 0 <= k < a.outputs@.len() && named((#[trigger] a.outputs@[k]).2, i, k0)
    ||| exists|k: int| 0 <= k < a.inputs@.len() && named((#[trigger] a.inputs@[k]).1, i, k0)
}
pub open spec fn asm_typed(a: Asm, i: int) -> bool {
    ||| exists|k: int| 0 <= k < a.outputs@.len() && typed((#[trigger] a.outputs@[k]).2, i)
    ||| exists|k: int| 0 <= k < a.inputs@.len() && typed((#[trigger] a.inputs@[k]).1, i)
}
pub open spec fn type_uses(t: Type, i: int, k0: Use) -> bool { type_named(t, i) || (!(k0 is Name) && type_is(t, i)) }
pub open spec fn fn_decl_named(d: FunctionDecl, i: int, k0: Use) -> bool {
    type_uses(d.ret_ty, i, k0) || declared(d.name, i)
        || exists|k: int| 0 <= k < d.args@.len() && (type_uses((#[trigger] d.args@[k]).0, i, k0) || declared(d.args@[k].1, i))
}
pub open spec fn any_needs(v: Seq<Statement>) -> bool { exists|k: int| 0 <= k < v.len() && stmt_needs(#[trigger] v[k]) }
pub open spec fn stmt_needs(s: Statement) -> bool
    decreases s,
{
    match s {
        Statement::Asm(a) => asm_needs(a),
        Statement::Expr(e) => needs_macro(e),
        Statement::FunctionDecl(_) => false,
        Statement::VarDecl(d) => needs_macro(d.rhs),
        Statement::Block(b) => exists|k: int| 0 <= k < b@.len() && stmt_needs(#[trigger] b@[k]),
        Statement::If { condition, if_branch, else_branch } => needs_macro(condition)
            || (exists|k: int| 0 <= k < if_branch@.len() && stmt_needs(#[trigger] if_branch@[k]))
            || (exists|k: int| 0 <= k < else_branch@.len() && stmt_needs(#[trigger] else_branch@[k])),
        Statement::DoWhile { block, condition } => needs_macro(condition)
            || exists|k: int| 0 <= k < block@.len() && stmt_needs(#[trigger] block@[k]),
    }
}
pub open spec fn stmt_named(s: Statement, i: int, k0: Use) -> bool
    decreases s,
{
    match s {
        Statement::Asm(a) => asm_named(a, i, k0),
        Statement::Expr(e) => named(e, i, k0),
        Statement::FunctionDecl(d) => fn_decl_named(d, i, k0),
        Statement::VarDecl(d) => type_uses(d.ty, i, k0) || declared(d.name, i) || named(d.rhs, i, k0),
        Statement::Block(b) => exists|k: int| 0 <= k < b@.len() && stmt_named(#[trigger] b@[k], i, k0),
        Statement::If { condition, if_branch, else_branch } => named(condition, i, k0)
            || (exists|k: int| 0 <= k < if_branch@.len() && stmt_named(#[trigger] if_branch@[k], i, k0))
            || (exists|k: int| 0 <= k < else_branch@.len() && stmt_named(#[trigger] else_branch@[k], i, k0)),
        Statement::DoWhile { block, condition } => named(condition, i, k0)
            || exists|k: int| 0 <= k < block@.len() && stmt_named(#[trigger] block@[k], i, k0),
    }
}
pub open spec fn stmt_typed(s: Statement, i: int) -> bool
    decreases s,
{
    match s {
        Statement::Asm(a) => asm_typed(a, i),
        Statement::Expr(e) => typed(e, i),
        Statement::FunctionDecl(_) => false,
        Statement::VarDecl(d) => typed(d.rhs, i),
        Statement::Block(b) => exists|k: int| 0 <= k < b@.len() && stmt_typed(#[trigger] b@[k], i),
        Statement::If { condition, if_branch, else_branch } => typed(condition, i)
            || (exists|k: int| 0 <= k < if_branch@.len() && stmt_typed(#[trigger] if_branch@[k], i))
            || (exists|k: int| 0 <= k < else_branch@.len() && stmt_typed(#[trigger] else_branch@[k], i)),
        Statement::DoWhile { block, condition } => typed(condition, i)
            || exists|k: int| 0 <= k < block@.len() && stmt_typed(#[trigger] block@[k], i),
    }
}
pub open spec fn stmt_noted(s: Statement, b: Ctx) -> bool {
    &&& stmt_needs(s) ==> b.export_as_macro
    &&& forall|i: int| 0 <= i < b.arg_types@.len() ==> (stmt_named(s, i, Use::Name) ==> fits(#[trigger] b.arg_types@[i], Use::Name)) && (stmt_named(s, i, Use::Type) ==> fits(b.arg_types@[i], Use::Type)) && (stmt_named(s, i, Use::Text) ==> fits(b.arg_types@[i], Use::Text))
    &&& forall|i: int| 0 <= i < b.arg_types@.len() && stmt_typed(s, i) ==> !(#[trigger] b.arg_types@[i] is Unknown)
}
impl<'t> Asm<'t> {
//@ fn ast/asm.rs Asm::finish
//@ sig pub fn finish(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures
        grows(*old(ctx), *final(ctx)),
        r is Ok ==> stmt_noted(Statement::Asm(*old(self)), *final(ctx)),
//@ opt for-pat
//@ attr #[verifier::loop_isolation(false)]
//@ before `for vx_p1 in`
    let ghost ctx1 = *ctx;
//@ before `for vx_p2 in`
    let ghost ctx2 = *ctx;
//@ loop 1
    invariant
        grows(*old(ctx), *ctx), grows(ctx1, *ctx),
        it1.seq().len() == old(self).outputs@.len(), forall|j: int| 0 <= j < old(self).outputs@.len() ==> *(#[trigger] it1.seq()[j]) == old(self).outputs@[j],
        forall|j: int| 0 <= j < it1.index@ ==> noted((#[trigger] old(self).outputs@[j]).2, *ctx),
//@ loop 2
    invariant
        grows(*old(ctx), *ctx), grows(ctx2, *ctx),
        forall|j: int| 0 <= j < old(self).outputs@.len() ==> noted((#[trigger] old(self).outputs@[j]).2, *ctx),
        it2.seq().len() == old(self).inputs@.len(), forall|j: int| 0 <= j < old(self).inputs@.len() ==> *(#[trigger] it2.seq()[j]) == old(self).inputs@[j],
        forall|j: int| 0 <= j < it2.index@ ==> noted((#[trigger] old(self).inputs@[j]).1, *ctx),
//@ end
}
impl<'t> VarDecl<'t> {
//@ fn ast/var_decl.rs VarDecl::finish
//@ sig pub fn finish(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures
        grows(*old(ctx), *final(ctx)),
        r is Ok ==> stmt_noted(Statement::VarDecl(*old(self)), *final(ctx)),
//@ end
}
impl<'t> FunctionDecl<'t> {
//@ fn ast/function_decl.rs FunctionDecl::finish
//@ opt for-pat
//@ sig pub fn finish(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures
        grows(*old(ctx), *final(ctx)),
        r is Ok ==> stmt_noted(Statement::FunctionDecl(*old(self)), *final(ctx)),
//@ attr #[verifier::loop_isolation(false)]
//@ loop 1
    invariant
        grows(*old(ctx), *ctx),
        forall|i: int| 0 <= i < ctx.arg_types@.len() ==> ((type_uses(old(self).ret_ty, i, Use::Name) || declared(old(self).name, i)) ==> fits(#[trigger] ctx.arg_types@[i], Use::Name)) && ((type_uses(old(self).ret_ty, i, Use::Type) || declared(old(self).name, i)) ==> fits(ctx.arg_types@[i], Use::Type)) && ((type_uses(old(self).ret_ty, i, Use::Text) || declared(old(self).name, i)) ==> fits(ctx.arg_types@[i], Use::Text)),
        it1.seq().len() == old(self).args@.len(), forall|j: int| 0 <= j < old(self).args@.len() ==> *(#[trigger] it1.seq()[j]) == old(self).args@[j],
        forall|j: int, i: int| 0 <= j < it1.index@ && 0 <= i < ctx.arg_types@.len() ==> ((type_uses((#[trigger] old(self).args@[j]).0, i, Use::Name) || declared(old(self).args@[j].1, i)) ==> fits(#[trigger] ctx.arg_types@[i], Use::Name)) && ((type_uses((old(self).args@[j]).0, i, Use::Type) || declared(old(self).args@[j].1, i)) ==> fits(ctx.arg_types@[i], Use::Type)) && ((type_uses((old(self).args@[j]).0, i, Use::Text) || declared(old(self).args@[j].1, i)) ==> fits(ctx.arg_types@[i], Use::Text)),
//@ end
}
pub open spec fn if_cond<'t>(s: Statement<'t>) -> Expr<'t> { match s { Statement::If { condition, .. } => condition, _ => arbitrary() } }
pub open spec fn if_stmts<'t>(s: Statement<'t>) -> Seq<Statement<'t>> { match s { Statement::If { if_branch, .. } => if_branch@, _ => arbitrary() } }
pub open spec fn else_stmts<'t>(s: Statement<'t>) -> Seq<Statement<'t>> { match s { Statement::If { else_branch, .. } => else_branch@, _ => arbitrary() } }
pub open spec fn block_stmts<'t>(s: Statement<'t>) -> Seq<Statement<'t>> { match s { Statement::Block(b) => b@, Statement::DoWhile { block, .. } => block@, _ => arbitrary() } }
impl<'t> Statement<'t> {
//@ fn ast/statement.rs Statement::finish
//@ opt for-mut
//@ sig pub fn finish(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures
        grows(*old(ctx), *final(ctx)),
        r is Ok ==> stmt_noted(*old(self), *final(ctx)),
    decreases *old(self),
//@ attr #[verifier::loop_isolation(false)]
//@ loop 1
    invariant grows(*old(ctx), *ctx), it1.seq().len() == s0.len(), forall|j: int| 0 <= j < s0.len() ==> *(#[trigger] it1.seq()[j]) == s0[j],
        forall|j: int| 0 <= j < it1.index@ ==> stmt_noted(#[trigger] s0[j], *ctx),
//@ loop 2
    invariant grows(*old(ctx), *ctx), noted(c0, *ctx), it2.seq().len() == b0.len(), forall|j: int| 0 <= j < b0.len() ==> *(#[trigger] it2.seq()[j]) == b0[j],
        forall|j: int| 0 <= j < it2.index@ ==> stmt_noted(#[trigger] b0[j], *ctx),
//@ loop 3
    invariant grows(*old(ctx), *ctx), noted(c0, *ctx),
        forall|j: int| 0 <= j < b0.len() ==> stmt_noted(#[trigger] b0[j], *ctx),
        it3.seq().len() == e0.len(), forall|j: int| 0 <= j < e0.len() ==> *(#[trigger] it3.seq()[j]) == e0[j],
        forall|j: int| 0 <= j < it3.index@ ==> stmt_noted(#[trigger] e0[j], *ctx),
//@ loop 4
    invariant grows(*old(ctx), *ctx), it4.seq().len() == s0.len(), forall|j: int| 0 <= j < s0.len() ==> *(#[trigger] it4.seq()[j]) == s0[j],
        forall|j: int| 0 <= j < it4.index@ ==> stmt_noted(#[trigger] s0[j], *ctx),
//@ at start
    let ghost c0 = if_cond(*self);
    let ghost b0 = if_stmts(*self);
    let ghost e0 = else_stmts(*self);
    let ghost s0 = block_stmts(*self);
//@ end
}
impl<'t> MacroBody<'t> {
//@ fn macro_body.rs MacroBody::finish
//@ sig pub fn finish(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures
        grows(*old(ctx), *final(ctx)),
        r is Ok ==> match *old(self) {
            MacroBody::Statement(s) => stmt_noted(s, *final(ctx)),
            MacroBody::Expr(e) => noted(e, *final(ctx)),
        },
//@ end
}
}
fn main() {}
