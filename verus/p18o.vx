//@ # P18: only what asks for a macro or a fragment gets one.
use vstd::prelude::*;
verus! {
//@ include ast.vxi
//@ include clones.vxi
//@ include p18c.vxi
/// The parameter given to `offsetof` as argument `n`.
pub open spec fn offset_arg(c: FunctionCall, n: int, i: int) -> bool {
    c.name matches IdentifierExpr::Plain(id) && id.id@ == "__builtin_offsetof"@ && known_function(id.id@) is None
        && c.args@.len() == 2 && is_arg(c.args@[n], i)
}
/// Does `e` ask for a macro? Concatenated strings are not looked into.
pub open spec fn asks(e: Expr) -> bool
    decreases e,
{
    match e {
        Expr::Var(v) => free(v.name),
        Expr::FunctionCall(c) => (c.name matches IdentifierExpr::Plain(id) && known_function(id.id@) is None)
            || exists|k: int| 0 <= k < c.args@.len() && asks(#[trigger] c.args@[k]),
        // `(t)(a) * (t)b` may turn out to be a product
        Expr::Cast(c) => asks(*c.expr) || product_like(*c.expr),
        Expr::Unary(u) => asks(*u.expr) || (changes(u.op) && arg_place(*u.expr)),
        Expr::Binary(b) => asks(*b.lhs) || asks(*b.rhs) || (assigns(b.op) && arg_place(*b.lhs)),
        Expr::Ternary(t) => asks(*t.condition) || asks(*t.if_branch) || asks(*t.else_branch),
        Expr::Stringify(s) => *s.arg matches Expr::Var(Var { name: IdentifierExpr::Plain(_) }),
        Expr::ConcatString(_) => true,
        Expr::Literal(_) => false,
        Expr::SizeOf(_) => false,
    }
}
pub open spec fn deref(e: Expr) -> bool { e matches Expr::Unary(u) && u.op is Deref }
pub open spec fn product_like(e: Expr) -> bool { e matches Expr::Cast(c) && c.ty is Identifier && deref(*c.expr) }
/// May `e` make `m` of parameter `i`? Concatenated strings are not looked into.
pub open spec fn marks<'t>(e: Expr<'t>, i: int, m: MacroArgType<'t>) -> bool
    decreases e,
{
    match e {
        Expr::Var(v) => m is Ident && pasted(v.name, i),
        Expr::FunctionCall(c) => (m is Ident && pasted(c.name, i))
            || (m matches MacroArgType::Known(t) && passed(c, i, t))
            || (m is Ty && offset_arg(c, 0, i)) || (m is Tt && offset_arg(c, 1, i))
            || exists|k: int| 0 <= k < c.args@.len() && marks(#[trigger] c.args@[k], i, m),
        Expr::Cast(c) => marks(*c.expr, i, m) || type_marks(c.ty, i, m),
        Expr::Unary(u) => marks(*u.expr, i, m),
        Expr::Binary(b) => marks(*b.lhs, i, m) || marks(*b.rhs, i, m) || (m is Ident && b.op is MemberAccess && is_arg(*b.rhs, i)),
        Expr::Ternary(t) => marks(*t.condition, i, m) || marks(*t.if_branch, i, m) || marks(*t.else_branch, i, m),
        Expr::Stringify(s) => m is Expr && is_arg(*s.arg, i),
        Expr::ConcatString(_) => true,
        Expr::Literal(_) => false,
        Expr::SizeOf(t) => type_marks(t, i, m),
    }
}
pub open spec fn type_marks<'t>(t: Type<'t>, i: int, m: MacroArgType<'t>) -> bool { (m is Ident && type_named(t, i)) || (m is Ty && type_is(t, i)) }
pub open spec fn idx(i: int) -> bool { true }
pub open spec fn at(i: int, m: MacroArgType) -> bool { idx(i) }
/// Parameters which differ were marked by `e`, and a macro is asked for by `e`.
pub open spec fn only<'t>(a: Ctx<'t>, b: Ctx<'t>, e: Expr<'t>) -> bool {
    &&& b.arg_types@.len() == a.arg_types@.len()
    &&& b.export_as_macro ==> a.export_as_macro || asks(e)
    &&& forall|i: int| 0 <= i < b.arg_types@.len() ==> at(i, #[trigger] b.arg_types@[i]) && (b.arg_types@[i] == a.arg_types@[i] || marks(e, i, b.arg_types@[i]))
}
/// What has become of `e` asks for no more than `e`.
pub open spec fn derived<'t>(e: Expr<'t>, f: Expr<'t>) -> bool {
    &&& asks(f) ==> asks(e)
    &&& arg_place(f) ==> arg_place(e)
    &&& deref(f) ==> deref(e)
    &&& product_like(f) ==> product_like(e)
    &&& forall|i: int| #![trigger is_arg(f, i)] #![trigger is_arg(e, i)] is_arg(f, i) ==> is_arg(e, i)
    &&& forall|i: int, m: MacroArgType<'t>| #[trigger] at(i, m) && marks(f, i, m) ==> marks(e, i, m)
}
pub open spec fn type_only<'t>(a: Ctx<'t>, b: Ctx<'t>, t: Type<'t>) -> bool {
    &&& b.arg_types@.len() == a.arg_types@.len()
    &&& b.export_as_macro == a.export_as_macro
    &&& forall|i: int| 0 <= i < b.arg_types@.len() ==> (#[trigger] b.arg_types@[i]) == a.arg_types@[i] || type_marks(t, i, b.arg_types@[i])
}
pub open spec fn type_derived<'t>(t: Type<'t>, u: Type<'t>) -> bool {
    (forall|i: int| #[trigger] idx(i) ==> (type_is(u, i) ==> type_is(t, i)) && (type_named(u, i) ==> type_named(t, i)))
        && (u is Identifier ==> t is Identifier)
}
pub open spec fn name_only<'t>(a: Ctx<'t>, b: Ctx<'t>, n: IdentifierExpr<'t>) -> bool {
    &&& b.arg_types@.len() == a.arg_types@.len()
    &&& b.export_as_macro == a.export_as_macro
    &&& forall|i: int| 0 <= i < b.arg_types@.len() ==> (#[trigger] b.arg_types@[i]) == a.arg_types@[i] || (b.arg_types@[i] is Ident && pasted(n, i))
}
impl<'t> IdentifierExpr<'t> {
//@ fn ast/identifier_expr.rs IdentifierExpr::finish
//@ sig pub fn finish(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures *final(self) == *old(self), name_only(*old(ctx), *final(ctx), *old(self)),
//@ opt for-ref
//@ attr #[verifier::loop_isolation(false)]
//@ rule unreachable!() ~> vx_panics()
//@ loop 1
    invariant
        ctx.arg_types@.len() == old(ctx).arg_types@.len(), ctx.export_as_macro == old(ctx).export_as_macro,
        it1.seq().len() == ids0.len(), *old(self) matches IdentifierExpr::Concat(v) && v@ == ids0,
        forall|j: int| 0 <= j < it1.seq().len() ==> *(#[trigger] it1.seq()[j]) == ids0[j],
        forall|i: int| 0 <= i < ctx.arg_types@.len() ==> (#[trigger] ctx.arg_types@[i]) == old(ctx).arg_types@[i] || (ctx.arg_types@[i] is Ident && pasted(*old(self), i)),
//@ before `for id in`
    let ghost ids0 = ids@;
//@ before `*ctx.arg_type_mut(arg.index()) =`
    assert(part_arg(ids0[it1.index@], arg.index as int));
//@ end
}
impl<'t> Type<'t> {
//@ fn ast/ty.rs Type::finish
//@ sig pub fn finish(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures type_only(*old(ctx), *final(ctx), *old(self)), type_derived(*old(self), *final(self)),
    decreases *old(self),
//@ end
}
impl TypeQualifier {
    #[verifier::external_body]
    pub fn is_const(&self) -> bool { unimplemented!() }
}
impl<'t> Var<'t> {
//@ fn ast/var.rs Var::finish
//@ sig pub fn finish(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures *final(self) == *old(self), only(*old(ctx), *final(ctx), Expr::Var(*old(self))),
//@ at start
    proof { str_ext(); }
//@ end
}
impl<'t> Stringify<'t> {
//@ fn ast/stringify.rs Stringify::finish
//@ sig pub fn finish(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures only(*old(ctx), *final(ctx), Expr::Stringify(*old(self))), derived(Expr::Stringify(*old(self)), Expr::Stringify(*final(self))),
//@ opt hoist-guards wild-guards
//@ rule &mut *self.arg ~> &*self.arg
//@ end
}
impl LitInt {
//@ fn ast/literal/int.rs LitInt::finish
//@ sig pub fn finish<'t>(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures *final(self) == *old(self), *final(ctx) == *old(ctx),
//@ end
}
impl LitFloat {
//@ fn ast/literal/float.rs LitFloat::finish
//@ sig pub fn finish<'t>(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures *final(self) == *old(self), *final(ctx) == *old(ctx),
//@ end
}
/// What is known about the type of a string or character depends on the context only.
impl<'t> LitString<'t> {
    #[verifier::external_body]
    pub fn finish(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
        ensures *final(ctx) == *old(ctx),
    { unimplemented!() }
}
impl LitChar {
    #[verifier::external_body]
    pub fn finish<'t>(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
        ensures *final(ctx) == *old(ctx), r matches Ok(t) ==> t matches Some(t) && foreign(t),
    { unimplemented!() }
}
impl<'t> Lit<'t> {
//@ fn ast/literal.rs Lit::finish
//@ sig pub fn finish(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures *final(ctx) == *old(ctx), (*final(self) is Char) == (*old(self) is Char), *old(self) is Char ==> (r matches Ok(t) ==> t matches Some(t) && foreign(t)),
//@ end
}
impl<'t> Cast<'t> {
//@ fn ast/cast.rs Cast::finish
//@ sig pub fn finish(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures only(*old(ctx), *final(ctx), Expr::Cast(*old(self))), derived(Expr::Cast(*old(self)), Expr::Cast(*final(self))),
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ end
}
impl<'t> UnaryExpr<'t> {
//@ fn ast/unary_expr.rs UnaryExpr::finish
//@ sig pub fn finish(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures only(*old(ctx), *final(ctx), Expr::Unary(*old(self))), derived(Expr::Unary(*old(self)), Expr::Unary(*final(self))), final(self).op == old(self).op,
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ end
}
impl BinaryOp {
//@ fn ast/binary_expr.rs BinaryOp::is_assignment
    ensures r == assigns(*self),
//@ end
}
impl<'t> BinaryExpr<'t> {
//@ fn ast/binary_expr.rs BinaryExpr::finish
//@ sig pub fn finish(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures only(*old(ctx), *final(ctx), Expr::Binary(*old(self))), derived(Expr::Binary(*old(self)), Expr::Binary(*final(self))), final(self).op == old(self).op,
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ opt hoist-guards
//@ closure 1
    -> (r: Option<Type<'t>>) ensures r matches Some(t) ==> t is BuiltIn && *expr is Var
//@ at start
    proof { reveal_with_fuel(asks, 4); reveal_with_fuel(marks, 4); reveal_with_fuel(type_is, 3); reveal_with_fuel(type_named, 3); }
//@ end
}
impl<'t> FunctionCall<'t> {
//@ fn ast/function_call.rs FunctionCall::finish
//@ sig pub fn finish(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures only(*old(ctx), *final(ctx), Expr::FunctionCall(*old(self))), derived(Expr::FunctionCall(*old(self)), Expr::FunctionCall(*final(self))),
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ attr #[verifier::loop_isolation(false)]
//@ opt wild-guards for-index
//@ loop 1
    invariant
        only(*old(ctx), *ctx, Expr::FunctionCall(*old(self))),
        self.name == old(self).name, self.args@.len() == args0.len(),
        forall|j: int| #![trigger args0[j]] #![trigger self.args@[j]] 0 <= j < args0.len() ==> derived(args0[j], self.args@[j]),
        forall|j: int| #![trigger args0[j]] #![trigger self.args@[j]] vx_i1 <= j < args0.len() ==> self.args@[j] == args0[j],
//@ loop 2
    invariant
        only(*old(ctx), *ctx, Expr::FunctionCall(*old(self))),
        self.name == old(self).name, self.args@ == args1,
//@ at loop 2 start
    assert(derived(args0[vx_i2 as int], args1[vx_i2 as int]) && args0[vx_i2 as int] == old(self).args@[vx_i2 as int]);
//@ before `for vx_i1 in`
    let ghost args0 = self.args@;
//@ after `for vx_i1 in`
    let ghost args1 = self.args@;
//@ at start
    proof { str_ext(); }
//@ end
}
impl<'t> TernaryExpr<'t> {
//@ fn ast/ternary_expr.rs TernaryExpr::finish
//@ sig pub fn finish(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures only(*old(ctx), *final(ctx), Expr::Ternary(*old(self))), derived(Expr::Ternary(*old(self)), Expr::Ternary(*final(self))),
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ end
}
impl<'t> Expr<'t> {
    /// Concatenated strings are not looked into.
    #[verifier::external_body]
    pub fn vx_concat_string(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
        ensures final(ctx).arg_types@.len() == old(ctx).arg_types@.len(), *final(self) is ConcatString || *final(self) is Literal,
    { unimplemented!() }
//@ fn ast/expr.rs Expr::is_arg_place
//@ sig pub fn is_arg_place(&self) -> (r: bool)
    ensures r == arg_place(*self),
    decreases *self,
//@ end
//@ fn ast/expr.rs Expr::finish_condition
//@ sig pub fn finish_condition(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures only(*old(ctx), *final(ctx), *old(self)),
        asks(*final(self)) ==> asks(*old(self)),
        forall|i: int, m: MacroArgType<'t>| #[trigger] at(i, m) && marks(*final(self), i, m) ==> marks(*old(self), i, m),
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ at start
    proof { reveal_with_fuel(asks, 4); reveal_with_fuel(marks, 4); reveal_with_fuel(type_is, 3); reveal_with_fuel(type_named, 3); }
//@ end
//@ fn ast/expr.rs Expr::finish
//@ sig pub fn finish(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures only(*old(ctx), *final(ctx), *old(self)), derived(*old(self), *final(self)),
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ arm Self::ConcatString(names) ~> self.vx_concat_string(ctx)
//@ rule LitFloat::Float(-$f) ~> LitFloat::Float(vx_fneg($f))
//@ rule LitFloat::Double(-$f) ~> LitFloat::Double(vx_fneg($f))
//@ rule LitFloat::LongDouble(-$f) ~> LitFloat::LongDouble(vx_fneg($f))
//@ rule *$f == 0.0 ~> vx_fzero($f)
//@ rule (*i == 0).into() ~> vx_bool_i128(*i == 0)
//@ at start
    proof { reveal_with_fuel(asks, 4); reveal_with_fuel(marks, 4); reveal_with_fuel(type_is, 3); reveal_with_fuel(type_named, 3); }
//@ end
}
// ---- statements and declarations -----------------------------------------------------------------------------------

pub open spec fn asm_asks(a: Asm) -> bool {
    ||| global_asm(a.template@)
    ||| exists|k: int| 0 <= k < a.outputs@.len() && asks((#[trigger] a.outputs@[k]).2)
    ||| exists|k: int| 0 <= k < a.inputs@.len() && asks((#[trigger] a.inputs@[k]).1)
}
pub open spec fn asm_marks<'t>(a: Asm<'t>, i: int, m: MacroArgType<'t>) -> bool {
    ||| exists|k: int| 0 <= k < a.outputs@.len() && marks((#[trigger] a.outputs@[k]).2, i, m)
    ||| exists|k: int| 0 <= k < a.inputs@.len() && marks((#[trigger] a.inputs@[k]).1, i, m)
}
pub open spec fn fn_decl_marks<'t>(d: FunctionDecl<'t>, i: int, m: MacroArgType<'t>) -> bool {
    type_marks(d.ret_ty, i, m) || (m is Ident && declared(d.name, i))
        || exists|k: int| 0 <= k < d.args@.len() && (type_marks((#[trigger] d.args@[k]).0, i, m) || (m is Ident && declared(d.args@[k].1, i)))
}
pub open spec fn stmt_asks(s: Statement) -> bool
    decreases s,
{
    match s {
        Statement::Asm(a) => asm_asks(a),
        Statement::Expr(e) => asks(e),
        Statement::FunctionDecl(_) => false,
        Statement::VarDecl(d) => asks(d.rhs),
        Statement::Block(b) => exists|k: int| 0 <= k < b@.len() && stmt_asks(#[trigger] b@[k]),
        Statement::If { condition, if_branch, else_branch } => asks(condition)
            || (exists|k: int| 0 <= k < if_branch@.len() && stmt_asks(#[trigger] if_branch@[k]))
            || (exists|k: int| 0 <= k < else_branch@.len() && stmt_asks(#[trigger] else_branch@[k])),
        Statement::DoWhile { block, condition } => asks(condition)
            || exists|k: int| 0 <= k < block@.len() && stmt_asks(#[trigger] block@[k]),
    }
}
pub open spec fn stmt_marks<'t>(s: Statement<'t>, i: int, m: MacroArgType<'t>) -> bool
    decreases s,
{
    match s {
        Statement::Asm(a) => asm_marks(a, i, m),
        Statement::Expr(e) => marks(e, i, m),
        Statement::FunctionDecl(d) => fn_decl_marks(d, i, m),
        Statement::VarDecl(d) => type_marks(d.ty, i, m) || (m is Ident && declared(d.name, i)) || marks(d.rhs, i, m),
        Statement::Block(b) => exists|k: int| 0 <= k < b@.len() && stmt_marks(#[trigger] b@[k], i, m),
        Statement::If { condition, if_branch, else_branch } => marks(condition, i, m)
            || (exists|k: int| 0 <= k < if_branch@.len() && stmt_marks(#[trigger] if_branch@[k], i, m))
            || (exists|k: int| 0 <= k < else_branch@.len() && stmt_marks(#[trigger] else_branch@[k], i, m)),
        Statement::DoWhile { block, condition } => marks(condition, i, m)
            || exists|k: int| 0 <= k < block@.len() && stmt_marks(#[trigger] block@[k], i, m),
    }
}
/// As `only`, for a statement.
pub open spec fn stmt_only<'t>(a: Ctx<'t>, b: Ctx<'t>, s: Statement<'t>) -> bool {
    &&& b.arg_types@.len() == a.arg_types@.len()
    &&& b.export_as_macro ==> a.export_as_macro || stmt_asks(s)
    &&& forall|i: int| 0 <= i < b.arg_types@.len() ==> at(i, #[trigger] b.arg_types@[i]) && (b.arg_types@[i] == a.arg_types@[i] || stmt_marks(s, i, b.arg_types@[i]))
}
impl<'t> Asm<'t> {
//@ fn ast/asm.rs Asm::finish
//@ sig pub fn finish(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures stmt_only(*old(ctx), *final(ctx), Statement::Asm(*old(self))),
//@ opt for-pat
//@ attr #[verifier::loop_isolation(false)]
//@ loop 1
    invariant
        stmt_only(*old(ctx), *ctx, Statement::Asm(*old(self))),
        it1.seq().len() == old(self).outputs@.len(), forall|j: int| 0 <= j < old(self).outputs@.len() ==> *(#[trigger] it1.seq()[j]) == old(self).outputs@[j],
//@ loop 2
    invariant
        stmt_only(*old(ctx), *ctx, Statement::Asm(*old(self))),
        it2.seq().len() == old(self).inputs@.len(), forall|j: int| 0 <= j < old(self).inputs@.len() ==> *(#[trigger] it2.seq()[j]) == old(self).inputs@[j],
//@ at loop 1 start
    assert(*it1.seq()[it1.index@] == old(self).outputs@[it1.index@]);
//@ at loop 2 start
    assert(*it2.seq()[it2.index@] == old(self).inputs@[it2.index@]);
//@ end
}
impl<'t> VarDecl<'t> {
//@ fn ast/var_decl.rs VarDecl::finish
//@ sig pub fn finish(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures stmt_only(*old(ctx), *final(ctx), Statement::VarDecl(*old(self))),
//@ end
}
impl<'t> FunctionDecl<'t> {
//@ fn ast/function_decl.rs FunctionDecl::finish
//@ opt for-pat
//@ sig pub fn finish(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures stmt_only(*old(ctx), *final(ctx), Statement::FunctionDecl(*old(self))),
//@ attr #[verifier::loop_isolation(false)]
//@ loop 1
    invariant
        stmt_only(*old(ctx), *ctx, Statement::FunctionDecl(*old(self))),
        it1.seq().len() == old(self).args@.len(), forall|j: int| 0 <= j < old(self).args@.len() ==> *(#[trigger] it1.seq()[j]) == old(self).args@[j],
//@ at loop 1 start
    assert(*it1.seq()[it1.index@] == old(self).args@[it1.index@]);
//@ end
}
pub open spec fn if_stmts<'t>(s: Statement<'t>) -> Seq<Statement<'t>> { match s { Statement::If { if_branch, .. } => if_branch@, _ => arbitrary() } }
pub open spec fn else_stmts<'t>(s: Statement<'t>) -> Seq<Statement<'t>> { match s { Statement::If { else_branch, .. } => else_branch@, _ => arbitrary() } }
pub open spec fn block_stmts<'t>(s: Statement<'t>) -> Seq<Statement<'t>> { match s { Statement::Block(b) => b@, Statement::DoWhile { block, .. } => block@, _ => arbitrary() } }
impl<'t> Statement<'t> {
//@ fn ast/statement.rs Statement::finish
//@ opt for-mut
//@ sig pub fn finish(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures stmt_only(*old(ctx), *final(ctx), *old(self)),
    decreases *old(self),
//@ attr #[verifier::loop_isolation(false)]
//@ loop 1
    invariant stmt_only(*old(ctx), *ctx, *old(self)), it1.seq().len() == s0.len(), forall|j: int| 0 <= j < s0.len() ==> *(#[trigger] it1.seq()[j]) == s0[j],
//@ loop 2
    invariant stmt_only(*old(ctx), *ctx, *old(self)), it2.seq().len() == b0.len(), forall|j: int| 0 <= j < b0.len() ==> *(#[trigger] it2.seq()[j]) == b0[j],
//@ loop 3
    invariant stmt_only(*old(ctx), *ctx, *old(self)), it3.seq().len() == e0.len(), forall|j: int| 0 <= j < e0.len() ==> *(#[trigger] it3.seq()[j]) == e0[j],
//@ loop 4
    invariant stmt_only(*old(ctx), *ctx, *old(self)), it4.seq().len() == s0.len(), forall|j: int| 0 <= j < s0.len() ==> *(#[trigger] it4.seq()[j]) == s0[j],
//@ at loop 1 start
    assert(*it1.seq()[it1.index@] == s0[it1.index@]);
//@ at loop 2 start
    assert(*it2.seq()[it2.index@] == b0[it2.index@]);
//@ at loop 3 start
    assert(*it3.seq()[it3.index@] == e0[it3.index@]);
//@ at loop 4 start
    assert(*it4.seq()[it4.index@] == s0[it4.index@]);
//@ at start
    let ghost b0 = if_stmts(*self);
    let ghost e0 = else_stmts(*self);
    let ghost s0 = block_stmts(*self);
//@ end
}
impl<'t> MacroBody<'t> {
//@ fn macro_body.rs MacroBody::finish
//@ sig pub fn finish(&mut self, ctx: &mut Ctx<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures match *old(self) {
        MacroBody::Statement(s) => stmt_only(*old(ctx), *final(ctx), s),
        MacroBody::Expr(e) => only(*old(ctx), *final(ctx), e),
    },
//@ end
}
}
fn main() {}
