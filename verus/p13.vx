//@ # P13: generated Rust expressions keep the structure of the C expression.
use vstd::prelude::*;
verus! {
//@ include ast.vxi
//@ include tokens.vxi

// ---- context and leaves -------------------------------------------------------------------------------------------

/// A path which the context gives for an enum variant.
#[verifier::external_body]
pub struct RustExpr { _p: () }
impl RustExpr { pub uninterp spec fn code(&self) -> Seq<TT>; }
impl VxToTokens for RustExpr {
    open spec fn tt(&self) -> Seq<TT> { self.code() }
    #[verifier::external_body]
    fn vx_tt(&self, tokens: &mut TokenStream) { unimplemented!() }
}
#[verifier::external_body]
pub struct RustTy { _p: () }
impl Ctx {
    #[verifier::external_body]
    pub fn resolve_enum_variant(&self, variant: &str) -> Option<(RustTy, RustExpr)> { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_str_eq(a: &str, b: &str) -> (r: bool)
    ensures r == (a@ =~= b@),
{ unimplemented!() }
//@ rule $a == "__FILE__" ~> vx_str_eq($a, "__FILE__")
//@ rule $a == "__LINE__" ~> vx_str_eq($a, "__LINE__")
impl<'t> Identifier<'t> {
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str)
        ensures r@ == self.id@,
    { unimplemented!() }
}
pub uninterp spec fn type_code(t: Type, s: Seq<TT>) -> bool;
pub uninterp spec fn name_code(n: IdentifierExpr, s: Seq<TT>) -> bool;
impl<'t> Type<'t> {
    #[verifier::external_body]
    pub fn to_token_stream(&self, ctx: &mut Ctx) -> (r: TokenStream)
        ensures type_code(*self, r@),
    { unimplemented!() }
    pub open spec fn void(self) -> bool { self == Type::<'t>::BuiltIn(BuiltInType::Void) }
//@ fn ast/ty.rs Type::is_void
    ensures r == self.void(),
//@ end
}
impl BuiltInType {
    #[verifier::external_body]
    pub fn to_token_stream(self, ctx: &mut Ctx) -> (r: TokenStream)
        ensures type_code(Type::BuiltIn(self), r@),
    { unimplemented!() }
}
impl TypeQualifier {
    pub open spec fn konst(self) -> bool { self is Const || self is ConstVolatile }
    pub open spec fn vol(self) -> bool { self is Volatile || self is ConstVolatile }
//@ fn ast/ty.rs TypeQualifier::is_const
    ensures r == self.konst(),
//@ end
//@ fn ast/ty.rs TypeQualifier::is_volatile
    ensures r == self.vol(),
//@ end
}
impl<'t> IdentifierExpr<'t> {
    #[verifier::external_body]
    pub fn to_token_stream(&self, ctx: &mut Ctx) -> (r: TokenStream)
        ensures name_code(*self, r@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_tokens(&self, ctx: &mut Ctx, tokens: &mut TokenStream)
        ensures code_pushed(old(tokens)@, final(tokens)@), name_code(*self, pushed(old(tokens)@, final(tokens)@)),
    { unimplemented!() }
}

use lemmas::{pushed, code_pushed};
pub mod lemmas {
use super::*;
pub open spec fn pushed(a: Seq<TT>, b: Seq<TT>) -> Seq<TT> { b.skip(a.len() as int) }
pub open spec fn code_pushed(a: Seq<TT>, b: Seq<TT>) -> bool { a.is_prefix_of(b) }
pub broadcast proof fn lemma_pushed(a: Seq<TT>, b: Seq<TT>)
    ensures #[trigger] pushed(a, a + b) =~= b,
{
}
pub broadcast proof fn lemma_pushed_prefix(a: Seq<TT>, b: Seq<TT>)
    ensures #[trigger] code_pushed(a, a + b),
{
    assert((a + b).subrange(0, a.len() as int) =~= a);
}
pub broadcast proof fn lemma_assoc(a: Seq<TT>, b: Seq<TT>, c: Seq<TT>)
    ensures #[trigger] (a + (b + c)) == (a + b) + c,
{
    assert(a + (b + c) =~= (a + b) + c);
}
pub broadcast proof fn lemma_empty_l(a: Seq<TT>)
    ensures #[trigger] (Seq::<TT>::empty() + a) == a,
{
    assert(Seq::<TT>::empty() + a =~= a);
}
pub broadcast proof fn lemma_empty_r(a: Seq<TT>)
    ensures #[trigger] (a + Seq::<TT>::empty()) == a,
{
    assert(a + Seq::<TT>::empty() =~= a);
}
pub broadcast proof fn lemma_push(a: Seq<TT>, x: TT)
    ensures #[trigger] a.push(x) == a + seq![x],
{
    assert(a.push(x) =~= a + seq![x]);
}
pub broadcast proof fn lemma_pushed0(b: Seq<TT>)
    ensures #[trigger] pushed(Seq::empty(), b) =~= b,
{
}
}

// ---- Rust's expression grammar -------------------------------------------------------------------------------------

pub open spec fn id(s: Seq<char>) -> TT { TT::Id(s) }
pub open spec fn p(s: Seq<char>) -> TT { TT::P(s) }
pub open spec fn paren(s: Seq<TT>) -> TT { TT::G("("@, s) }
pub open spec fn brace(s: Seq<TT>) -> TT { TT::G("{"@, s) }

pub open spec fn assigns(op: BinaryOp) -> bool {
    op is Assign || op is AddAssign || op is SubAssign || op is MulAssign || op is DivAssign || op is RemAssign || op is ShlAssign
        || op is ShrAssign || op is BitAndAssign || op is BitXorAssign || op is BitOrAssign
}
/// The operator of a compound assignment.
pub open spec fn compound(op: BinaryOp) -> Option<BinaryOp> {
    match op {
        BinaryOp::AddAssign => Some(BinaryOp::Add),
        BinaryOp::SubAssign => Some(BinaryOp::Sub),
        BinaryOp::MulAssign => Some(BinaryOp::Mul),
        BinaryOp::DivAssign => Some(BinaryOp::Div),
        BinaryOp::RemAssign => Some(BinaryOp::Rem),
        BinaryOp::ShlAssign => Some(BinaryOp::Shl),
        BinaryOp::ShrAssign => Some(BinaryOp::Shr),
        BinaryOp::BitAndAssign => Some(BinaryOp::BitAnd),
        BinaryOp::BitXorAssign => Some(BinaryOp::BitXor),
        BinaryOp::BitOrAssign => Some(BinaryOp::BitOr),
        _ => None,
    }
}
/// A single `{ … }`.
pub open spec fn is_block_group(s: Seq<TT>) -> bool {
    s.len() == 1 && match s[0] { TT::G(d, _) => d == "{"@, _ => false }
}
pub open spec fn operator(op: BinaryOp) -> bool { !assigns(op) }
pub open spec fn simple_assignment(op: BinaryOp) -> bool { op is Assign }
pub open spec fn compound_assignment(op: BinaryOp) -> bool { assigns(op) && !(op is Assign) }
/// Rust's spelling of an operator.
pub open spec fn sym(op: BinaryOp) -> Seq<char> {
    match op {
        BinaryOp::Mul => "*"@,
        BinaryOp::Div => "/"@,
        BinaryOp::Rem => "%"@,
        BinaryOp::Add => "+"@,
        BinaryOp::Sub => "-"@,
        BinaryOp::Shl => "<<"@,
        BinaryOp::Shr => ">>"@,
        BinaryOp::Lt => "<"@,
        BinaryOp::Gt => ">"@,
        BinaryOp::Lte => "<="@,
        BinaryOp::Gte => ">="@,
        BinaryOp::Eq => "=="@,
        BinaryOp::Neq => "!="@,
        BinaryOp::BitAnd => "&"@,
        BinaryOp::BitXor => "^"@,
        BinaryOp::BitOr => "|"@,
        BinaryOp::And => "&&"@,
        BinaryOp::Or => "||"@,
        BinaryOp::Assign => "="@,
        BinaryOp::AddAssign => "+="@,
        BinaryOp::SubAssign => "-="@,
        BinaryOp::MulAssign => "*="@,
        BinaryOp::DivAssign => "/="@,
        BinaryOp::RemAssign => "%="@,
        BinaryOp::ShlAssign => "<<="@,
        BinaryOp::ShrAssign => ">>="@,
        BinaryOp::BitAndAssign => "&="@,
        BinaryOp::BitXorAssign => "^="@,
        BinaryOp::BitOrAssign => "|="@,
        BinaryOp::MemberAccess => "."@,
    }
}
/// Rust's precedence of binary operators, smaller numbers bind closer: 0 for atoms and blocks, 1 for calls and
/// member accesses, 2 for prefix operators, 3 for `as`.
pub open spec fn oplev(op: BinaryOp) -> int {
    match op {
        BinaryOp::MemberAccess => 1,
        BinaryOp::Mul | BinaryOp::Div | BinaryOp::Rem => 5,
        BinaryOp::Add | BinaryOp::Sub => 6,
        BinaryOp::Shl | BinaryOp::Shr => 7,
        BinaryOp::BitAnd => 8,
        BinaryOp::BitXor => 9,
        BinaryOp::BitOr => 10,
        BinaryOp::Eq | BinaryOp::Neq | BinaryOp::Lt | BinaryOp::Gt | BinaryOp::Lte | BinaryOp::Gte => 11,
        BinaryOp::And => 12,
        BinaryOp::Or => 13,
        _ => 14,
    }
}
/// Comparisons cannot be chained, the other operators are left-associative.
pub open spec fn max_left(op: BinaryOp) -> int { if oplev(op) == 11 { 10 } else { oplev(op) } }
pub open spec fn max_right(op: BinaryOp) -> int { oplev(op) - 1 }

pub open spec fn line_var(v: Var) -> bool { v.name matches IdentifierExpr::Plain(n) && n.id@ == "__LINE__"@ }
pub open spec fn file_var(v: Var) -> bool { v.name matches IdentifierExpr::Plain(n) && n.id@ == "__FILE__"@ }

/// The level at which the code of an expression is derived at most, except for negative numbers.
pub open spec fn prec(e: Expr) -> int {
    match e {
        Expr::Literal(_) => 0,
        Expr::Var(v) => if line_var(v) { 3 } else { 0 },
        Expr::FunctionCall(_) => 1,
        Expr::Stringify(_) | Expr::ConcatString(_) => 3,
        Expr::Cast(_) => 3,
        Expr::Unary(u) => unprec(u.op),
        Expr::Binary(b) => oplev(b.op),
        Expr::Ternary(_) => 0,
        Expr::SizeOf(_) => 3,
    }
}
pub open spec fn unprec(op: UnaryOp) -> int {
    match op {
        UnaryOp::PostInc | UnaryOp::PostDec => 1,
        UnaryOp::AddrOf => 0,
        _ => 2,
    }
}
pub open spec fn lev(e: Expr) -> int {
    match e {
        Expr::Literal(Lit::Int(_)) | Expr::Literal(Lit::Float(_)) => 2,
        _ => prec(e),
    }
}
pub open spec fn at_most(e: Expr, n: int) -> bool { lev(e) <= n }
/// Whether the code may end with a type, after which `<` would begin type parameters.
pub open spec fn ends_ty(e: Expr) -> bool
    decreases e,
{
    match e {
        Expr::Cast(_) | Expr::SizeOf(_) => true,
        Expr::Var(v) => line_var(v),
        Expr::Binary(b) => prec(*b.rhs) < oplev(b.op) && !assigns(b.op) && ends_ty(*b.rhs),
        _ => false,
    }
}
/// Whether the code may begin with a block that would be a statement of its own.
pub open spec fn block(e: Expr) -> bool
    decreases e,
{
    match e {
        Expr::Var(v) => file_var(v),
        Expr::Literal(Lit::String(_)) | Expr::Stringify(_) | Expr::ConcatString(_) => true,
        Expr::Cast(c) => c.ty.void(),
        Expr::Unary(u) => match u.op {
            UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec => true,
            UnaryOp::Plus => block(*u.expr),
            _ => false,
        },
        Expr::Binary(b) => assigns(b.op),
        Expr::Ternary(_) => true,
        _ => false,
    }
}

/// What C allows to be assigned to.
pub open spec fn place(e: Expr) -> bool {
    match e {
        Expr::Var(v) => !line_var(v) && !file_var(v),
        Expr::Unary(u) => u.op is Deref,
        Expr::Binary(b) => b.op is MemberAccess,
        _ => false,
    }
}
pub open spec fn number(e: Expr) -> bool { e matches Expr::Literal(Lit::Int(_)) || e matches Expr::Literal(Lit::Float(_)) }
/// What C allows: only places are assigned to, numbers have no members, and pointer arithmetic begins with no number.
pub open spec fn ok(e: Expr) -> bool
    decreases e,
{
    match e {
        Expr::Cast(c) => ok(*c.expr),
        Expr::Unary(u) => ok(*u.expr) && match u.op {
            UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec => place(*u.expr) && match *u.expr {
                Expr::Unary(w) => ok(*w.expr),
                _ => true,
            },
            UnaryOp::Deref => match *u.expr {
                Expr::Binary(b) => ok(*b.lhs) && ok(*b.rhs) && !number(*b.lhs),
                Expr::Unary(w) => ok(*w.expr) && (incdec(w.op) ==> place(*w.expr)),
                _ => true,
            },
            _ => true,
        },
        Expr::Binary(b) => ok(*b.lhs) && ok(*b.rhs)
            && (assigns(b.op) ==> place(*b.lhs) && match *b.lhs {
                Expr::Unary(u) => ok(*u.expr),
                _ => true,
            })
            && (b.op is MemberAccess ==> !number(*b.lhs) && *b.rhs is Var && prec(*b.rhs) == 0),
        Expr::Ternary(t) => ok(*t.condition) && ok(*t.if_branch) && ok(*t.else_branch),
        _ => true,
    }
}

/// The pointer behind `*(volatile T *) p`.
pub open spec fn volatile(e: Expr) -> bool {
    match e {
        Expr::Unary(u) => u.op is Deref && vol_ptr(*u.expr),
        _ => false,
    }
}
pub open spec fn vol_ptr(e: Expr) -> bool {
    match e {
        Expr::Cast(c) => match c.ty {
            Type::Ptr { ty } => match *ty { Type::Qualified { ty: _, qualifier } => qualifier.vol(), _ => false },
            _ => false,
        },
        _ => false,
    }
}

/// `<n> as <ty>`
pub open spec fn num_as(n: int, ty: Seq<TT>, s: Seq<TT>) -> bool {
    s.len() > 0 && s == seq![s[0]] + seq![id("as"@)] + ty && match s[0] { TT::Num(m, _) => m == n, _ => false }
}
/// `<prefix>ptr::<name>(<args>)`
pub open spec fn ptr_call(x: Pfx, name: Seq<char>, args: Seq<TT>) -> Seq<TT> {
    prefix_toks(x) + (seq![id("ptr"@)] + seq![p("::"@)] + seq![id(name)] + seq![paren(args)])
}
/// `{ let value = <value>; <prefix>ptr::write_volatile(<ptr>, <stored>); value }`
pub open spec fn vol_write(x: Pfx, value: Seq<TT>, ptr: Seq<TT>, stored: Seq<TT>) -> Seq<TT> {
    seq![brace((seq![id("let"@)] + seq![id("value"@)] + seq![p("="@)]) + value + seq![p(";"@)] + ptr_call(x, "write_volatile"@, ptr + seq![p(","@)] + stored)
        + (seq![p(";"@)] + seq![id("value"@)]))]
}
pub open spec fn one() -> TT { TT::L("1"@) }
/// A pair of operands around `op`.
pub open spec fn bin(op: BinaryOp, l: Seq<TT>, r: Seq<TT>) -> Seq<TT> { l + seq![p(sym(op))] + r }

/// `s` is `i` or `(i)`, and may be without parentheses only if `bare`.
pub open spec fn opnd(i: Seq<TT>, bare: bool, s: Seq<TT>) -> bool { s == seq![paren(i)] || bare && s == i }

/// Both operands of a binary operator; `l` and `r` is the code of the operands.
pub open spec fn bin_shape(b: BinaryExpr, l: Seq<TT>, r: Seq<TT>, s: Seq<TT>) -> bool {
    let bl = lev(*b.lhs) <= max_left(b.op) && !((b.op is Lt || b.op is Shl) && ends_ty(*b.lhs)) && (block(*b.lhs) ==> b.op is MemberAccess);
    let br = lev(*b.rhs) <= max_right(b.op);
    ||| s == bin(b.op, seq![paren(l)], seq![paren(r)])
    ||| bl && s == bin(b.op, l, seq![paren(r)])
    ||| br && s == bin(b.op, seq![paren(l)], r)
    ||| bl && br && s == bin(b.op, l, r)
}
pub open spec fn assign_shape(b: BinaryExpr, l: Seq<TT>, r: Seq<TT>, s: Seq<TT>) -> bool {
    s == seq![brace(bin(b.op, l, r) + seq![p(";"@)] + l)]
}
/// A volatile assignment; `ptr` is the code of the pointer.
pub open spec fn vol_assign_shape(b: BinaryExpr, ptr: Seq<TT>, r: Seq<TT>, s: Seq<TT>) -> bool {
    match compound(b.op) {
        None => exists|x: Pfx| (#[trigger] prefix_toks(x)).len() >= 0 && s == vol_write(x, r, ptr, seq![id("value"@)]),
        Some(op) => exists|x: Pfx, y: Pfx| (#[trigger] prefix_toks(x)).len() >= 0 && (#[trigger] prefix_toks(y)).len() >= 0 && {
            ||| s == vol_write(x, bin(op, ptr_call(y, "read_volatile"@, ptr), seq![paren(r)]), ptr, seq![id("value"@)])
            ||| lev(*b.rhs) <= max_right(op) && s == vol_write(x, bin(op, ptr_call(y, "read_volatile"@, ptr), r), ptr, seq![id("value"@)])
        },
    }
}
/// `++x`, `--x`, `x++`, `x--` for a volatile place.
pub open spec fn vol_inc_shape(op: UnaryOp, ptr: Seq<TT>, s: Seq<TT>) -> bool {
    let o = if op is Inc || op is PostInc { BinaryOp::Add } else { BinaryOp::Sub };
    exists|x: Pfx, y: Pfx| (#[trigger] prefix_toks(x)).len() >= 0 && (#[trigger] prefix_toks(y)).len() >= 0 && if op is Inc || op is Dec {
        s == vol_write(x, bin(o, ptr_call(y, "read_volatile"@, ptr), seq![one()]), ptr, seq![id("value"@)])
    } else {
        s == vol_write(x, ptr_call(y, "read_volatile"@, ptr), ptr, bin(o, seq![id("value"@)], seq![one()]))
    }
}
pub open spec fn inc_shape(op: UnaryOp, x: Seq<TT>, s: Seq<TT>) -> bool {
    let o = if op is Inc || op is PostInc { BinaryOp::AddAssign } else { BinaryOp::SubAssign };
    if op is Inc || op is Dec {
        s == seq![brace(bin(o, x, seq![one()]) + seq![p(";"@)] + x)]
    } else {
        s == seq![brace((seq![id("let"@)] + seq![id("prev"@)] + seq![p("="@)]) + x + seq![p(";"@)] + bin(o, x, seq![one()]) + (seq![p(";"@)] + seq![id("prev"@)]))]
    }
}
pub open spec fn method(recv: Seq<TT>, name: Seq<char>, args: Seq<TT>) -> Seq<TT> { recv + (seq![p("."@)] + seq![id(name)] + seq![paren(args)]) }
/// `*{ x = x.add(1); x }` etc.; `x` is the code of the pointer.
pub open spec fn ptr_inc_shape(w: UnaryExpr, x: Seq<TT>, s: Seq<TT>) -> bool {
    let name = if w.op is Inc || w.op is PostInc { "add"@ } else { "sub"@ };
    ||| ptr_inc_with(w.op, x, seq![paren(x)], name, s)
    ||| lev(*w.expr) <= 1 && ptr_inc_with(w.op, x, x, name, s)
}
pub open spec fn ptr_inc_with(op: UnaryOp, x: Seq<TT>, r: Seq<TT>, name: Seq<char>, s: Seq<TT>) -> bool {
    if op is Inc || op is Dec {
        s == (seq![p("*"@)] + seq![brace(x + seq![p("="@)] + method(r, name, seq![one()]) + seq![p(";"@)] + x)])
    } else {
        s == (seq![p("*"@)] + seq![brace((seq![id("let"@)] + seq![id("prev"@)] + seq![p("="@)]) + x + seq![p(";"@)] + x + seq![p("="@)] + method(r, name, seq![one()])
            + (seq![p(";"@)] + seq![id("prev"@)]))])
    }
}
pub open spec fn incdec(op: UnaryOp) -> bool { op is Inc || op is Dec || op is PostInc || op is PostDec }
/// `*lhs.add(rhs)`
pub open spec fn ptr_add_shape(b: BinaryExpr, l: Seq<TT>, r: Seq<TT>, s: Seq<TT>) -> bool {
    let name = if b.op is Add { "add"@ } else { "sub"@ };
    ||| lev(*b.lhs) <= 1 && s == seq![p("*"@)] + method(l, name, r)
    ||| s == seq![p("*"@)] + method(seq![paren(l)], name, r)
}

/// Marks the code generated for an expression, for the instantiation of quantifiers.
pub open spec fn wit(e: Expr, s: Seq<TT>) -> bool { true }
/// `s` is Rust code for the C expression `e`.
pub open spec fn code(e: Expr, s: Seq<TT>) -> bool
    decreases e,
{
    match e {
        Expr::Var(v) => var_code(v, s),
        Expr::FunctionCall(c) => call_code(c, s),
        Expr::Literal(Lit::Int(i)) => s == seq![TT::Num(i.value as int, ""@)],
        Expr::Literal(Lit::String(_)) | Expr::Stringify(_) | Expr::ConcatString(_) => is_block_group(s),
        Expr::Literal(l) => lit_code(l, s),
        Expr::SizeOf(ty) => exists|x: Pfx, ts: Seq<TT>, us: Seq<TT>|
            #[trigger] type_code(ty, ts) && #[trigger] type_code(Type::BuiltIn(BuiltInType::SizeT), us) && s == #[trigger] prefix_toks(x)
                + (seq![id("mem"@)] + seq![p("::"@)] + seq![id("size_of"@)] + seq![p("::<"@)]) + ts + (seq![p(">"@)] + seq![paren(Seq::empty())] + seq![id("as"@)]) + us,
        Expr::Cast(c) => if c.ty.void() {
            exists|i: Seq<TT>| #[trigger] wit(*c.expr, i) && code(*c.expr, i) && s == seq![brace((seq![id("let"@)] + seq![id("_"@)] + seq![p("="@)]) + i + seq![p(";"@)])]
        } else {
            match *c.expr {
                Expr::Literal(Lit::Int(v)) => {
                    ||| exists|x: Pfx| v.value == 0 && (#[trigger] prefix_toks(x)).len() >= 0 && (s == ptr_call(x, "null"@, Seq::empty()) || s == ptr_call(x, "null_mut"@, Seq::empty()))
                    ||| exists|ts: Seq<TT>| #[trigger] type_code(c.ty, ts) && num_as(v.value as int, ts, s)
                },
                _ => exists|i: Seq<TT>, ts: Seq<TT>| #[trigger] wit(*c.expr, i) && code(*c.expr, i) && #[trigger] type_code(c.ty, ts) && {
                    ||| s == (seq![paren(i)] + seq![id("as"@)]) + ts
                    ||| lev(*c.expr) <= 3 && !block(*c.expr) && s == i + seq![id("as"@)] + ts
                },
            }
        },
        Expr::Ternary(t) => exists|c: Seq<TT>, a: Seq<TT>, b: Seq<TT>|
            #[trigger] wit(*t.condition, c) && code(*t.condition, c) && #[trigger] wit(*t.if_branch, a) && code(*t.if_branch, a) && #[trigger] wit(*t.else_branch, b) && code(*t.else_branch, b)
                && s == seq![id("if"@)] + c + (seq![brace(a)] + seq![id("else"@)] + seq![brace(b)]),
        Expr::Binary(b) => if !assigns(b.op) {
            exists|l: Seq<TT>, r: Seq<TT>| #[trigger] wit(*b.lhs, l) && code(*b.lhs, l) && #[trigger] wit(*b.rhs, r) && code(*b.rhs, r) && bin_shape(b, l, r, s)
        } else {
            match *b.lhs {
                Expr::Unary(w) if volatile(*b.lhs) => exists|q: Seq<TT>, r: Seq<TT>|
                    #[trigger] wit(*w.expr, q) && code(*w.expr, q) && #[trigger] wit(*b.rhs, r) && code(*b.rhs, r) && vol_assign_shape(b, q, r, s),
                _ => exists|l: Seq<TT>, r: Seq<TT>|
                    #[trigger] wit(*b.lhs, l) && code(*b.lhs, l) && #[trigger] wit(*b.rhs, r) && code(*b.rhs, r) && assign_shape(b, l, r, s),
            }
        },
        Expr::Unary(u) => match u.op {
            UnaryOp::Plus => exists|i: Seq<TT>| #[trigger] wit(*u.expr, i) && code(*u.expr, i) && opnd(i, lev(*u.expr) <= 2, s),
            UnaryOp::Minus => exists|i: Seq<TT>| #[trigger] wit(*u.expr, i) && code(*u.expr, i) && prefixed("-"@, i, lev(*u.expr) <= 2, s),
            UnaryOp::Not | UnaryOp::Comp => exists|i: Seq<TT>| #[trigger] wit(*u.expr, i) && code(*u.expr, i) && prefixed("!"@, i, lev(*u.expr) <= 2, s),
            UnaryOp::AddrOf => exists|i: Seq<TT>, x: Pfx| #[trigger] wit(*u.expr, i) && code(*u.expr, i)
                && s == #[trigger] prefix_toks(x) + (seq![id("ptr"@)] + seq![p("::"@)] + seq![id("addr_of_mut"@)] + seq![p("!"@)] + seq![paren(i)]),
            UnaryOp::Deref => match *u.expr {
                Expr::Binary(b) if b.op is Add || b.op is Sub => exists|l: Seq<TT>, r: Seq<TT>|
                    #[trigger] wit(*b.lhs, l) && code(*b.lhs, l) && #[trigger] wit(*b.rhs, r) && code(*b.rhs, r) && ptr_add_shape(b, l, r, s),
                Expr::Unary(w) if incdec(w.op) => exists|i: Seq<TT>| #[trigger] wit(*w.expr, i) && code(*w.expr, i) && ptr_inc_shape(w, i, s),
                _ => if vol_ptr(*u.expr) {
                    exists|i: Seq<TT>, x: Pfx| #[trigger] wit(*u.expr, i) && code(*u.expr, i) && (#[trigger] prefix_toks(x)).len() >= 0 && s == ptr_call(x, "read_volatile"@, i)
                } else {
                    exists|i: Seq<TT>| #[trigger] wit(*u.expr, i) && code(*u.expr, i) && prefixed("*"@, i, lev(*u.expr) <= 2, s)
                },
            },
            _ => match *u.expr {
                Expr::Unary(w) if volatile(*u.expr) => exists|q: Seq<TT>| #[trigger] wit(*w.expr, q) && code(*w.expr, q) && vol_inc_shape(u.op, q, s),
                _ => exists|i: Seq<TT>| #[trigger] wit(*u.expr, i) && code(*u.expr, i) && inc_shape(u.op, i, s),
            },
        },
    }
}
pub open spec fn prefixed(op: Seq<char>, i: Seq<TT>, bare: bool, s: Seq<TT>) -> bool {
    s == (seq![p(op)] + seq![paren(i)]) || bare && s == seq![p(op)] + i
}
pub uninterp spec fn call_code(c: FunctionCall, s: Seq<TT>) -> bool;
pub uninterp spec fn lit_code(l: Lit, s: Seq<TT>) -> bool;
pub open spec fn var_code(v: Var, s: Seq<TT>) -> bool {
    if line_var(v) {
        exists|x: Pfx, y: Pfx| s == #[trigger] prefix_toks(x) + (seq![id("line"@)] + seq![p("!"@)] + seq![paren(Seq::empty())] + seq![id("as"@)]) + #[trigger] prefix_toks(y) + seq![id("c_uint"@)]
    } else if file_var(v) {
        is_block_group(s)
    } else {
        // an atom
        true
    }
}

// ---- the code generator --------------------------------------------------------------------------------------------

broadcast use {lemmas::lemma_assoc, lemmas::lemma_empty_l, lemmas::lemma_empty_r, lemmas::lemma_push, lemmas::lemma_pushed, lemmas::lemma_pushed_prefix, lemmas::lemma_pushed0};

impl<'t> Var<'t> {
//@ fn ast/var.rs Var::precedence
//@ sig pub fn precedence(&self) -> (r: (u8, Associativity))
    ensures r.0 == prec(Expr::Var(*self)),
//@ end
//@ fn ast/var.rs Var::is_cast
    ensures r == line_var(*self),
//@ end
//@ fn ast/var.rs Var::is_block
    ensures r == file_var(*self),
//@ end
    #[verifier::external_body]
    pub fn to_tokens(&self, ctx: &mut Ctx, tokens: &mut TokenStream)
        ensures code_pushed(old(tokens)@, final(tokens)@), code(Expr::Var(*self), pushed(old(tokens)@, final(tokens)@)),
    { unimplemented!() }
}
impl<'t> FunctionCall<'t> {
    #[verifier::external_body]
    pub fn to_tokens(&self, ctx: &mut Ctx, tokens: &mut TokenStream)
        ensures code_pushed(old(tokens)@, final(tokens)@), code(Expr::FunctionCall(*self), pushed(old(tokens)@, final(tokens)@)),
    { unimplemented!() }
}
impl<'t> Stringify<'t> {
    #[verifier::external_body]
    pub fn to_tokens(&self, ctx: &mut Ctx, tokens: &mut TokenStream)
        ensures code_pushed(old(tokens)@, final(tokens)@), code(Expr::Stringify(*self), pushed(old(tokens)@, final(tokens)@)),
    { unimplemented!() }
}
impl<'t> Lit<'t> {
    #[verifier::external_body]
    pub fn to_tokens(&self, ctx: &mut Ctx, tokens: &mut TokenStream)
        ensures code_pushed(old(tokens)@, final(tokens)@), code(Expr::Literal(*self), pushed(old(tokens)@, final(tokens)@)),
    { unimplemented!() }
}
impl UnaryOp {
//@ fn ast/unary_expr.rs UnaryOp::precedence
//@ sig pub fn precedence(&self) -> (r: (u8, Associativity))
    ensures r.0 == unprec(*self),
//@ end
}
impl BinaryOp {
//@ fn ast/binary_expr.rs BinaryOp::precedence
//@ sig pub fn precedence(&self) -> (r: (u8, Associativity))
    ensures
        r.0 == oplev(*self),
        oplev(*self) == 14 ==> r.1 is Right,
        oplev(*self) == 11 ==> r.1 is None,
        oplev(*self) != 14 && oplev(*self) != 11 ==> r.1 is Left,
//@ end
//@ fn ast/binary_expr.rs BinaryOp::compound_op
//@ sig pub fn compound_op(&self) -> (r: Option<BinaryOp>)
    ensures r == compound(*self),
//@ end
//@ fn ast/binary_expr.rs BinaryOp::is_assignment
    ensures r == assigns(*self),
//@ end
}
impl VxToTokens for BinaryOp {
    open spec fn tt(&self) -> Seq<TT> { seq![p(sym(*self))] }
//@ fn ast/binary_expr.rs <BinaryOp as ToTokens>::to_tokens as vx_tt
//@ sig fn vx_tt(&self, tokens: &mut TokenStream)
//@ end
}
impl<'t> Cast<'t> {
//@ fn ast/cast.rs Cast::precedence
//@ sig pub fn precedence(&self) -> (r: (u8, Associativity))
    ensures r.0 == 3,
//@ end
//@ fn ast/cast.rs Cast::to_tokens
//@ sig pub fn to_tokens(&self, ctx: &mut Ctx, tokens: &mut TokenStream)
    ensures
        code_pushed(old(tokens)@, final(tokens)@),
        ok(Expr::Cast(*self)) ==> code(Expr::Cast(*self), pushed(old(tokens)@, final(tokens)@)),
//@ spec
    decreases self, 0int,
//@ end
}
impl<'t> UnaryExpr<'t> {
//@ fn ast/unary_expr.rs UnaryExpr::precedence
//@ sig pub fn precedence(&self) -> (r: (u8, Associativity))
    ensures r.0 == unprec(self.op),
//@ end
//@ fn ast/unary_expr.rs UnaryExpr::to_tokens
//@ sig pub fn to_tokens(&self, ctx: &mut Ctx, tokens: &mut TokenStream)
    ensures
        code_pushed(old(tokens)@, final(tokens)@),
        ok(Expr::Unary(*self)) ==> code(Expr::Unary(*self), pushed(old(tokens)@, final(tokens)@)),
//@ spec
    decreases self, 2int,
//@ end
    /// One case of `to_token_stream` per operator, all of them are the same code.
//@ for OP in PostInc PostDec Inc Dec Plus Minus Not Comp Deref AddrOf
//@ fn ast/unary_expr.rs UnaryExpr::to_token_stream as case_@OP@
//@ sig pub fn case_@OP@(&self, ctx: &mut Ctx) -> (r: TokenStream)
    requires self.op is @OP@,
    ensures
        wit(Expr::Unary(*self), r@),
        ok(Expr::Unary(*self)) ==> code(Expr::Unary(*self), r@),
//@ spec
    decreases self, 0int,
//@ attr #[verifier::spinoff_prover]
//@ end
//@ endfor
    pub fn to_token_stream(&self, ctx: &mut Ctx) -> (r: TokenStream)
        ensures
            wit(Expr::Unary(*self), r@),
            ok(Expr::Unary(*self)) ==> code(Expr::Unary(*self), r@),
        decreases self, 1int,
    {
        match self.op {
//@ for OP in PostInc PostDec Inc Dec Plus Minus Not Comp Deref AddrOf
            UnaryOp::@OP@ => self.case_@OP@(ctx),
//@ endfor
        }
    }
}
impl<'t> BinaryExpr<'t> {
//@ fn ast/binary_expr.rs BinaryExpr::precedence
//@ sig pub fn precedence(&self) -> (r: (u8, Associativity))
    ensures
        r.0 == oplev(self.op),
        oplev(self.op) == 14 ==> r.1 is Right,
        oplev(self.op) == 11 ==> r.1 is None,
        oplev(self.op) != 14 && oplev(self.op) != 11 ==> r.1 is Left,
//@ end
//@ fn ast/binary_expr.rs BinaryExpr::ends_with_cast
    ensures ends_ty(Expr::Binary(*self)) ==> r,
//@ spec
    decreases self, 0int,
//@ end
//@ fn ast/binary_expr.rs BinaryExpr::to_tokens
//@ sig pub fn to_tokens(&self, ctx: &mut Ctx, tokens: &mut TokenStream)
    ensures
        code_pushed(old(tokens)@, final(tokens)@),
        ok(Expr::Binary(*self)) ==> code(Expr::Binary(*self), pushed(old(tokens)@, final(tokens)@)),
//@ spec
    decreases self, 2int,
//@ end
    // One case of `to_token_stream` per kind of operator and operand, all of them are the same code.
//@ for CASE in operator simple_assignment compound_assignment
//@ fn ast/binary_expr.rs BinaryExpr::to_token_stream as case_@CASE@
//@ sig pub fn case_@CASE@(&self, ctx: &mut Ctx) -> (r: TokenStream)
    requires @CASE@(self.op),
    ensures
        wit(Expr::Binary(*self), r@),
        ok(Expr::Binary(*self)) ==> code(Expr::Binary(*self), r@),
//@ spec
    decreases self, 0int,
//@ attr #[verifier::spinoff_prover]
//@ end
//@ endfor
    pub fn to_token_stream(&self, ctx: &mut Ctx) -> (r: TokenStream)
        ensures
            wit(Expr::Binary(*self), r@),
            ok(Expr::Binary(*self)) ==> code(Expr::Binary(*self), r@),
        decreases self, 1int,
    {
        if !self.op.is_assignment() {
            self.case_operator(ctx)
        } else if self.op.compound_op().is_none() {
            self.case_simple_assignment(ctx)
        } else {
            self.case_compound_assignment(ctx)
        }
    }
}
impl<'t> TernaryExpr<'t> {
//@ fn ast/ternary_expr.rs TernaryExpr::to_tokens
//@ sig pub fn to_tokens(&self, ctx: &mut Ctx, tokens: &mut TokenStream)
    ensures
        code_pushed(old(tokens)@, final(tokens)@),
        ok(Expr::Ternary(*self)) ==> code(Expr::Ternary(*self), pushed(old(tokens)@, final(tokens)@)),
//@ spec
    decreases self, 0int,
//@ end
}
impl<'t> Expr<'t> {
//@ fn ast/expr.rs Expr::precedence
//@ sig pub fn precedence(&self) -> (r: (u8, Associativity))
    ensures r.0 == prec(*self),
//@ end
//@ fn ast/expr.rs Expr::ends_with_cast
    ensures ends_ty(*self) ==> r,
//@ spec
    decreases self, 1int,
//@ end
//@ fn ast/expr.rs Expr::is_block
    ensures block(*self) ==> r,
//@ spec
    decreases self, 0int,
//@ end
    #[verifier::external_body]
    pub fn vx_concat_string(&self, ctx: &mut Ctx, tokens: &mut TokenStream)
        ensures code_pushed(old(tokens)@, final(tokens)@), code(*self, pushed(old(tokens)@, final(tokens)@)),
    { unimplemented!() }
//@ fn ast/expr.rs Expr::to_tokens
//@ sig pub fn to_tokens(&self, ctx: &mut Ctx, tokens: &mut TokenStream)
    ensures
        code_pushed(old(tokens)@, final(tokens)@),
        ok(*self) ==> code(*self, pushed(old(tokens)@, final(tokens)@)),
//@ spec
    decreases self, 0int,
//@ arm Self::ConcatString(ref names) ~> self.vx_concat_string(ctx, tokens)
//@ end
//@ fn ast/expr.rs Expr::to_token_stream
//@ sig pub fn to_token_stream(&self, ctx: &mut Ctx) -> (r: TokenStream)
    ensures
        wit(*self, r@),
        ok(*self) ==> code(*self, r@),
//@ spec
    decreases self, 1int,
//@ end
}
}
fn main() {}
