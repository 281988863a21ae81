//@ # P02: folded integer constants have the exact arithmetic value.
use vstd::prelude::*;
use vstd::arithmetic::power2::*;
verus! {
//@ include ast.vxi
//@ include tokens.vxi
//@ include clones.vxi

// ---- std -------------------------------------------------------------------------------------------------------

pub open spec fn fits(x: int) -> bool { i128::MIN <= x <= i128::MAX }
/// Division truncating towards zero.
pub open spec fn tdiv(a: int, b: int) -> int
{
    if b == 0 { 0 } else if (a >= 0) == (b > 0) { abs(a) / abs(b) } else { -(abs(a) / abs(b)) }
}
pub open spec fn abs(a: int) -> int { if a < 0 { -a } else { a } }
pub open spec fn trem(a: int, b: int) -> int { a - b * tdiv(a, b) }

pub assume_specification [i128::wrapping_neg] (x: i128) -> (r: i128)
    ensures fits(-x) ==> r == -x;
pub assume_specification [i128::wrapping_div] (x: i128, y: i128) -> (r: i128)
    requires y != 0,
    ensures fits(tdiv(x as int, y as int)) ==> r == tdiv(x as int, y as int);
pub assume_specification [i128::wrapping_rem] (x: i128, y: i128) -> (r: i128)
    requires y != 0,
    ensures r == trem(x as int, y as int);
/// Not used by the code as it is, but by plausible changes of it.
pub open spec fn emod(a: int, b: int) -> int { a - abs(b) * (a / abs(b)) }
pub assume_specification [i128::wrapping_rem_euclid] (x: i128, y: i128) -> (r: i128)
    requires y != 0,
    ensures r == emod(x as int, y as int);
pub assume_specification [i128::wrapping_div_euclid] (x: i128, y: i128) -> (r: i128)
    requires y != 0;
pub assume_specification<T> [Option::<T>::xor] (x: Option<T>, y: Option<T>) -> (r: Option<T>);
#[verifier::external_body]
pub fn vx_bool_i128(b: bool) -> (r: i128) ensures r == (if b { 1int } else { 0int }) { unimplemented!() }
#[verifier::external_body]
pub fn vx_f32_of(x: i128) -> f32 { unimplemented!() }
#[verifier::external_body]
pub fn vx_f64_of(x: i128) -> f64 { unimplemented!() }
#[verifier::external_body]
pub fn vx_fneg<T: Copy>(x: &T) -> T { unimplemented!() }
#[verifier::external_body]
pub fn vx_fzero<T: Copy>(x: &T) -> bool { unimplemented!() }
#[verifier::external_body]
pub fn vx_f32(x: &str) -> f32 { unimplemented!() }
#[verifier::external_body]
pub fn vx_f64(x: &str) -> f64 { unimplemented!() }
#[verifier::external_body]
pub fn vx_string() -> String { unimplemented!() }
//@ rule $s.to_owned() ~> vx_string()
//@ rule $x as f32 ~> vx_f32_of($x)
//@ rule $x as f64 ~> vx_f64_of($x)

// ---- what the folding depends on in the context ------------------------------------------------------------------

//@ item error.rs CodegenError
#[verifier::external_body]
pub struct RustTy { _p: () }
impl Ctx {
    #[verifier::external_body]
    pub fn is_variable_macro(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_export(&mut self) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_set_ident(&mut self, n: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn resolve_field_ty(&self, ty: &str, field: &str) -> Option<RustTy> { unimplemented!() }
}
//@ rule ctx.export_as_macro = true ~> ctx.vx_export()
//@ rule *ctx.arg_type_mut($n) = MacroArgType::Ident ~> ctx.vx_set_ident($n)
//@ rule Type::from_rust_ty(&$t, ctx.ffi_prefix().as_ref()) ~> vx_from_rust_ty(&$t)
#[verifier::external_body]
pub fn vx_from_rust_ty<'t>(t: &RustTy) -> Result<Type<'t>, CodegenError> { unimplemented!() }
impl MacroArg {
    #[verifier::external_body]
    pub fn index(&self) -> usize { unimplemented!() }
}
impl<'t> Identifier<'t> {
    #[verifier::external_body]
    pub fn as_str(&self) -> &str { unimplemented!() }
}
/// These cannot change what kind of expression they are part of.
impl<'t> Var<'t> {
    #[verifier::external_body]
    pub fn finish(&mut self, ctx: &mut Ctx) -> Result<Option<Type<'t>>, CodegenError> { unimplemented!() }
}
impl<'t> IdentifierExpr<'t> {
    #[verifier::external_body]
    pub fn finish(&mut self, ctx: &mut Ctx) -> Result<Option<Type<'t>>, CodegenError> { unimplemented!() }
}
//@ item context.rs MacroArgType Clone PartialEq
impl<'t> PartialEq for MacroArgType<'t> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
#[verifier::external_body]
pub struct FfiPrefix { _p: () }
impl FfiPrefix {
    #[verifier::external_body]
    pub fn as_ref(&self) -> &Self { unimplemented!() }
}
impl Ctx {
    #[verifier::external_body]
    pub fn function(&self, name: &str) -> Option<(Vec<RustTy>, RustTy)> { unimplemented!() }
    #[verifier::external_body]
    pub fn ffi_prefix(&self) -> FfiPrefix { unimplemented!() }
    #[verifier::external_body]
    pub fn arg_type_mut<'t>(&mut self, n: usize) -> (r: &mut MacroArgType<'t>) { unimplemented!() }
}
impl<'t> Type<'t> {
    #[verifier::external_body]
    pub fn from_rust_ty(t: &RustTy, p: &FfiPrefix) -> Result<Type<'t>, CodegenError> { unimplemented!() }
}
impl<'t> Stringify<'t> {
    #[verifier::external_body]
    pub fn finish(&mut self, ctx: &mut Ctx) -> Result<Option<Type<'t>>, CodegenError> { unimplemented!() }
}
impl<'t> Type<'t> {
    #[verifier::external_body]
    pub fn finish(&mut self, ctx: &mut Ctx) -> Result<(), CodegenError> { unimplemented!() }
}
impl<'t> LitString<'t> {
    #[verifier::external_body]
    pub fn finish(&mut self, ctx: &mut Ctx) -> Result<Option<Type<'t>>, CodegenError> { unimplemented!() }
}
impl LitChar {
    #[verifier::external_body]
    pub fn finish<'t>(&mut self, ctx: &mut Ctx) -> (r: Result<Option<Type<'t>>, CodegenError>)
        ensures r matches Ok(t) ==> t is Some,
    { unimplemented!() }
}
impl TypeQualifier {
    #[verifier::external_body]
    pub fn is_const(&self) -> bool { unimplemented!() }
}

// ---- shifts ----

proof fn lemma_shl(x: i128, n: u32)
    requires n < 128, fits(x * pow2(n as nat)),
    ensures (x << n) as int == x * pow2(n as nat),
    decreases n,
{
    if n == 0 {
        assert(x << 0 == x) by (bit_vector);
        lemma2_to64();
    } else {
        lemma_pow2_unfold(n as nat);
        let p = pow2((n - 1) as nat) as int;
        assert(pow2(n as nat) == 2 * p);
        assert(x * pow2(n as nat) == 2 * (x * p)) by (nonlinear_arith) requires pow2(n as nat) == 2 * p;
        let m = (n - 1) as u32;
        lemma_shl(x, m);
        let y = x << m;
        assert(y == x * p);
        assert(x << n == (x << m) << 1u32) by (bit_vector) requires m == n - 1, 0 < n < 128;
        assert((y << 1u32) == y + y) by (bit_vector) requires -0x40000000_00000000_00000000_00000000 <= y < 0x40000000_00000000_00000000_00000000;
    }
}
proof fn lemma_shr(x: i128, n: u32)
    requires n < 128,
    ensures (x >> n) as int == x as int / pow2(n as nat) as int,
    decreases n,
{
    if n == 0 {
        assert(x >> 0u32 == x) by (bit_vector);
        lemma2_to64();
        assert(pow2(0) == 1);
        assert(x as int / 1 == x as int);
    } else {
        lemma_pow2_unfold(n as nat);
        lemma_pow2_pos((n - 1) as nat);
        let p = pow2((n - 1) as nat) as int;
        let m = (n - 1) as u32;
        lemma_shr(x, m);
        let y = x >> m;
        assert(x >> n == (x >> m) >> 1u32) by (bit_vector) requires m == n - 1, 0 < n < 128;
        assert((y >> 1u32) == y as int / 2) by (bit_vector);
        let z = y as int / 2;
        let s = y as int % 2;
        let r = x as int % p;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x as int, p);
        assert(0 <= r < p) by (nonlinear_arith) requires r == x as int % p, p > 0;
        assert(x == (2 * p) * z + (p * s + r)) by (nonlinear_arith) requires x == p * y + r, y == 2 * z + s;
        assert(0 <= p * s + r < 2 * p) by (nonlinear_arith) requires 0 <= r < p, s == 0 || s == 1;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x as int, 2 * p, z, p * s + r);
        assert(x as int / (2 * p) == z);
        assert(x >> n == y >> 1u32);
        assert((x >> n) as int == z);
        assert(pow2(n as nat) as int == 2 * p);
    }
}

// ---- integer arithmetic ------------------------------------------------------------------------------------------

impl vstd::std_specs::ops::AddSpecImpl<LitInt> for LitInt {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: LitInt) -> bool { true }
    open spec fn add_spec(self, o: LitInt) -> LitInt { arbitrary() }
}
impl core::ops::Add for LitInt {
    type Output = Self;
//@ fn ast/literal/int.rs <LitInt as Add>::add
//@ sig fn add(self, other: Self) -> (r: Self)
    ensures fits(self.value + other.value) ==> r.value == self.value + other.value,
//@ end
}
impl vstd::std_specs::ops::SubSpecImpl<LitInt> for LitInt {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: LitInt) -> bool { true }
    open spec fn sub_spec(self, o: LitInt) -> LitInt { arbitrary() }
}
impl core::ops::Sub for LitInt {
    type Output = Self;
//@ fn ast/literal/int.rs <LitInt as Sub>::sub
//@ sig fn sub(self, other: Self) -> (r: Self)
    ensures fits(self.value - other.value) ==> r.value == self.value - other.value,
//@ end
}
impl vstd::std_specs::ops::MulSpecImpl<LitInt> for LitInt {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: LitInt) -> bool { true }
    open spec fn mul_spec(self, o: LitInt) -> LitInt { arbitrary() }
}
impl core::ops::Mul for LitInt {
    type Output = Self;
//@ fn ast/literal/int.rs <LitInt as Mul>::mul
//@ sig fn mul(self, other: Self) -> (r: Self)
    ensures fits(self.value * other.value) ==> r.value == self.value * other.value,
//@ end
}
impl vstd::std_specs::ops::DivSpecImpl<LitInt> for LitInt {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, o: LitInt) -> bool { o.value != 0 }
    open spec fn div_spec(self, o: LitInt) -> LitInt { arbitrary() }
}
impl core::ops::Div for LitInt {
    type Output = Self;
//@ fn ast/literal/int.rs <LitInt as Div>::div
//@ sig fn div(self, other: Self) -> (r: Self)
    ensures fits(tdiv(self.value as int, other.value as int)) ==> r.value == tdiv(self.value as int, other.value as int),
//@ end
}
impl vstd::std_specs::ops::RemSpecImpl<LitInt> for LitInt {
    open spec fn obeys_rem_spec() -> bool { false }
    open spec fn rem_req(self, o: LitInt) -> bool { o.value != 0 }
    open spec fn rem_spec(self, o: LitInt) -> LitInt { arbitrary() }
}
impl core::ops::Rem for LitInt {
    type Output = Self;
//@ fn ast/literal/int.rs <LitInt as Rem>::rem
//@ sig fn rem(self, other: Self) -> (r: Self)
    ensures r.value == trem(self.value as int, other.value as int),
//@ end
}
impl vstd::std_specs::ops::ShlSpecImpl<LitInt> for LitInt {
    open spec fn obeys_shl_spec() -> bool { false }
    open spec fn shl_req(self, o: LitInt) -> bool { true }
    open spec fn shl_spec(self, o: LitInt) -> LitInt { arbitrary() }
}
impl core::ops::Shl<LitInt> for LitInt {
    type Output = Self;
//@ fn ast/literal/int.rs <LitInt as Shl>::shl
//@ sig fn shl(self, other: Self) -> (r: Self)
    ensures 0 <= other.value < 128 && fits(self.value * pow2(other.value as nat)) ==> r.value == self.value * pow2(other.value as nat),
//@ rule $x.min($y) ~> vx_min($x, $y)
//@ at start
    proof { if 0 <= other.value < 128 && fits(self.value * pow2(other.value as nat)) { lemma_shl(self.value, other.value as u32); } }
//@ end
}
impl vstd::std_specs::ops::ShrSpecImpl<LitInt> for LitInt {
    open spec fn obeys_shr_spec() -> bool { false }
    open spec fn shr_req(self, o: LitInt) -> bool { true }
    open spec fn shr_spec(self, o: LitInt) -> LitInt { arbitrary() }
}
impl core::ops::Shr<LitInt> for LitInt {
    type Output = Self;
//@ fn ast/literal/int.rs <LitInt as Shr>::shr
//@ sig fn shr(self, other: Self) -> (r: Self)
    ensures 0 <= other.value < 128 ==> r.value == (self.value as int) / (pow2(other.value as nat) as int),
//@ rule $x.min($y) ~> vx_min($x, $y)
//@ at start
    proof { if 0 <= other.value < 128 { lemma_shr(self.value, other.value as u32); } }
//@ end
}
fn vx_min(x: i128, y: i128) -> (r: i128) ensures r == (if x <= y { x } else { y }) { if x <= y { x } else { y } }
impl vstd::std_specs::ops::BitAndSpecImpl<LitInt> for LitInt {
    open spec fn obeys_bitand_spec() -> bool { false }
    open spec fn bitand_req(self, o: LitInt) -> bool { true }
    open spec fn bitand_spec(self, o: LitInt) -> LitInt { arbitrary() }
}
impl core::ops::BitAnd for LitInt {
    type Output = Self;
//@ fn ast/literal/int.rs <LitInt as BitAnd>::bitand
//@ sig fn bitand(self, other: Self) -> (r: Self)
    ensures r.value == self.value & other.value,
//@ end
}
impl vstd::std_specs::ops::BitOrSpecImpl<LitInt> for LitInt {
    open spec fn obeys_bitor_spec() -> bool { false }
    open spec fn bitor_req(self, o: LitInt) -> bool { true }
    open spec fn bitor_spec(self, o: LitInt) -> LitInt { arbitrary() }
}
impl core::ops::BitOr for LitInt {
    type Output = Self;
//@ fn ast/literal/int.rs <LitInt as BitOr>::bitor
//@ sig fn bitor(self, other: Self) -> (r: Self)
    ensures r.value == self.value | other.value,
//@ end
}
impl vstd::std_specs::ops::BitXorSpecImpl<LitInt> for LitInt {
    open spec fn obeys_bitxor_spec() -> bool { false }
    open spec fn bitxor_req(self, o: LitInt) -> bool { true }
    open spec fn bitxor_spec(self, o: LitInt) -> LitInt { arbitrary() }
}
impl core::ops::BitXor for LitInt {
    type Output = Self;
//@ fn ast/literal/int.rs <LitInt as BitXor>::bitxor
//@ sig fn bitxor(self, other: Self) -> (r: Self)
    ensures r.value == self.value ^ other.value,
//@ end
}
// Floating-point arithmetic is left abstract.
impl vstd::std_specs::ops::AddSpecImpl<LitFloat> for LitFloat {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: LitFloat) -> bool { true }
    open spec fn add_spec(self, o: LitFloat) -> LitFloat { arbitrary() }
}
impl core::ops::Add for LitFloat { type Output = Self; #[verifier::external_body] fn add(self, other: Self) -> Self { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<LitFloat> for LitFloat {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: LitFloat) -> bool { true }
    open spec fn sub_spec(self, o: LitFloat) -> LitFloat { arbitrary() }
}
impl core::ops::Sub for LitFloat { type Output = Self; #[verifier::external_body] fn sub(self, other: Self) -> Self { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<LitFloat> for LitFloat {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: LitFloat) -> bool { true }
    open spec fn mul_spec(self, o: LitFloat) -> LitFloat { arbitrary() }
}
impl core::ops::Mul for LitFloat { type Output = Self; #[verifier::external_body] fn mul(self, other: Self) -> Self { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<LitFloat> for LitFloat {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, o: LitFloat) -> bool { true }
    open spec fn div_spec(self, o: LitFloat) -> LitFloat { arbitrary() }
}
impl core::ops::Div for LitFloat { type Output = Self; #[verifier::external_body] fn div(self, other: Self) -> Self { unimplemented!() } }

// ---- the value of an expression ----------------------------------------------------------------------------------

pub enum Ev {
    /// Nothing is said about it (an intermediate result does not fit).
    Any,
    /// Must not become an integer literal (not made of integer literals, or a division by zero).
    Never,
    Val(int),
}
pub open spec fn val(x: int) -> Ev { if fits(x) { Ev::Val(x) } else { Ev::Any } }
pub open spec fn truth(b: bool) -> Ev { Ev::Val(if b { 1 } else { 0 }) }

pub open spec fn ev_un(op: UnaryOp, a: Ev) -> Ev {
    match op {
        UnaryOp::Plus => a,
        UnaryOp::Minus => match a { Ev::Val(x) => val(-x), a => a },
        UnaryOp::Comp => match a { Ev::Val(x) => val(-x - 1), a => a },
        UnaryOp::Not => match a { Ev::Val(x) => truth(x == 0), a => a },
        _ => Ev::Never,
    }
}
pub open spec fn ev_bin(op: BinaryOp, x: int, y: int) -> Ev {
    match op {
        BinaryOp::Add => val(x + y),
        BinaryOp::Sub => val(x - y),
        BinaryOp::Mul => val(x * y),
        BinaryOp::Div => if y == 0 { Ev::Never } else { val(tdiv(x, y)) },
        BinaryOp::Rem => if y == 0 { Ev::Never } else { val(trem(x, y)) },
        BinaryOp::Shl => if 0 <= y < 128 { val(x * pow2(y as nat)) } else { Ev::Any },
        BinaryOp::Shr => if 0 <= y < 128 { val(x / (pow2(y as nat) as int)) } else { Ev::Any },
        BinaryOp::BitAnd => Ev::Val(((x as i128) & (y as i128)) as int),
        BinaryOp::BitOr => Ev::Val(((x as i128) | (y as i128)) as int),
        BinaryOp::BitXor => Ev::Val(((x as i128) ^ (y as i128)) as int),
        BinaryOp::Eq => truth(x == y),
        BinaryOp::Neq => truth(x != y),
        BinaryOp::Lt => truth(x < y),
        BinaryOp::Lte => truth(x <= y),
        BinaryOp::Gt => truth(x > y),
        BinaryOp::Gte => truth(x >= y),
        BinaryOp::And => truth(x != 0 && y != 0),
        BinaryOp::Or => truth(x != 0 || y != 0),
        _ => Ev::Never,
    }
}
pub open spec fn ev(e: Expr) -> Ev
    decreases e,
{
    match e {
        Expr::Literal(Lit::Int(l)) => Ev::Val(l.value as int),
        // `!` of a number which is not an integer is one
        Expr::Unary(u) => if u.op is Not && is_float(*u.expr) { Ev::Any } else { ev_un(u.op, ev(*u.expr)) },
        Expr::Binary(b) => match (ev(*b.lhs), ev(*b.rhs)) {
            (Ev::Never, _) | (_, Ev::Never) => Ev::Never,
            (Ev::Val(x), Ev::Val(y)) => ev_bin(b.op, x, y),
            _ => Ev::Any,
        },
        Expr::ConcatString(_) => Ev::Any,
        _ => Ev::Never,
    }
}
/// May become a floating-point literal.
pub open spec fn is_float(e: Expr) -> bool
    decreases e,
{
    match e {
        Expr::Literal(Lit::Float(_)) => true,
        Expr::Unary(u) => is_float(*u.expr),
        Expr::Binary(b) => is_float(*b.lhs) || is_float(*b.rhs),
        Expr::ConcatString(_) => true,
        _ => false,
    }
}
/// `f` is what `e` is folded to.
pub open spec fn folded<'t>(e: Expr<'t>, f: Expr<'t>) -> bool
    decreases e,
{
    &&& f matches Expr::Literal(Lit::Int(l)) ==> match ev(e) { Ev::Any => true, Ev::Never => false, Ev::Val(v) => l.value == v }
    &&& f matches Expr::Literal(Lit::Float(l)) ==> is_float(e)
    &&& match (e, f) {
        (Expr::Literal(Lit::Int(_)), _) => f == e,
        (Expr::Unary(u), Expr::Unary(w)) => w.op == u.op && folded(*u.expr, *w.expr),
        (Expr::Unary(u), Expr::Binary(w)) => u.op is Not && w.op is Eq && folded(*u.expr, *w.lhs) && is_zero(*w.rhs),
        (Expr::Binary(b), Expr::Binary(c)) => b.op == c.op
            && (folded(*b.lhs, *c.lhs) || floated(*b.lhs, *b.rhs, *c.lhs) || (*c.lhs matches Expr::Cast(w) && folded(*b.lhs, *w.expr)))
            && (folded(*b.rhs, *c.rhs) || floated(*b.rhs, *b.lhs, *c.rhs) || (*c.rhs matches Expr::Cast(w) && folded(*b.rhs, *w.expr))),
        (Expr::Literal(Lit::Float(_)), _) => f == e,
        (Expr::Literal(Lit::String(_)), _) => f matches Expr::Literal(Lit::String(_)),
        (Expr::Unary(_), _) => f matches Expr::Literal(Lit::Int(_)) || f matches Expr::Literal(Lit::Float(_)),
        (Expr::Binary(_), _) => f matches Expr::Literal(Lit::Int(_)) || f matches Expr::Literal(Lit::Float(_)),
        (Expr::Cast(a), Expr::Cast(b)) => folded(*a.expr, *b.expr),
        (Expr::Ternary(a), Expr::Ternary(b)) => folded(*a.if_branch, *b.if_branch) && folded(*a.else_branch, *b.else_branch)
            && (folded(*a.condition, *b.condition)
                || (*b.condition matches Expr::Binary(w) && w.op is Neq && folded(*a.condition, *w.lhs) && is_zero(*w.rhs))),
        (Expr::FunctionCall(a), Expr::FunctionCall(b)) => all_folded(a, b),
        (Expr::FunctionCall(_), _) => false,
        // `(T) (x) * (T) y` is a multiplication if `x` is no type
        (Expr::Cast(_), _) => f is Binary || f matches Expr::Literal(Lit::String(_)),
        (Expr::Ternary(_), _) => false,
        _ => true,
    }
}
pub open spec fn all_folded<'t>(a: FunctionCall<'t>, b: FunctionCall<'t>) -> bool
    decreases a,
{
    a.args.len() == b.args.len() && forall|i: int| 0 <= i < a.args.len() ==> folded(a.args[i], #[trigger] b.args[i])
}
pub open spec fn is_zero(e: Expr) -> bool {
    match e { Expr::Literal(Lit::Int(l)) => l.value == 0, Expr::Literal(Lit::Float(_)) => true, _ => false }
}
/// An integer beside a floating-point number.
pub open spec fn floated(e: Expr, other: Expr, f: Expr) -> bool {
    f matches Expr::Literal(Lit::Float(_)) && is_float(other) && ev(e) !is Never
}

impl LitInt {
//@ fn ast/literal/int.rs LitInt::finish
//@ sig pub fn finish<'t>(&mut self, ctx: &mut Ctx) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures *final(self) == *old(self),
//@ end
//@ fn ast/literal/int.rs LitInt::to_tokens
//@ sig pub fn to_tokens(self, _ctx: &mut Ctx, tokens: &mut TokenStream)
    ensures final(tokens)@ == old(tokens)@ + seq![TT::Num(self.value as int, ""@)],
//@ rule i.to_tokens(tokens) ~> tokens.vx_append(&i)
//@ end
}
impl LitFloat {
//@ fn ast/literal/float.rs LitFloat::finish
//@ sig pub fn finish<'t>(&mut self, ctx: &mut Ctx) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures *final(self) == *old(self),
//@ end
}
impl<'t> Lit<'t> {
//@ fn ast/literal.rs Lit::finish
//@ sig pub fn finish(&mut self, ctx: &mut Ctx) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures
        *old(self) is Int ==> *final(self) == *old(self),
        (*final(self) is Int) == (*old(self) is Int),
        *old(self) is Float ==> *final(self) == *old(self),
        (*final(self) is Float) == (*old(self) is Float),
        (*final(self) is String) == (*old(self) is String),
        (*final(self) is Char) == (*old(self) is Char),
        *old(self) is Char ==> (r matches Ok(t) ==> t is Some),
//@ end
}
impl<'t> Cast<'t> {
//@ fn ast/cast.rs Cast::finish
//@ sig pub fn finish(&mut self, ctx: &mut Ctx) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures r is Ok ==> folded(*old(self).expr, *final(self).expr),
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ end
}
/// A parameter of the macro, or a member of one.
pub open spec fn arg_place(e: Expr) -> bool
    decreases e,
{
    match e {
        Expr::Var(v) => v.name is Arg,
        Expr::Binary(b) => b.op is MemberAccess && arg_place(*b.lhs),
        _ => false,
    }
}
impl<'t> UnaryExpr<'t> {
//@ fn ast/unary_expr.rs UnaryExpr::finish
//@ sig pub fn finish(&mut self, ctx: &mut Ctx) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures
        final(self).op == old(self).op,
        r is Ok ==> folded(*old(self).expr, *final(self).expr),
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ end
}
impl BinaryOp {
//@ fn ast/binary_expr.rs BinaryOp::is_assignment
//@ end
}
impl<'t> BinaryExpr<'t> {
//@ fn ast/binary_expr.rs BinaryExpr::finish
//@ sig pub fn finish(&mut self, ctx: &mut Ctx) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures
        r is Ok ==> final(self).op == old(self).op,
        r is Ok ==> folded(*old(self).lhs, *final(self).lhs) || floated(*old(self).lhs, *old(self).rhs, *final(self).lhs)
            || (*final(self).lhs matches Expr::Cast(w) && folded(*old(self).lhs, *w.expr)),
        r is Ok ==> folded(*old(self).rhs, *final(self).rhs) || floated(*old(self).rhs, *old(self).lhs, *final(self).rhs)
            || (*final(self).rhs matches Expr::Cast(w) && folded(*old(self).rhs, *w.expr)),
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ opt hoist-guards
//@ end
}
impl<'t> FunctionCall<'t> {
//@ fn ast/function_call.rs FunctionCall::finish
//@ sig pub fn finish(&mut self, ctx: &mut Ctx) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures r is Ok ==> folded(Expr::FunctionCall(*old(self)), Expr::FunctionCall(*final(self))),
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ attr #[verifier::loop_isolation(false)]
//@ opt wild-guards
//@ loop 1
    invariant forall|j: int| 0 <= j < it1.index@ ==> folded(*it1.seq()[j], *final(#[trigger] it1.seq()[j])),
//@ loop 2
    invariant
        it2.seq().len() == args1.len(), after_borrow(self.args).len() == args1.len(),
        forall|j: int| 0 <= j < it2.index@ ==> *final((#[trigger] it2.seq()[j]).0) == *it2.seq()[j].0,
        forall|j: int| 0 <= j < it2.seq().len() ==> *(#[trigger] it2.seq()[j]).0 == args1[j],
        forall|j: int| 0 <= j < it2.index@ ==> #[trigger] after_borrow(self.args)[j] == args1[j],
//@ after `for arg in`
    proof { assert(self.args.len() == old(self).args.len()); assert(all_folded(*old(self), *self)); }
    let ghost args1 = self.args@;
//@ after `for (arg, known_arg_type)`
    proof { assert(self.args@ =~= args1); assert(all_folded(*old(self), *self)); }
//@ at end
    proof { assert(self.args@ =~= args1); assert(all_folded(*old(self), *self)); assert(folded(Expr::FunctionCall(*old(self)), Expr::FunctionCall(*self))); }
//@ end
}
impl<'t> TernaryExpr<'t> {
//@ fn ast/ternary_expr.rs TernaryExpr::finish
//@ sig pub fn finish(&mut self, ctx: &mut Ctx) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures r is Ok ==> folded(Expr::Ternary(*old(self)), Expr::Ternary(*final(self))),
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ end
}
impl<'t> Expr<'t> {
    #[verifier::external_body]
    pub fn vx_concat_string(&mut self, ctx: &mut Ctx) -> (r: Result<Option<Type<'t>>, CodegenError>)
        ensures r is Ok ==> folded(*old(self), *final(self)),
    { unimplemented!() }

//@ fn ast/expr.rs Expr::is_arg_place
//@ sig pub fn is_arg_place(&self) -> (r: bool)
    ensures r == arg_place(*self),
    decreases *self,
//@ end
//@ fn ast/expr.rs Expr::finish_condition
//@ sig pub fn finish_condition(&mut self, ctx: &mut Ctx) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures r is Ok ==> folded(*old(self), *final(self))
        || (*final(self) matches Expr::Binary(w) && w.op is Neq && folded(*old(self), *w.lhs) && is_zero(*w.rhs)),
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ end

//@ fn ast/expr.rs Expr::finish
//@ sig pub fn finish(&mut self, ctx: &mut Ctx) -> (r: Result<Option<Type<'t>>, CodegenError>)
    ensures r is Ok ==> folded(*old(self), *final(self)),
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ arm Self::ConcatString(names) ~> self.vx_concat_string(ctx)
//@ rule LitFloat::Float(-$f) ~> LitFloat::Float(vx_fneg($f))
//@ rule LitFloat::Double(-$f) ~> LitFloat::Double(vx_fneg($f))
//@ rule LitFloat::LongDouble(-$f) ~> LitFloat::LongDouble(vx_fneg($f))
//@ rule *$f == 0.0 ~> vx_fzero($f)
//@ rule (*i == 0).into() ~> vx_bool_i128(*i == 0)
//@ before `return self.finish(ctx)`
proof { reveal_with_fuel(ev, 3); reveal_with_fuel(is_float, 3); assert(ev(*self) is Never); assert(!is_float(*self)); }
//@ end
}
}
fn main() {}
