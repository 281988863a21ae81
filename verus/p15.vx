//@ # P15: floating-point literals are read with their C value and type.
use vstd::prelude::*;
verus! {
//@ include lex.vxi
use lemmas_lex::*;
//@ include cow.vxi
//@ include lits.vxi
//@ include tokens.vxi
//@ include float.vxi

// ---- generated code

//@ rule $f . classify ( ) ~> $f . vx_classify ( )
//@ rule $f . is_sign_positive ( ) ~> $f . vx_positive ( )
//@ rule proc_macro2 :: Literal :: f32_unsuffixed ( $f ) . to_token_stream ( ) ~> vx_f32_literal ( $f )
//@ rule proc_macro2 :: Literal :: f64_unsuffixed ( $f ) . to_token_stream ( ) ~> vx_f64_literal ( $f )
pub enum FpCategory { Nan, Infinite, Zero, Subnormal, Normal }
pub trait VxFloat: Sized {
    spec fn category(self) -> FpCategory;
    spec fn positive(self) -> bool;
    fn vx_classify(self) -> (r: FpCategory)
        ensures r == self.category();
    fn vx_positive(self) -> (r: bool)
        ensures r == self.positive();
}
//@ for T in f32 f64
pub uninterp spec fn category_@T@(f: @T@) -> FpCategory;
pub uninterp spec fn positive_@T@(f: @T@) -> bool;
impl VxFloat for @T@ {
    open spec fn category(self) -> FpCategory { category_@T@(self) }
    open spec fn positive(self) -> bool { positive_@T@(self) }
    #[verifier::external_body]
    fn vx_classify(self) -> (r: FpCategory) { unimplemented!() }
    #[verifier::external_body]
    fn vx_positive(self) -> (r: bool) { unimplemented!() }
}
//@ endfor
pub open spec fn finite<F: VxFloat>(f: F) -> bool { !(f.category() is Nan) && !(f.category() is Infinite) }
/// (Panics if the number is not finite.)
#[verifier::external_body]
pub fn vx_f32_literal(f: f32) -> (r: TokenStream)
    requires finite(f),
    ensures r@ == seq![TT::F32(f)],
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_f64_literal(f: f64) -> (r: TokenStream)
    requires finite(f),
    ensures r@ == seq![TT::F64(f)],
{ unimplemented!() }
/// The name of a number which has no literal.
pub open spec fn constant_of<F: VxFloat>(f: F) -> Seq<char> {
    if f.category() is Nan { "NAN"@ } else if f.positive() { "INFINITY"@ } else { "NEG_INFINITY"@ }
}
pub open spec fn path(ty: Seq<char>, name: Seq<char>) -> Seq<TT> { seq![TT::Id(ty), TT::P("::"@), TT::Id(name)] }
/// Rust code which denotes the value, where a constant's path may start with a prefix.
pub open spec fn code(l: LitFloat, p: Pfx) -> Seq<TT> {
    match l {
        LitFloat::Float(f) => if finite(f) { seq![TT::F32(f)] } else { prefix_toks(p) + path("f32"@, constant_of(f)) },
        LitFloat::Double(f) | LitFloat::LongDouble(f) => if finite(f) { seq![TT::F64(f)] } else { prefix_toks(p) + path("f64"@, constant_of(f)) },
    }
}
impl LitFloat {
//@ fn ast/literal/float.rs LitFloat::to_tokens
//@ sig pub fn to_tokens(self, ctx: &mut Ctx, tokens: &mut TokenStream)
    ensures exists|p: Pfx| final(tokens)@ == old(tokens)@ + #[trigger] code(self, p),
//@ at end
    proof { assert(tokens@ =~= old(tokens)@ + code(self, trait_prefix)); }
//@ end
}
}
fn main() {}
