//@ # P14: an integer that is cast is generated in a type that can hold it.
use vstd::prelude::*;
verus! {
//@ include ast.vxi
//@ include tokens.vxi

//@ # What is said about sub-expressions and types: nothing but that they have some code.
pub uninterp spec fn expr_code(e: Expr, s: Seq<TT>) -> bool;
pub uninterp spec fn type_code(t: Type, s: Seq<TT>) -> bool;
impl<'t> Expr<'t> {
    #[verifier::external_body]
    pub fn to_token_stream(&self, ctx: &mut Ctx) -> (r: TokenStream)
        ensures expr_code(*self, r@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn precedence(&self) -> (u8, Associativity) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_block(&self) -> bool { unimplemented!() }
}
impl<'t> Type<'t> {
    #[verifier::external_body]
    pub fn to_token_stream(&self, ctx: &mut Ctx) -> (r: TokenStream)
        ensures type_code(*self, r@),
    { unimplemented!() }

    pub open spec fn void(self) -> bool { self == Type::<'t>::BuiltIn(BuiltInType::Void) }

//@ fn ast/ty.rs Type::is_void
    ensures r == self.void(),
//@ end
}
impl TypeQualifier {
    pub open spec fn konst(self) -> bool { self is Const || self is ConstVolatile }
//@ fn ast/ty.rs TypeQualifier::is_const
    ensures r == self.konst(),
//@ end
}

/// The smallest suffix whose type contains the value.
pub open spec fn smallest(v: int) -> Seq<char> {
    if v < i64::MIN { "i128"@ }
    else if v < i32::MIN { "i64"@ }
    else if v < i16::MIN { "i32"@ }
    else if v < i8::MIN { "i16"@ }
    else if v < 0 { "i8"@ }
    else if v <= u8::MAX { "u8"@ }
    else if v <= u16::MAX { "u16"@ }
    else if v <= u32::MAX { "u32"@ }
    else if v <= u64::MAX { "u64"@ }
    else { "i128"@ }
}

/// A pointer type, and whether it is `const`.
pub open spec fn pointer(t: Type) -> Option<bool> {
    match t {
        Type::Ptr { .. } => Some(false),
        Type::Qualified { ty, qualifier } if *ty is Ptr => Some(qualifier.konst()),
        _ => None,
    }
}

/// `<prefix>ptr::null()` or `<prefix>ptr::null_mut()`
pub open spec fn null_code(k: bool, s: Seq<TT>) -> bool {
    exists|p: Pfx| s =~= prefix_toks(p) + seq![TT::Id("ptr"@), TT::P("::"@), TT::Id(if k { "null"@ } else { "null_mut"@ }), TT::G("("@, Seq::empty())]
}

/// The code for a cast of the integer `v` to `t`.
pub open spec fn int_cast_code(t: Type, v: int, s: Seq<TT>) -> bool {
    ||| v == 0 && pointer(t) is Some && null_code(pointer(t)->0, s)
    ||| exists|ts: Seq<TT>| type_code(t, ts) && s =~= seq![TT::Num(v, smallest(v)), TT::Id("as"@)] + ts
}

impl<'t> Cast<'t> {
    #[verifier::external_body]
    pub fn precedence(&self) -> (u8, Associativity) { unimplemented!() }

//@ fn ast/cast.rs Cast::to_tokens
//@ sig pub fn to_tokens(&self, ctx: &mut Ctx, tokens: &mut TokenStream)
    ensures
        old(tokens)@.is_prefix_of(final(tokens)@),
        forall|lit: LitInt| *self.expr == Expr::<'t>::Literal(Lit::Int(lit)) && !self.ty.void() ==>
            int_cast_code(self.ty, lit.value as int, #[trigger] final(tokens)@.skip(old(tokens)@.len() as int)),
//@ end
}
}
fn main() {}
