//@ # P18: a macro becomes a function exactly when its types are known, and the fragments of a macro's parameters.
use vstd::prelude::*;
verus! {
//@ include ast.vxi
//@ include tokens.vxi
//@ include clones.vxi
/// `asm` statements are not looked into.
#[verifier::external_body]
pub struct Asm<'t> { _s: std::marker::PhantomData<&'t u8> }
//@ item ast/function_decl.rs FunctionDecl
//@ item ast/var_decl.rs VarDecl
//@ item ast/statement.rs Statement
//@ item error.rs CodegenError
//@ item macro_body.rs MacroBody
//@ item fn_macro.rs FnMacro
//@ item var_macro.rs VarMacro
//@ item context.rs MacroArgType Clone
impl<'t> Clone for MacroArgType<'t> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

// ---- the context ---------------------------------------------------------------------------------------------------

#[verifier::external_body]
pub struct RustTy { _p: () }
#[verifier::external_body]
pub struct FfiPrefix { _p: () }
impl FfiPrefix {
    #[verifier::external_body]
    pub fn as_ref(&self) -> &Self { unimplemented!() }
}
/// The C type for a Rust type.
pub uninterp spec fn c_type<'t>(t: RustTy) -> Result<Type<'t>, CodegenError>;
impl<'t> Type<'t> {
    #[verifier::external_body]
    pub fn from_rust_ty(t: &RustTy, p: &FfiPrefix) -> (r: Result<Type<'t>, CodegenError>)
        ensures r == c_type::<'t>(*t),
    { unimplemented!() }
}
/// What the user says: the types of parameters and the functions of C.
#[verifier::external_body]
pub struct Cx { _p: () }
pub uninterp spec fn param_ty(cx: Cx, name: Seq<char>, param: Seq<char>) -> Option<RustTy>;
pub uninterp spec fn c_function(cx: Cx, name: Seq<char>) -> bool;
impl Cx {
    #[verifier::external_body]
    pub fn macro_arg_ty(&self, name: &str, param: &str) -> (r: Option<RustTy>)
        ensures r == param_ty(*self, name@, param@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn ffi_prefix(&self) -> FfiPrefix { unimplemented!() }
}
/// `LocalContext`, without what is not used here.
pub struct LocalContext<'t> {
    pub arg_names: Vec<String>,
    pub arg_types: Vec<MacroArgType<'t>>,
    pub export_as_macro: bool,
    pub is_variable_macro: bool,
    pub cx: Ghost<Cx>,
}
impl<'t> LocalContext<'t> {
    #[verifier::external_body]
    pub fn new(cx: &Cx) -> (r: Self)
        ensures !r.export_as_macro, !r.is_variable_macro, r.cx@ == *cx, r.arg_names@ == Seq::<String>::empty(), r.arg_types@ == Seq::<MacroArgType<'t>>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn function(&self, name: &str) -> (r: Option<(Vec<RustTy>, RustTy)>)
        ensures (r is Some) == c_function(self.cx@, name@),
    { unimplemented!() }
//@ fn context.rs LocalContext::is_variadic
    ensures r == variadic(self.arg_names@),
//@ rule self.arg_names.last().map(|s| s.as_str()) == Some("...") ~> vx_last_is(&self.arg_names, "...")
//@ end
    /// An index out of range is a panic.
    #[verifier::external_body]
    pub fn arg_type(&self, index: usize) -> (r: &MacroArgType<'t>)
        ensures index < self.arg_types@.len(), *r == self.arg_types@[index as int],
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_last_is(v: &Vec<String>, s: &str) -> (r: bool)
    ensures r == (v@.len() > 0 && v@.last()@ == s@),
{ unimplemented!() }
/// The last parameter is `...`.
pub open spec fn variadic(names: Seq<String>) -> bool { names.len() > 0 && names.last()@ == "..."@ }

// ---- what the parts of a macro become ------------------------------------------------------------------------------

/// What `finish` makes of the body, given the parameters' types: see `p18`.
pub struct Outcome<'t> {
    pub body: MacroBody<'t>,
    /// Can the body be generated in a macro only?
    pub export: bool,
    pub types: Seq<MacroArgType<'t>>,
    pub ret: Option<Type<'t>>,
}
pub uninterp spec fn outcome<'t>(body: MacroBody<'t>, cx: Cx, var: bool, names: Seq<String>, types: Seq<MacroArgType<'t>>) -> Result<Outcome<'t>, CodegenError>;
/// The code of the body.
pub uninterp spec fn body_code(b: MacroBody, x: LocalContext, t: Seq<TT>) -> bool;
pub uninterp spec fn type_code(e: Type, x: LocalContext, t: Seq<TT>) -> bool;
impl<'t> MacroBody<'t> {
    #[verifier::external_body]
    pub fn finish(&mut self, ctx: &mut LocalContext<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
        ensures
            final(ctx).arg_names == old(ctx).arg_names, final(ctx).cx == old(ctx).cx,
            !old(ctx).export_as_macro ==> match outcome(*old(self), old(ctx).cx@, old(ctx).is_variable_macro, old(ctx).arg_names@, old(ctx).arg_types@) {
                Ok(x) => r == Ok::<Option<Type<'t>>, CodegenError>(x.ret) && *final(self) == x.body && final(ctx).export_as_macro == x.export && final(ctx).arg_types@ == x.types
                    && x.types.len() == old(ctx).arg_types@.len(),
                Err(e) => r == Err::<Option<Type<'t>>, CodegenError>(e),
            },
    { unimplemented!() }
}
impl<'t> Expr<'t> {
    #[verifier::external_body]
    pub fn finish(&mut self, ctx: &mut LocalContext<'t>) -> (r: Result<Option<Type<'t>>, CodegenError>)
        ensures
            final(ctx).arg_names == old(ctx).arg_names, final(ctx).cx == old(ctx).cx,
            !old(ctx).export_as_macro ==> match outcome(MacroBody::Expr(*old(self)), old(ctx).cx@, old(ctx).is_variable_macro, old(ctx).arg_names@, old(ctx).arg_types@) {
                Ok(x) => r == Ok::<Option<Type<'t>>, CodegenError>(x.ret) && MacroBody::Expr(*final(self)) == x.body && final(ctx).export_as_macro == x.export && final(ctx).arg_types@ == x.types,
                Err(e) => r == Err::<Option<Type<'t>>, CodegenError>(e),
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_tokens(&self, ctx: &mut LocalContext<'t>, tokens: &mut TokenStream)
        ensures *final(ctx) == *old(ctx), old(tokens)@.is_prefix_of(final(tokens)@), body_code(MacroBody::Expr(*self), *old(ctx), final(tokens)@.skip(old(tokens)@.len() as int)),
    { unimplemented!() }
}
impl<'t> Statement<'t> {
    #[verifier::external_body]
    pub fn to_tokens(&self, ctx: &mut LocalContext<'t>, tokens: &mut TokenStream)
        ensures *final(ctx) == *old(ctx), old(tokens)@.is_prefix_of(final(tokens)@), body_code(MacroBody::Statement(*self), *old(ctx), final(tokens)@.skip(old(tokens)@.len() as int)),
    { unimplemented!() }
}
impl<'t> Type<'t> {
    #[verifier::external_body]
    pub fn to_token_stream(&self, ctx: &mut LocalContext<'t>) -> (r: TokenStream)
        ensures *final(ctx) == *old(ctx), type_code(*self, *old(ctx), r@),
    { unimplemented!() }
    pub open spec fn void(self) -> bool { self == Type::<'t>::BuiltIn(BuiltInType::Void) }
//@ fn ast/ty.rs Type::is_void
    ensures r == self.void(),
//@ end
}

// ---- the item ------------------------------------------------------------------------------------------------------

pub open spec fn id(s: Seq<char>) -> Seq<TT> { seq![TT::Id(s)] }
pub open spec fn p(s: Seq<char>) -> Seq<TT> { seq![TT::P(s)] }
pub open spec fn lit(s: Seq<char>) -> Seq<TT> { seq![TT::L(s)] }
pub open spec fn paren(s: Seq<TT>) -> Seq<TT> { seq![TT::G("("@, s)] }
pub open spec fn brace(s: Seq<TT>) -> Seq<TT> { seq![TT::G("{"@, s)] }
pub open spec fn bracket(s: Seq<TT>) -> Seq<TT> { seq![TT::G("["@, s)] }
/// The type which the user gives for a parameter.
pub open spec fn given<'t>(cx: Cx, name: Seq<char>, param: Seq<char>) -> MacroArgType<'t> {
    match param_ty(cx, name, param) { Some(t) => MacroArgType::Known(c_type::<'t>(t)->Ok_0), None => MacroArgType::Unknown }
}
pub open spec fn given_all<'t>(cx: Cx, name: Seq<char>, params: Seq<String>) -> Seq<MacroArgType<'t>> {
    given_first(cx, name, params, params.len())
}
pub open spec fn given_first<'t>(cx: Cx, name: Seq<char>, params: Seq<String>, n: nat) -> Seq<MacroArgType<'t>> {
    Seq::new(n, |i: int| given(cx, name, params[i]@))
}
/// Is a macro generated rather than a function?
pub open spec fn is_macro(m: FnMacro, cx: Cx, x: Outcome) -> bool {
    ||| x.export
    ||| c_function(cx, m.name@)
    ||| variadic(m.args@)
    ||| exists|i: int| 0 <= i < x.types.len() && !(#[trigger] x.types[i] is Known)
    ||| x.ret is None
}
/// The macro's matcher for a parameter.
pub open spec fn matcher(param: Seq<char>, t: MacroArgType) -> Seq<TT> {
    if param == "..."@ {
        p("$"@) + paren(p("$"@) + id("__VA_ARGS__"@) + p(":"@) + id("expr"@)) + p(",*"@)
    } else {
        p("$"@) + id(param) + p(":"@) + id(match t { MacroArgType::Ident => "ident"@, MacroArgType::Ty => "ty"@, MacroArgType::Tt => "tt"@, _ => "expr"@ })
    }
}
/// Those of the first `n` parameters.
pub open spec fn matchers(params: Seq<String>, types: Seq<MacroArgType>, n: nat) -> Seq<Seq<TT>> {
    Seq::new(n, |i: int| matcher(params[i]@, types[i]))
}
pub open spec fn macro_code(name: Seq<char>, params: Seq<String>, types: Seq<MacroArgType>, body: Seq<TT>) -> Seq<TT> {
    p("#"@) + bracket(id("doc"@) + paren(id("hidden"@))) + p("#"@) + bracket(id("macro_export"@))
        + id("macro_rules"@) + p("!"@) + id("__cmacro__"@ + name)
        + brace(paren(repeated(matchers(params, types, params.len()), Seq::empty(), ","@)) + p("=>"@) + brace(body) + p(";"@))
        + id("pub"@) + id("use"@) + id("__cmacro__"@ + name) + id("as"@) + id(name) + p(";"@)
}
/// `name: type`
pub open spec fn param_code(param: Seq<char>, t: MacroArgType, x: LocalContext, s: Seq<TT>) -> bool {
    t matches MacroArgType::Known(t) && exists|c: Seq<TT>| #[trigger] type_code(t, x, c) && s == id(param) + p(":"@) + c
}
pub open spec fn has_result(ret: Option<Type>) -> bool { ret matches Some(t) && !t.void() }
pub open spec fn fn_code(name: Seq<char>, params: Seq<Seq<TT>>, ret: Seq<TT>, semi: bool, body: Seq<TT>) -> Seq<TT> {
    p("#"@) + bracket(id("allow"@) + paren(id("non_snake_case"@) + p(","@) + id("unused_mut"@) + p(","@) + id("unsafe_code"@)))
        + p("#"@) + bracket(id("inline"@) + paren(id("always"@)))
        + id("pub"@) + id("unsafe"@) + id("extern"@) + lit("\"C\""@) + id("fn"@) + id(name) + paren(repeated_before(params, id("mut"@), ","@)) + ret
        + brace(body + (if semi { p(";"@) } else { Seq::empty() }))
}
/// The context in which the code is generated.
pub open spec fn code_context(m: FnMacro, cx: Cx, x: Outcome, c: LocalContext) -> bool {
    c.arg_names@ =~= m.args@ && c.arg_types@ == x.types && c.export_as_macro == is_macro(m, cx, x) && c.cx@ == cx
}
/// A parameter's code is the one of its name and type.
pub open spec fn params_code(m: FnMacro, x: Outcome, c: LocalContext, v: Seq<Seq<TT>>) -> bool {
    v.len() == m.args@.len() && forall|i: int| 0 <= i < v.len() ==> param_code(m.args@[i]@, x.types[i], c, #[trigger] v[i])
}
pub open spec fn item_code(m: FnMacro, cx: Cx, x: Outcome, t: Seq<TT>) -> bool {
    exists|c: LocalContext, b: Seq<TT>| {
        &&& #[trigger] body_code(x.body, c, b)
        &&& code_context(m, cx, x, c)
        &&& if is_macro(m, cx, x) { t == macro_code(m.name@, m.args@, x.types, b) } else { function_code(m, x, c, b, t) }
    }
}
pub open spec fn function_code(m: FnMacro, x: Outcome, c: LocalContext, b: Seq<TT>, t: Seq<TT>) -> bool {
    exists|v: Seq<Seq<TT>>| {
        &&& params_code(m, x, c, v)
        &&& #[trigger] params_list(v) == params_list(v)
        &&& if has_result(x.ret) { exists|y: Seq<TT>| #[trigger] type_code(x.ret->0, c, y) && t == fn_code(m.name@, v, p("->"@) + y, false, b) }
            else { t == fn_code(m.name@, v, Seq::empty(), true, b) }
    }
}
pub open spec fn params_list(v: Seq<Seq<TT>>) -> Seq<TT> { repeated_before(v, id("mut"@), ","@) }
#[verifier::external_body]
pub struct Ident { _p: () }
impl Ident { pub uninterp spec fn name(self) -> Seq<char>; }
impl VxToTokens for Ident {
    open spec fn tt(&self) -> Seq<TT> { seq![TT::Id(self.name())] }
    #[verifier::external_body]
    fn vx_tt(&self, tokens: &mut TokenStream) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_ident(s: &str) -> (r: Ident)
    ensures r.name() == s@,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_cat(a: &str, b: &str) -> (r: String)
    ensures r@ == a@ + b@,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_strings(v: &Vec<String>) -> (r: Vec<String>)
    ensures r@ =~= v@,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_is(a: &String, b: &str) -> (r: bool)
    ensures r == (a@ == b@),
{ unimplemented!() }
/// Panics are not a matter of this property.
#[verifier::external_body]
pub fn vx_panics<T>() -> (r: T)
    ensures false,
{ unreachable!() }
//@ rule Ident::new($s, Span::call_site()) ~> vx_ident($s)
//@ rule format!("__cmacro__{}", $x) ~> vx_cat("__cmacro__", &$x)
//@ rule self.args.clone() ~> vx_strings(&self.args)
//@ rule arg == "..." ~> vx_is(arg, "...")
//@ rule unreachable!() ~> vx_panics()

pub open spec fn views(v: Seq<TokenStream>) -> Seq<Seq<TT>> { v.map_values(|t: TokenStream| t@) }
pub mod lemmas {
use super::*;
pub broadcast proof fn lemma_assoc(a: Seq<TT>, b: Seq<TT>, c: Seq<TT>)
    ensures #[trigger] (a + (b + c)) == (a + b) + c,
{
    assert(a + (b + c) =~= (a + b) + c);
}
pub broadcast proof fn lemma_empty_l(a: Seq<TT>)
    ensures #[trigger] (Seq::<TT>::empty() + a) == a,
{
    assert(Seq::<TT>::empty() + a =~= a);
}
pub broadcast proof fn lemma_empty_r(a: Seq<TT>)
    ensures #[trigger] (a + Seq::<TT>::empty()) == a,
{
    assert(a + Seq::<TT>::empty() =~= a);
}
pub broadcast proof fn lemma_views(v: Vec<TokenStream>)
    ensures #[trigger] v.items() == views(v@),
{
    assert(v.items() =~= views(v@));
}
pub broadcast proof fn lemma_views_push(v: Seq<TokenStream>, x: TokenStream)
    ensures #[trigger] views(v.push(x)) == views(v).push(x@),
{
    assert(views(v.push(x)) =~= views(v).push(x@));
}
pub broadcast proof fn lemma_params(v: Seq<Seq<TT>>, b: Seq<TT>, s: Seq<char>)
    requires b == id("mut"@), s == ","@,
    ensures #[trigger] repeated_before(v, b, s) == params_list(v),
{
}
pub broadcast proof fn lemma_skip0(a: Seq<TT>)
    ensures #[trigger] a.skip(Seq::<TT>::empty().len() as int) == a,
{
    assert(a.skip(0) =~= a);
}
}
broadcast use {lemmas::lemma_assoc, lemmas::lemma_empty_l, lemmas::lemma_empty_r, lemmas::lemma_skip0};

impl<'t> FnMacro<'t> {
//@ fn fn_macro.rs FnMacro::generate
//@ sig pub fn generate(&mut self, cx: Cx) -> (r: Result<TokenStream, CodegenError>)
    ensures
        r matches Ok(t) ==> outcome(old(self).body, cx, false, old(self).args@, given_all(cx, old(self).name@, old(self).args@)) matches Ok(x)
            && item_code(*old(self), cx, x, t@),
//@ opt iter-map options
//@ attr #[verifier::loop_isolation(false)]
//@ at start
    broadcast use {lemmas::lemma_views, lemmas::lemma_views_push, lemmas::lemma_params};
//@ loop 1
    invariant
        it1.seq().len() == self.args@.len(), forall|j: int| 0 <= j < it1.seq().len() ==> *(#[trigger] it1.seq()[j]) == self.args@[j],
        vx_m1@ =~= given_first::<'t>(cx, self.name@, self.args@, it1.index@ as nat),
//@ loop 2
    invariant
        it2.seq().len() == ctx.arg_types@.len(), forall|j: int| 0 <= j < it2.seq().len() ==> *(#[trigger] it2.seq()[j]) == ctx.arg_types@[j],
        vx_m2 == (forall|j: int| 0 <= j < it2.index@ ==> #[trigger] ctx.arg_types@[j] is Known),
//@ loop 3
    invariant
        vx_m3@.len() == vx_n3, views(vx_m3@) =~= matchers(self.args@, ctx.arg_types@, vx_n3 as nat),
//@ before `if ctx.export_as_macro`
    let ghost ctx1 = ctx;
//@ loop 4
    invariant
        ctx == ctx1, vx_m4@.len() == vx_n4, forall|k: int| 0 <= k < vx_n4 ==> param_code(self.args@[k]@, ctx.arg_types@[k], ctx, #[trigger] views(vx_m4@)[k]),
//@ end
}
/// The type and the code of a string.
pub uninterp spec fn string_code(e: LitString, x: LocalContext, ty: Seq<TT>, t: Seq<TT>) -> bool;
impl<'t> LitString<'t> {
    #[verifier::external_body]
    pub fn to_token_stream(&self, ctx: &mut LocalContext<'t>, generate_as_array: bool) -> (r: (TokenStream, TokenStream))
        ensures *final(ctx) == *old(ctx), generate_as_array ==> string_code(*self, *old(ctx), r.0@, r.1@),
    { unimplemented!() }
}
/// The value of a variable-like macro and its type.
pub open spec fn value_code(e: Expr, cx: Cx, x: Outcome, t: Seq<TT>, u: Option<TokenStream>) -> bool {
    match e {
        Expr::Literal(Lit::String(s)) => u is Some && exists|c: LocalContext| string_code(s, c, u->0@, t) && #[trigger] var_context(cx, x, c),
        _ => exists|c: LocalContext| body_code(MacroBody::Expr(e), c, t) && #[trigger] var_context(cx, x, c)
            && match x.ret { Some(ty) => u is Some && type_code(ty, c, u->0@), None => u is None },
    }
}
pub open spec fn var_context(cx: Cx, x: Outcome, c: LocalContext) -> bool {
    c.arg_names@.len() == 0 && c.arg_types@ == x.types && !c.export_as_macro && c.cx@ == cx
}
impl<'t> VarMacro<'t> {
//@ fn var_macro.rs VarMacro::value_mut
//@ sig pub fn value_mut(&mut self) -> (r: Option<&mut Expr<'t>>)
    ensures
        final(self).name == old(self).name,
        match old(self).body {
            MacroBody::Statement(_) => r is None && *final(self) == *old(self),
            MacroBody::Expr(e) => r matches Some(x) && *x == e && final(self).body == MacroBody::Expr(*final(x)),
        },
//@ end
//@ fn var_macro.rs VarMacro::generate
//@ sig pub fn generate(&mut self, cx: Cx) -> (r: Result<(TokenStream, Option<TokenStream>), CodegenError>)
    ensures match old(self).body {
        MacroBody::Statement(_) => r == Err::<(TokenStream, Option<TokenStream>), CodegenError>(CodegenError::NonExpressionVarMacro),
        MacroBody::Expr(e) => match outcome(MacroBody::Expr(e), cx, true, Seq::empty(), Seq::empty()) {
            Err(e) => r == Err::<(TokenStream, Option<TokenStream>), CodegenError>(e),
            Ok(x) => if x.export { r == Err::<(TokenStream, Option<TokenStream>), CodegenError>(CodegenError::NonConstantVarMacro) } else {
                r matches Ok(v) && x.body matches MacroBody::Expr(f)
                    && value_code(f, cx, x, v.0@, v.1)
            },
        },
    },
//@ opt options
//@ before `if ctx.export_as_macro`
    proof {
        if !ctx.export_as_macro {
            assert(tokens@.skip(0) =~= tokens@);
            assert(var_context(cx, outcome(MacroBody::Expr(old(self).body->Expr_0), cx, true, Seq::empty(), Seq::empty())->Ok_0, ctx));
        }
    }
//@ end
}
}
fn main() {}
