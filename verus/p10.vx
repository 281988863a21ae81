//@ # P10: token pasting yields the token spelled by both operands, or an error.
use vstd::prelude::*;
verus! {
//@ include expand.vxi
//@ item macro_set/mod.rs MacroSet Clone Default

// ---- spellings -----------------------------------------------------------------------------------------------------

/// The spelling of a token; a placemarker has none, parameters are not spelled.
pub open spec fn spell(t: Token) -> Seq<char>
    decreases t
{
    match t {
        Token::NonReplacable(t) => spell(*t),
        Token::Punctuation(p) => p.punctuation@,
        Token::Identifier(i) => i.id@,
        Token::IdentifierContinue(i) => i.id_cont@,
        Token::Literal(_, s) => s@,
        Token::Plain(s) => s@,
        _ => Seq::empty(),
    }
}
/// Characters of identifiers (`unicode_ident`, and `_` at the start).
pub uninterp spec fn start_char(c: char) -> bool;
pub uninterp spec fn continue_char(c: char) -> bool;
pub open spec fn is_continue(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> continue_char(#[trigger] s[i]) }
pub open spec fn is_ident(s: Seq<char>) -> bool {
    s.len() > 0 && start_char(s[0]) && forall|i: int| 1 <= i < s.len() ==> continue_char(#[trigger] s[i])
}
/// A character which can start a name can also continue it (Unicode's XID_Start and XID_Continue).
pub axiom fn start_is_continue()
    ensures forall|c: char| #[trigger] start_char(c) ==> continue_char(c);
/// What a spelling is classified as (P01, P03 to P05): the name which it denotes, or the literal.
pub open spec fn ident_of(s: Seq<char>) -> Option<Seq<char>> { if is_ident(s) { Some(s) } else { escaped_ident_of(s) } }
pub uninterp spec fn escaped_ident_of(s: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn continue_of(s: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn lit_of(s: Seq<char>) -> Option<Lit<'static>>;

/// `t` is the token which the spelling `s` stands for.
pub open spec fn token_of(s: Seq<char>, t: Token) -> bool {
    if ident_of(s) is Some { t matches Token::Identifier(i) && i.id@ == ident_of(s)->0 }
    else if lit_of(s) is Some { t matches Token::Literal(l, r) && l == lit_of(s)->0 && r@ == s }
    else if continue_of(s) is Some { t matches Token::IdentifierContinue(i) && i.id_cont@ == continue_of(s)->0 }
    else { t matches Token::Plain(r) && r@ == s }
}
/// Every token is one which its spelling stands for.
pub open spec fn classified(t: Token) -> bool
    decreases t
{
    match t {
        Token::NonReplacable(t) => classified(*t),
        Token::Punctuation(p) => is_punct(p.punctuation@),
        Token::Identifier(i) => is_ident(i.id@),
        Token::IdentifierContinue(i) => is_continue(i.id_cont@),
        Token::Literal(l, s) => lit_of(s@) == Some(l) && (l is Int ==> is_continue(s@)),
        _ => true,
    }
}
/// The token itself, whether it may be replaced or not.
pub open spec fn inner<'t>(t: Token<'t>) -> Token<'t>
    decreases t
{
    match t {
        Token::NonReplacable(t) => inner(*t),
        t => t,
    }
}
pub open spec fn empty(t: Token) -> bool { inner(t) is Placemarker }
/// A token which can be an operand.
pub open spec fn operand(t: Token) -> bool {
    !(inner(t) is MacroArg || inner(t) is VarArgs || inner(t) is Comment)
}

pub open spec fn text_literal(t: Token) -> bool { t matches Token::Literal(l, _) && (l is String || l is Char) }
pub open spec fn unprefixed(t: Token) -> bool {
    t matches Token::Literal(l, _) && ((l matches Lit::String(s) && s is Ordinary) || (l matches Lit::Char(c) && c is Ordinary))
}
pub open spec fn prefix(s: Seq<char>) -> bool { s == "u8"@ || s == "u"@ || s == "U"@ || s == "L"@ }

/// Whether `a ## b` is a token, for operands which are not empty.
pub open spec fn pastes(a: Token, b: Token) -> bool {
    let s = spell(a) + spell(b);
    match (a, b) {
        (Token::Punctuation(p), Token::Punctuation(q)) => punct_concat(p.punctuation@, q.punctuation@) is Some,
        // A number may begin with a point.
        (Token::Punctuation(p), Token::Literal(..)) => p.punctuation@ == "."@ && !text_literal(b) && lit_of(s) is Some,
        (Token::Punctuation(_), _) => false,
        (_, Token::Punctuation(_)) => false,
        // Nothing can be appended to a string, and only a prefix can be put in front of it by a name.
        (Token::Literal(..), _) => !text_literal(a),
        (Token::Identifier(i), Token::Literal(l, r)) => if text_literal(b) {
            unprefixed(b) && prefix(i.id@) && lit_of(s) is Some
        } else {
            l is Int || is_continue_or_empty(r@)
        },
        _ => true,
    }
}
pub open spec fn is_continue_or_empty(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> continue_char(#[trigger] s[i]) }

impl<'t> Lit<'t> {
    #[verifier::external_body]
    pub fn try_from(s: &str) -> (r: Result<Lit<'static>, ()>)
        ensures match r { Ok(l) => lit_of(s@) == Some(l) && (l is Int ==> is_continue(s@)) && ident_of(s@) is None, Err(_) => lit_of(s@) is None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_static(self) -> (r: Lit<'static>)
        ensures r == self,
    { unimplemented!() }
}
impl<'t> Identifier<'t> {
    #[verifier::external_body]
    pub fn try_from(s: &str) -> (r: Result<Identifier<'static>, ()>)
        ensures
            match r { Ok(i) => ident_of(s@) == Some(i.id@) && is_ident(i.id@), Err(_) => ident_of(s@) is None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_static(&self) -> (r: Identifier<'static>)
        ensures r == *self,
    { unimplemented!() }
}
impl<'t> IdentifierContinue<'t> {
    #[verifier::external_body]
    pub fn try_from(s: &str) -> (r: Result<IdentifierContinue<'static>, ()>)
        ensures match r { Ok(i) => continue_of(s@) == Some(i.id_cont@) && is_continue(i.id_cont@), Err(_) => continue_of(s@) is None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_static(self) -> (r: IdentifierContinue<'static>)
        ensures r == self,
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_all_continue(s: &str) -> (r: bool)
    ensures r == is_continue_or_empty(s@),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_any_continue(s: &str) -> (r: bool)
    ensures r == exists|i: int| 0 <= i < s@.len() && continue_char(#[trigger] s@[i]),
{ unimplemented!() }
//@ rule $s.chars().all(unicode_ident::is_xid_continue) ~> vx_all_continue($s)
//@ rule $s.chars().any(unicode_ident::is_xid_continue) ~> vx_any_continue($s)
#[verifier::external_body]
pub fn vx_join(a: &str, b: &Str) -> (r: String)
    ensures r@ == a@ + b@,
{ unimplemented!() }

/// The punctuators of C.
pub open spec fn is_punct(s: Seq<char>) -> bool {
    ||| s == "["@
    ||| s == "]"@
    ||| s == "("@
    ||| s == ")"@
    ||| s == "{"@
    ||| s == "}"@
    ||| s == "."@
    ||| s == "->"@
    ||| s == "++"@
    ||| s == "--"@
    ||| s == "&"@
    ||| s == "*"@
    ||| s == "+"@
    ||| s == "-"@
    ||| s == "~"@
    ||| s == "!"@
    ||| s == "/"@
    ||| s == "%"@
    ||| s == "<<"@
    ||| s == ">>"@
    ||| s == "<"@
    ||| s == ">"@
    ||| s == "<="@
    ||| s == ">="@
    ||| s == "=="@
    ||| s == "!="@
    ||| s == "^"@
    ||| s == "|"@
    ||| s == "&&"@
    ||| s == "||"@
    ||| s == "?"@
    ||| s == ":"@
    ||| s == ";"@
    ||| s == "..."@
    ||| s == "="@
    ||| s == "*="@
    ||| s == "/="@
    ||| s == "%="@
    ||| s == "+="@
    ||| s == "-="@
    ||| s == "<<="@
    ||| s == ">>="@
    ||| s == "&="@
    ||| s == "^="@
    ||| s == "|="@
    ||| s == ","@
    ||| s == "#"@
    ||| s == "##"@
    ||| s == "<:"@
    ||| s == ":>"@
    ||| s == "<%"@
    ||| s == "%>"@
    ||| s == "%:"@
    ||| s == "%:%:"@
}
/// What two punctuators form.
pub open spec fn punct_concat(a: Seq<char>, b: Seq<char>) -> Option<Seq<char>> {
    if is_punct(a + b) { Some(a + b) } else { None }
}
proof fn lemma_puncts()
    ensures
        "["@ == seq!['['],
        "]"@ == seq![']'],
        "("@ == seq!['('],
        ")"@ == seq![')'],
        "{"@ == seq!['{'],
        "}"@ == seq!['}'],
        "."@ == seq!['.'],
        "->"@ == seq!['-', '>'],
        "++"@ == seq!['+', '+'],
        "--"@ == seq!['-', '-'],
        "&"@ == seq!['&'],
        "*"@ == seq!['*'],
        "+"@ == seq!['+'],
        "-"@ == seq!['-'],
        "~"@ == seq!['~'],
        "!"@ == seq!['!'],
        "/"@ == seq!['/'],
        "%"@ == seq!['%'],
        "<<"@ == seq!['<', '<'],
        ">>"@ == seq!['>', '>'],
        "<"@ == seq!['<'],
        ">"@ == seq!['>'],
        "<="@ == seq!['<', '='],
        ">="@ == seq!['>', '='],
        "=="@ == seq!['=', '='],
        "!="@ == seq!['!', '='],
        "^"@ == seq!['^'],
        "|"@ == seq!['|'],
        "&&"@ == seq!['&', '&'],
        "||"@ == seq!['|', '|'],
        "?"@ == seq!['?'],
        ":"@ == seq![':'],
        ";"@ == seq![';'],
        "..."@ == seq!['.', '.', '.'],
        "="@ == seq!['='],
        "*="@ == seq!['*', '='],
        "/="@ == seq!['/', '='],
        "%="@ == seq!['%', '='],
        "+="@ == seq!['+', '='],
        "-="@ == seq!['-', '='],
        "<<="@ == seq!['<', '<', '='],
        ">>="@ == seq!['>', '>', '='],
        "&="@ == seq!['&', '='],
        "^="@ == seq!['^', '='],
        "|="@ == seq!['|', '='],
        ","@ == seq![','],
        "#"@ == seq!['#'],
        "##"@ == seq!['#', '#'],
        "<:"@ == seq!['<', ':'],
        ":>"@ == seq![':', '>'],
        "<%"@ == seq!['<', '%'],
        "%>"@ == seq!['%', '>'],
        "%:"@ == seq!['%', ':'],
        "%:%:"@ == seq!['%', ':', '%', ':'],
{
    reveal_strlit("["); assert("["@ =~= seq!['[']);
    reveal_strlit("]"); assert("]"@ =~= seq![']']);
    reveal_strlit("("); assert("("@ =~= seq!['(']);
    reveal_strlit(")"); assert(")"@ =~= seq![')']);
    reveal_strlit("{"); assert("{"@ =~= seq!['{']);
    reveal_strlit("}"); assert("}"@ =~= seq!['}']);
    reveal_strlit("."); assert("."@ =~= seq!['.']);
    reveal_strlit("->"); assert("->"@ =~= seq!['-', '>']);
    reveal_strlit("++"); assert("++"@ =~= seq!['+', '+']);
    reveal_strlit("--"); assert("--"@ =~= seq!['-', '-']);
    reveal_strlit("&"); assert("&"@ =~= seq!['&']);
    reveal_strlit("*"); assert("*"@ =~= seq!['*']);
    reveal_strlit("+"); assert("+"@ =~= seq!['+']);
    reveal_strlit("-"); assert("-"@ =~= seq!['-']);
    reveal_strlit("~"); assert("~"@ =~= seq!['~']);
    reveal_strlit("!"); assert("!"@ =~= seq!['!']);
    reveal_strlit("/"); assert("/"@ =~= seq!['/']);
    reveal_strlit("%"); assert("%"@ =~= seq!['%']);
    reveal_strlit("<<"); assert("<<"@ =~= seq!['<', '<']);
    reveal_strlit(">>"); assert(">>"@ =~= seq!['>', '>']);
    reveal_strlit("<"); assert("<"@ =~= seq!['<']);
    reveal_strlit(">"); assert(">"@ =~= seq!['>']);
    reveal_strlit("<="); assert("<="@ =~= seq!['<', '=']);
    reveal_strlit(">="); assert(">="@ =~= seq!['>', '=']);
    reveal_strlit("=="); assert("=="@ =~= seq!['=', '=']);
    reveal_strlit("!="); assert("!="@ =~= seq!['!', '=']);
    reveal_strlit("^"); assert("^"@ =~= seq!['^']);
    reveal_strlit("|"); assert("|"@ =~= seq!['|']);
    reveal_strlit("&&"); assert("&&"@ =~= seq!['&', '&']);
    reveal_strlit("||"); assert("||"@ =~= seq!['|', '|']);
    reveal_strlit("?"); assert("?"@ =~= seq!['?']);
    reveal_strlit(":"); assert(":"@ =~= seq![':']);
    reveal_strlit(";"); assert(";"@ =~= seq![';']);
    reveal_strlit("..."); assert("..."@ =~= seq!['.', '.', '.']);
    reveal_strlit("="); assert("="@ =~= seq!['=']);
    reveal_strlit("*="); assert("*="@ =~= seq!['*', '=']);
    reveal_strlit("/="); assert("/="@ =~= seq!['/', '=']);
    reveal_strlit("%="); assert("%="@ =~= seq!['%', '=']);
    reveal_strlit("+="); assert("+="@ =~= seq!['+', '=']);
    reveal_strlit("-="); assert("-="@ =~= seq!['-', '=']);
    reveal_strlit("<<="); assert("<<="@ =~= seq!['<', '<', '=']);
    reveal_strlit(">>="); assert(">>="@ =~= seq!['>', '>', '=']);
    reveal_strlit("&="); assert("&="@ =~= seq!['&', '=']);
    reveal_strlit("^="); assert("^="@ =~= seq!['^', '=']);
    reveal_strlit("|="); assert("|="@ =~= seq!['|', '=']);
    reveal_strlit(","); assert(","@ =~= seq![',']);
    reveal_strlit("#"); assert("#"@ =~= seq!['#']);
    reveal_strlit("##"); assert("##"@ =~= seq!['#', '#']);
    reveal_strlit("<:"); assert("<:"@ =~= seq!['<', ':']);
    reveal_strlit(":>"); assert(":>"@ =~= seq![':', '>']);
    reveal_strlit("<%"); assert("<%"@ =~= seq!['<', '%']);
    reveal_strlit("%>"); assert("%>"@ =~= seq!['%', '>']);
    reveal_strlit("%:"); assert("%:"@ =~= seq!['%', ':']);
    reveal_strlit("%:%:"); assert("%:%:"@ =~= seq!['%', ':', '%', ':']);
}
proof fn lemma_split_7(a: Seq<char>, b: Seq<char>)
    requires is_punct(a), is_punct(b), a + b == "->"@,
    ensures (a == "-"@ && b == ">"@),
{
    lemma_puncts();
    let c = "->"@;
    assert(c.len() == 2);
    assert(a =~= c.take(a.len() as int)); assert(b =~= c.skip(a.len() as int));
    if a.len() == 1 { assert(a =~= seq!['-']); assert(b =~= seq!['>']); }
}
proof fn lemma_split_8(a: Seq<char>, b: Seq<char>)
    requires is_punct(a), is_punct(b), a + b == "++"@,
    ensures (a == "+"@ && b == "+"@),
{
    lemma_puncts();
    let c = "++"@;
    assert(c.len() == 2);
    assert(a =~= c.take(a.len() as int)); assert(b =~= c.skip(a.len() as int));
    if a.len() == 1 { assert(a =~= seq!['+']); assert(b =~= seq!['+']); }
}
proof fn lemma_split_9(a: Seq<char>, b: Seq<char>)
    requires is_punct(a), is_punct(b), a + b == "--"@,
    ensures (a == "-"@ && b == "-"@),
{
    lemma_puncts();
    let c = "--"@;
    assert(c.len() == 2);
    assert(a =~= c.take(a.len() as int)); assert(b =~= c.skip(a.len() as int));
    if a.len() == 1 { assert(a =~= seq!['-']); assert(b =~= seq!['-']); }
}
proof fn lemma_split_18(a: Seq<char>, b: Seq<char>)
    requires is_punct(a), is_punct(b), a + b == "<<"@,
    ensures (a == "<"@ && b == "<"@),
{
    lemma_puncts();
    let c = "<<"@;
    assert(c.len() == 2);
    assert(a =~= c.take(a.len() as int)); assert(b =~= c.skip(a.len() as int));
    if a.len() == 1 { assert(a =~= seq!['<']); assert(b =~= seq!['<']); }
}
proof fn lemma_split_19(a: Seq<char>, b: Seq<char>)
    requires is_punct(a), is_punct(b), a + b == ">>"@,
    ensures (a == ">"@ && b == ">"@),
{
    lemma_puncts();
    let c = ">>"@;
    assert(c.len() == 2);
    assert(a =~= c.take(a.len() as int)); assert(b =~= c.skip(a.len() as int));
    if a.len() == 1 { assert(a =~= seq!['>']); assert(b =~= seq!['>']); }
}
proof fn lemma_split_22(a: Seq<char>, b: Seq<char>)
    requires is_punct(a), is_punct(b), a + b == "<="@,
    ensures (a == "<"@ && b == "="@),
{
    lemma_puncts();
    let c = "<="@;
    assert(c.len() == 2);
    assert(a =~= c.take(a.len() as int)); assert(b =~= c.skip(a.len() as int));
    if a.len() == 1 { assert(a =~= seq!['<']); assert(b =~= seq!['=']); }
}
proof fn lemma_split_23(a: Seq<char>, b: Seq<char>)
    requires is_punct(a), is_punct(b), a + b == ">="@,
    ensures (a == ">"@ && b == "="@),
{
    lemma_puncts();
    let c = ">="@;
    assert(c.len() == 2);
    assert(a =~= c.take(a.len() as int)); assert(b =~= c.skip(a.len() as int));
    if a.len() == 1 { assert(a =~= seq!['>']); assert(b =~= seq!['=']); }
}
proof fn lemma_split_24(a: Seq<char>, b: Seq<char>)
    requires is_punct(a), is_punct(b), a + b == "=="@,
    ensures (a == "="@ && b == "="@),
{
    lemma_puncts();
    let c = "=="@;
    assert(c.len() == 2);
    assert(a =~= c.take(a.len() as int)); assert(b =~= c.skip(a.len() as int));
    if a.len() == 1 { assert(a =~= seq!['=']); assert(b =~= seq!['=']); }
}
proof fn lemma_split_25(a: Seq<char>, b: Seq<char>)
    requires is_punct(a), is_punct(b), a + b == "!="@,
    ensures (a == "!"@ && b == "="@),
{
    lemma_puncts();
    let c = "!="@;
    assert(c.len() == 2);
    assert(a =~= c.take(a.len() as int)); assert(b =~= c.skip(a.len() as int));
    if a.len() == 1 { assert(a =~= seq!['!']); assert(b =~= seq!['=']); }
}
proof fn lemma_split_28(a: Seq<char>, b: Seq<char>)
    requires is_punct(a), is_punct(b), a + b == "&&"@,
    ensures (a == "&"@ && b == "&"@),
{
    lemma_puncts();
    let c = "&&"@;
    assert(c.len() == 2);
    assert(a =~= c.take(a.len() as int)); assert(b =~= c.skip(a.len() as int));
    if a.len() == 1 { assert(a =~= seq!['&']); assert(b =~= seq!['&']); }
}
proof fn lemma_split_29(a: Seq<char>, b: Seq<char>)
    requires is_punct(a), is_punct(b), a + b == "||"@,
    ensures (a == "|"@ && b == "|"@),
{
    lemma_puncts();
    let c = "||"@;
    assert(c.len() == 2);
    assert(a =~= c.take(a.len() as int)); assert(b =~= c.skip(a.len() as int));
    if a.len() == 1 { assert(a =~= seq!['|']); assert(b =~= seq!['|']); }
}
proof fn lemma_split_33(a: Seq<char>, b: Seq<char>)
    requires is_punct(a), is_punct(b), a + b == "..."@,
    ensures false,
{
    lemma_puncts();
    let c = "..."@;
    assert(c.len() == 3);
    assert(a =~= c.take(a.len() as int)); assert(b =~= c.skip(a.len() as int));
    if a.len() == 1 { assert(a =~= seq!['.']); assert(b =~= seq!['.', '.']); }
    if a.len() == 2 { assert(a =~= seq!['.', '.']); assert(b =~= seq!['.']); }
}
proof fn lemma_split_35(a: Seq<char>, b: Seq<char>)
    requires is_punct(a), is_punct(b), a + b == "*="@,
    ensures (a == "*"@ && b == "="@),
{
    lemma_puncts();
    let c = "*="@;
    assert(c.len() == 2);
    assert(a =~= c.take(a.len() as int)); assert(b =~= c.skip(a.len() as int));
    if a.len() == 1 { assert(a =~= seq!['*']); assert(b =~= seq!['=']); }
}
proof fn lemma_split_36(a: Seq<char>, b: Seq<char>)
    requires is_punct(a), is_punct(b), a + b == "/="@,
    ensures (a == "/"@ && b == "="@),
{
    lemma_puncts();
    let c = "/="@;
    assert(c.len() == 2);
    assert(a =~= c.take(a.len() as int)); assert(b =~= c.skip(a.len() as int));
    if a.len() == 1 { assert(a =~= seq!['/']); assert(b =~= seq!['=']); }
}
proof fn lemma_split_37(a: Seq<char>, b: Seq<char>)
    requires is_punct(a), is_punct(b), a + b == "%="@,
    ensures (a == "%"@ && b == "="@),
{
    lemma_puncts();
    let c = "%="@;
    assert(c.len() == 2);
    assert(a =~= c.take(a.len() as int)); assert(b =~= c.skip(a.len() as int));
    if a.len() == 1 { assert(a =~= seq!['%']); assert(b =~= seq!['=']); }
}
proof fn lemma_split_38(a: Seq<char>, b: Seq<char>)
    requires is_punct(a), is_punct(b), a + b == "+="@,
    ensures (a == "+"@ && b == "="@),
{
    lemma_puncts();
    let c = "+="@;
    assert(c.len() == 2);
    assert(a =~= c.take(a.len() as int)); assert(b =~= c.skip(a.len() as int));
    if a.len() == 1 { assert(a =~= seq!['+']); assert(b =~= seq!['=']); }
}
proof fn lemma_split_39(a: Seq<char>, b: Seq<char>)
    requires is_punct(a), is_punct(b), a + b == "-="@,
    ensures (a == "-"@ && b == "="@),
{
    lemma_puncts();
    let c = "-="@;
    assert(c.len() == 2);
    assert(a =~= c.take(a.len() as int)); assert(b =~= c.skip(a.len() as int));
    if a.len() == 1 { assert(a =~= seq!['-']); assert(b =~= seq!['=']); }
}
proof fn lemma_split_40(a: Seq<char>, b: Seq<char>)
    requires is_punct(a), is_punct(b), a + b == "<<="@,
    ensures (a == "<"@ && b == "<="@) || (a == "<<"@ && b == "="@),
{
    lemma_puncts();
    let c = "<<="@;
    assert(c.len() == 3);
    assert(a =~= c.take(a.len() as int)); assert(b =~= c.skip(a.len() as int));
    if a.len() == 1 { assert(a =~= seq!['<']); assert(b =~= seq!['<', '=']); }
    if a.len() == 2 { assert(a =~= seq!['<', '<']); assert(b =~= seq!['=']); }
}
proof fn lemma_split_41(a: Seq<char>, b: Seq<char>)
    requires is_punct(a), is_punct(b), a + b == ">>="@,
    ensures (a == ">"@ && b == ">="@) || (a == ">>"@ && b == "="@),
{
    lemma_puncts();
    let c = ">>="@;
    assert(c.len() == 3);
    assert(a =~= c.take(a.len() as int)); assert(b =~= c.skip(a.len() as int));
    if a.len() == 1 { assert(a =~= seq!['>']); assert(b =~= seq!['>', '=']); }
    if a.len() == 2 { assert(a =~= seq!['>', '>']); assert(b =~= seq!['=']); }
}
proof fn lemma_split_42(a: Seq<char>, b: Seq<char>)
    requires is_punct(a), is_punct(b), a + b == "&="@,
    ensures (a == "&"@ && b == "="@),
{
    lemma_puncts();
    let c = "&="@;
    assert(c.len() == 2);
    assert(a =~= c.take(a.len() as int)); assert(b =~= c.skip(a.len() as int));
    if a.len() == 1 { assert(a =~= seq!['&']); assert(b =~= seq!['=']); }
}
proof fn lemma_split_43(a: Seq<char>, b: Seq<char>)
    requires is_punct(a), is_punct(b), a + b == "^="@,
    ensures (a == "^"@ && b == "="@),
{
    lemma_puncts();
    let c = "^="@;
    assert(c.len() == 2);
    assert(a =~= c.take(a.len() as int)); assert(b =~= c.skip(a.len() as int));
    if a.len() == 1 { assert(a =~= seq!['^']); assert(b =~= seq!['=']); }
}
proof fn lemma_split_44(a: Seq<char>, b: Seq<char>)
    requires is_punct(a), is_punct(b), a + b == "|="@,
    ensures (a == "|"@ && b == "="@),
{
    lemma_puncts();
    let c = "|="@;
    assert(c.len() == 2);
    assert(a =~= c.take(a.len() as int)); assert(b =~= c.skip(a.len() as int));
    if a.len() == 1 { assert(a =~= seq!['|']); assert(b =~= seq!['=']); }
}
proof fn lemma_split_47(a: Seq<char>, b: Seq<char>)
    requires is_punct(a), is_punct(b), a + b == "##"@,
    ensures (a == "#"@ && b == "#"@),
{
    lemma_puncts();
    let c = "##"@;
    assert(c.len() == 2);
    assert(a =~= c.take(a.len() as int)); assert(b =~= c.skip(a.len() as int));
    if a.len() == 1 { assert(a =~= seq!['#']); assert(b =~= seq!['#']); }
}
proof fn lemma_split_48(a: Seq<char>, b: Seq<char>)
    requires is_punct(a), is_punct(b), a + b == "<:"@,
    ensures (a == "<"@ && b == ":"@),
{
    lemma_puncts();
    let c = "<:"@;
    assert(c.len() == 2);
    assert(a =~= c.take(a.len() as int)); assert(b =~= c.skip(a.len() as int));
    if a.len() == 1 { assert(a =~= seq!['<']); assert(b =~= seq![':']); }
}
proof fn lemma_split_49(a: Seq<char>, b: Seq<char>)
    requires is_punct(a), is_punct(b), a + b == ":>"@,
    ensures (a == ":"@ && b == ">"@),
{
    lemma_puncts();
    let c = ":>"@;
    assert(c.len() == 2);
    assert(a =~= c.take(a.len() as int)); assert(b =~= c.skip(a.len() as int));
    if a.len() == 1 { assert(a =~= seq![':']); assert(b =~= seq!['>']); }
}
proof fn lemma_split_50(a: Seq<char>, b: Seq<char>)
    requires is_punct(a), is_punct(b), a + b == "<%"@,
    ensures (a == "<"@ && b == "%"@),
{
    lemma_puncts();
    let c = "<%"@;
    assert(c.len() == 2);
    assert(a =~= c.take(a.len() as int)); assert(b =~= c.skip(a.len() as int));
    if a.len() == 1 { assert(a =~= seq!['<']); assert(b =~= seq!['%']); }
}
proof fn lemma_split_51(a: Seq<char>, b: Seq<char>)
    requires is_punct(a), is_punct(b), a + b == "%>"@,
    ensures (a == "%"@ && b == ">"@),
{
    lemma_puncts();
    let c = "%>"@;
    assert(c.len() == 2);
    assert(a =~= c.take(a.len() as int)); assert(b =~= c.skip(a.len() as int));
    if a.len() == 1 { assert(a =~= seq!['%']); assert(b =~= seq!['>']); }
}
proof fn lemma_split_52(a: Seq<char>, b: Seq<char>)
    requires is_punct(a), is_punct(b), a + b == "%:"@,
    ensures (a == "%"@ && b == ":"@),
{
    lemma_puncts();
    let c = "%:"@;
    assert(c.len() == 2);
    assert(a =~= c.take(a.len() as int)); assert(b =~= c.skip(a.len() as int));
    if a.len() == 1 { assert(a =~= seq!['%']); assert(b =~= seq![':']); }
}
proof fn lemma_split_53(a: Seq<char>, b: Seq<char>)
    requires is_punct(a), is_punct(b), a + b == "%:%:"@,
    ensures (a == "%:"@ && b == "%:"@),
{
    lemma_puncts();
    let c = "%:%:"@;
    assert(c.len() == 4);
    assert(a =~= c.take(a.len() as int)); assert(b =~= c.skip(a.len() as int));
    if a.len() == 1 { assert(a =~= seq!['%']); assert(b =~= seq![':', '%', ':']); }
    if a.len() == 2 { assert(a =~= seq!['%', ':']); assert(b =~= seq!['%', ':']); }
    if a.len() == 3 { assert(a =~= seq!['%', ':', '%']); assert(b =~= seq![':']); }
}
proof fn lemma_joins()
    ensures
        "-"@ + ">"@ == "->"@,
        "+"@ + "+"@ == "++"@,
        "-"@ + "-"@ == "--"@,
        "<"@ + "<"@ == "<<"@,
        ">"@ + ">"@ == ">>"@,
        "<"@ + "="@ == "<="@,
        ">"@ + "="@ == ">="@,
        "="@ + "="@ == "=="@,
        "!"@ + "="@ == "!="@,
        "&"@ + "&"@ == "&&"@,
        "|"@ + "|"@ == "||"@,
        "*"@ + "="@ == "*="@,
        "/"@ + "="@ == "/="@,
        "%"@ + "="@ == "%="@,
        "+"@ + "="@ == "+="@,
        "-"@ + "="@ == "-="@,
        "<"@ + "<="@ == "<<="@,
        "<<"@ + "="@ == "<<="@,
        ">"@ + ">="@ == ">>="@,
        ">>"@ + "="@ == ">>="@,
        "&"@ + "="@ == "&="@,
        "^"@ + "="@ == "^="@,
        "|"@ + "="@ == "|="@,
        "#"@ + "#"@ == "##"@,
        "<"@ + ":"@ == "<:"@,
        ":"@ + ">"@ == ":>"@,
        "<"@ + "%"@ == "<%"@,
        "%"@ + ">"@ == "%>"@,
        "%"@ + ":"@ == "%:"@,
        "%:"@ + "%:"@ == "%:%:"@,
{
    lemma_puncts();
    assert("-"@ + ">"@ =~= "->"@);
    assert("+"@ + "+"@ =~= "++"@);
    assert("-"@ + "-"@ =~= "--"@);
    assert("<"@ + "<"@ =~= "<<"@);
    assert(">"@ + ">"@ =~= ">>"@);
    assert("<"@ + "="@ =~= "<="@);
    assert(">"@ + "="@ =~= ">="@);
    assert("="@ + "="@ =~= "=="@);
    assert("!"@ + "="@ =~= "!="@);
    assert("&"@ + "&"@ =~= "&&"@);
    assert("|"@ + "|"@ =~= "||"@);
    assert("*"@ + "="@ =~= "*="@);
    assert("/"@ + "="@ =~= "/="@);
    assert("%"@ + "="@ =~= "%="@);
    assert("+"@ + "="@ =~= "+="@);
    assert("-"@ + "="@ =~= "-="@);
    assert("<"@ + "<="@ =~= "<<="@);
    assert("<<"@ + "="@ =~= "<<="@);
    assert(">"@ + ">="@ =~= ">>="@);
    assert(">>"@ + "="@ =~= ">>="@);
    assert("&"@ + "="@ =~= "&="@);
    assert("^"@ + "="@ =~= "^="@);
    assert("|"@ + "="@ =~= "|="@);
    assert("#"@ + "#"@ =~= "##"@);
    assert("<"@ + ":"@ =~= "<:"@);
    assert(":"@ + ">"@ =~= ":>"@);
    assert("<"@ + "%"@ =~= "<%"@);
    assert("%"@ + ">"@ =~= "%>"@);
    assert("%"@ + ":"@ =~= "%:"@);
    assert("%:"@ + "%:"@ =~= "%:%:"@);
}
proof fn lemma_split(a: Seq<char>, b: Seq<char>)
    requires is_punct(a), is_punct(b), is_punct(a + b),
    ensures
        false
        || (a == "-"@ && b == ">"@)
        || (a == "+"@ && b == "+"@)
        || (a == "-"@ && b == "-"@)
        || (a == "<"@ && b == "<"@)
        || (a == ">"@ && b == ">"@)
        || (a == "<"@ && b == "="@)
        || (a == ">"@ && b == "="@)
        || (a == "="@ && b == "="@)
        || (a == "!"@ && b == "="@)
        || (a == "&"@ && b == "&"@)
        || (a == "|"@ && b == "|"@)
        || (a == "*"@ && b == "="@)
        || (a == "/"@ && b == "="@)
        || (a == "%"@ && b == "="@)
        || (a == "+"@ && b == "="@)
        || (a == "-"@ && b == "="@)
        || (a == "<"@ && b == "<="@)
        || (a == "<<"@ && b == "="@)
        || (a == ">"@ && b == ">="@)
        || (a == ">>"@ && b == "="@)
        || (a == "&"@ && b == "="@)
        || (a == "^"@ && b == "="@)
        || (a == "|"@ && b == "="@)
        || (a == "#"@ && b == "#"@)
        || (a == "<"@ && b == ":"@)
        || (a == ":"@ && b == ">"@)
        || (a == "<"@ && b == "%"@)
        || (a == "%"@ && b == ">"@)
        || (a == "%"@ && b == ":"@)
        || (a == "%:"@ && b == "%:"@)
{
    if a + b == "->"@ { lemma_split_7(a, b); return; }
    if a + b == "++"@ { lemma_split_8(a, b); return; }
    if a + b == "--"@ { lemma_split_9(a, b); return; }
    if a + b == "<<"@ { lemma_split_18(a, b); return; }
    if a + b == ">>"@ { lemma_split_19(a, b); return; }
    if a + b == "<="@ { lemma_split_22(a, b); return; }
    if a + b == ">="@ { lemma_split_23(a, b); return; }
    if a + b == "=="@ { lemma_split_24(a, b); return; }
    if a + b == "!="@ { lemma_split_25(a, b); return; }
    if a + b == "&&"@ { lemma_split_28(a, b); return; }
    if a + b == "||"@ { lemma_split_29(a, b); return; }
    if a + b == "..."@ { lemma_split_33(a, b); return; }
    if a + b == "*="@ { lemma_split_35(a, b); return; }
    if a + b == "/="@ { lemma_split_36(a, b); return; }
    if a + b == "%="@ { lemma_split_37(a, b); return; }
    if a + b == "+="@ { lemma_split_38(a, b); return; }
    if a + b == "-="@ { lemma_split_39(a, b); return; }
    if a + b == "<<="@ { lemma_split_40(a, b); return; }
    if a + b == ">>="@ { lemma_split_41(a, b); return; }
    if a + b == "&="@ { lemma_split_42(a, b); return; }
    if a + b == "^="@ { lemma_split_43(a, b); return; }
    if a + b == "|="@ { lemma_split_44(a, b); return; }
    if a + b == "##"@ { lemma_split_47(a, b); return; }
    if a + b == "<:"@ { lemma_split_48(a, b); return; }
    if a + b == ":>"@ { lemma_split_49(a, b); return; }
    if a + b == "<%"@ { lemma_split_50(a, b); return; }
    if a + b == "%>"@ { lemma_split_51(a, b); return; }
    if a + b == "%:"@ { lemma_split_52(a, b); return; }
    if a + b == "%:%:"@ { lemma_split_53(a, b); return; }
    lemma_puncts();
    assert((a + b).len() == a.len() + b.len());
}
impl<'t> Punctuation<'t> {
//@ fn ast/punctuation.rs Punctuation::concat
    requires is_punct(self.punctuation@), is_punct(other.punctuation@),
    ensures
        match r {
            Some(p) => punct_concat(self.punctuation@, other.punctuation@) == Some(p.punctuation@),
            None => punct_concat(self.punctuation@, other.punctuation@) is None,
        },
//@ at start
    proof {
        lemma_joins();
        str_ext();
        if is_punct(self.punctuation@ + other.punctuation@) { lemma_split(self.punctuation@, other.punctuation@); }
    }
//@ end
}
impl<'t> Token<'t> {
//@ fn macro_set/mod.rs Token::concat
    requires classified(self), classified(other), operand(self), operand(other),
    ensures
        paste(self, other, r),
        r matches Ok(t) ==> classified(t) && (t is NonReplacable ==> operand(t)),
    decreases self, other,
//@ at start
    proof {
        reveal_with_fuel(inner, 3);
        reveal_with_fuel(spell, 3);
        reveal_with_fuel(classified, 3);
        start_is_continue();
        str_ext();
    }
//@ rule $x.map(|lit| lit.into_static()) ~> $x
//@ rule format!("{}{rhs}", lhs.as_str()) ~> vx_join(lhs.as_str(), &rhs)
//@ end
}

// ---- the operator --------------------------------------------------------------------------------------------------

/// What `a ## b` gives.
pub open spec fn paste(a: Token, b: Token, r: Result<Token, ExpansionError>) -> bool {
    &&& r is Ok <==> empty(a) || empty(b) || pastes(inner(a), inner(b))
    &&& r matches Ok(t) ==> {
        if a is Placemarker { t == b }
        else if b is Placemarker { t == a }
        else if empty(a) { inner(t) == inner(b) }
        else if empty(b) { inner(t) == inner(a) }
        else if inner(t) is Punctuation { t is NonReplacable && spell(t) == spell(a) + spell(b) }
        else { token_of(spell(a) + spell(b), t) }
    }
}
/// Something which is only known when the macro is called.
pub open spec fn parameter(t: Token) -> bool { t is MacroArg || t is VarArgs }
pub open spec fn operator(t: Token) -> bool { punct(t, "##"@) }
pub open spec fn good(s: Seq<Token>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> classified(#[trigger] s[i]) && (s[i] is NonReplacable ==> operand(s[i]))
}
/// Whether the `##` between `out` and `rest` is to be applied now.
pub open spec fn applies(out: Seq<Token>, rest: Seq<Token>) -> bool {
    &&& !(last_operand(out) matches Some(i) && parameter(out[i]))
    &&& !(first_operand(rest) matches Some(i) && parameter(rest[i]))
}
/// All `##` in `rest`, which follows `out`, are applied from left to right.
pub open spec fn pasted<'t>(out: Seq<Token<'t>>, rest: Seq<Token<'t>>, r: Result<Seq<Token<'t>>, ExpansionError>) -> bool
    decreases rest.len(), 1nat
{
    if rest.len() == 0 {
        r == Ok::<Seq<Token<'t>>, ExpansionError>(out)
    } else if operator(rest[0]) && applies(out, rest.skip(1)) {
        match last_operand(out) {
            None => r == Err::<Seq<Token<'t>>, ExpansionError>(ExpansionError::ConcatBegin),
            Some(i) => {
                if rest.len() > 1 && operator(rest[1]) {
                    // several operators in a row are one
                    pasted_with(out.take(i), out[i], Token::Placemarker, rest.skip(1), r, rest.len())
                } else {
                    match first_operand(rest.skip(1)) {
                        None => r == Err::<Seq<Token<'t>>, ExpansionError>(ExpansionError::ConcatEnd),
                        Some(k) => pasted_with(out.take(i), out[i], rest.skip(1)[k], rest.skip(1).skip(k + 1), r, rest.len()),
                    }
                }
            },
        }
    } else {
        pasted(out.push(rest[0]), rest.skip(1), r)
    }
}
pub open spec fn pasted_with<'t>(out: Seq<Token<'t>>, a: Token<'t>, b: Token<'t>, rest: Seq<Token<'t>>, r: Result<Seq<Token<'t>>, ExpansionError>, n: nat) -> bool
    decreases n, 0nat
{
    exists|c: Result<Token<'t>, ExpansionError>| #[trigger] paste(a, b, c) && match c {
        Err(_) => r is Err,
        Ok(t) => rest.len() < n && pasted(out.push(t), rest, r),
    }
}

proof fn lemma_last_operand(s: Seq<Token>)
    ensures last_operand(s) matches Some(i) ==> 0 <= i < s.len() && !(s[i] is Comment),
    decreases s.len(),
{
    if s.len() > 0 && s.last() is Comment { lemma_last_operand(s.drop_last()); }
}
proof fn lemma_first_operand(s: Seq<Token>)
    ensures first_operand(s) matches Some(i) ==> 0 <= i < s.len() && !(s[i] is Comment),
    decreases s.len(),
{
    if s.len() > 0 && s[0] is Comment { lemma_first_operand(s.skip(1)); }
}
/// The right operand of an operator which is followed by `rest0`, and what follows it.
pub open spec fn operands(rest0: Seq<Token>, b: Token, rest: Seq<Token>) -> bool {
    if rest0.len() > 0 && operator(rest0[0]) { b is Placemarker && rest == rest0 }
    else { first_operand(rest0) matches Some(k) && b == rest0[k] && rest == rest0.skip(k + 1) }
}
proof fn lemma_step<'t>(out: Seq<Token<'t>>, left: Seq<Token<'t>>, b: Token<'t>, rest: Seq<Token<'t>>, c: Result<Token<'t>, ExpansionError>, r: Result<Seq<Token<'t>>, ExpansionError>)
    requires
        left.len() > 0, operator(left[0]), applies(out, left.skip(1)), last_operand(out) is Some,
        operands(left.skip(1), b, rest),
        paste(out[last_operand(out)->0], b, c),
        match c { Err(_) => r is Err, Ok(t) => pasted(out.take(last_operand(out)->0).push(t), rest, r) },
    ensures pasted(out, left, r),
{
    let i = last_operand(out)->0;
    lemma_first_operand(left.skip(1));
    assert(pasted_with(out.take(i), out[i], b, rest, r, left.len()));
}
pub open spec fn seq_result<'t>(r: Result<Vec<Token<'t>>, ExpansionError>) -> Result<Seq<Token<'t>>, ExpansionError> {
    match r { Ok(v) => Ok(v@), Err(e) => Err(e) }
}
//@ include fine.vxi
proof fn lemma_unparam(t: Token)
    ensures unparam(t) == !(inner(t) is MacroArg || inner(t) is VarArgs || inner(t) is Comment),
    decreases t,
{
    match t { Token::NonReplacable(b) => { lemma_unparam(*b); }, _ => {} }
}
/// No parameter is the result of pasting.
proof fn lemma_paste_fine()
    ensures forall|a: Token, b: Token, t: Token, va: bool| #![trigger paste(a, b, Ok(t)), fine(a, va)]
        paste(a, b, Ok(t)) && fine(a, va) && fine(b, va) && !parameter(a) && !parameter(b) && !(a is Comment) && !(b is Comment) ==> fine(t, va),
{
    assert forall|a: Token, b: Token, t: Token, va: bool| #![trigger paste(a, b, Ok(t)), fine(a, va)]
        paste(a, b, Ok(t)) && fine(a, va) && fine(b, va) && !parameter(a) && !parameter(b) && !(a is Comment) && !(b is Comment) implies fine(t, va) by {
        lemma_unparam(a); lemma_unparam(b); lemma_unparam(t);
        reveal_with_fuel(inner, 2);
        if t is NonReplacable { lemma_unparam(*t->NonReplacable_0); }
    }
}
impl MacroSet {
//@ fn macro_set/mod.rs MacroSet::expand_concat
//@ attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
    requires good(tokens@),
    ensures
        pasted(Seq::empty(), tokens@, seq_result(r)),
        r matches Ok(v) ==> good(v@) && forall|va: bool| #[trigger] all_fine(tokens@, va) ==> all_fine(v@, va),
//@ at start
    let ghost input = tokens@;
    proof { lemma_paste_fine(); }
//@ before `while let Some(token)`
    let ghost mut left = it@;
//@ loop 1
        invariant
            left == it@,
            good(tokens@),
            good(it@),
            forall|va: bool| #[trigger] all_fine(input, va) ==> all_fine(tokens@, va) && all_fine(it@, va),
            forall|r: Result<Seq<Token<'_>>, ExpansionError>| pasted(tokens@, it@, r) ==> #[trigger] pasted(Seq::empty(), input, r),
        decreases it@.len(),
//@ at loop 1 start
        let ghost out0 = tokens@;
        let ghost rest0 = it@;
        let ghost token0 = token;
        proof {
            str_ext();
            assert(left =~= seq![token] + rest0);
            assert(left.skip(1) =~= rest0);
            lemma_last_operand(out0);
            lemma_first_operand(rest0);
            assert(rest0.skip(0) =~= rest0);
            assert(out0.take(out0.len() as int) =~= out0);
            if operator(token0) && applies(out0, rest0) && last_operand(out0) is Some {
                let i = last_operand(out0)->0;
                if rest0.len() > 0 && operator(rest0[0]) {
                    assert forall|c: Result<Token<'_>, ExpansionError>, r: Result<Seq<Token<'_>>, ExpansionError>|
                        #[trigger] paste(out0[i], Token::Placemarker, c) && c is Err && r is Err
                        implies #[trigger] pasted(Seq::empty(), input, r) by {
                        lemma_step(out0, left, Token::Placemarker, rest0, c, r);
                    }
                    assert forall|c: Result<Token<'_>, ExpansionError>, r: Result<Seq<Token<'_>>, ExpansionError>|
                        #[trigger] paste(out0[i], Token::Placemarker, c) && c is Ok && #[trigger] pasted(out0.take(i).push(c->Ok_0), rest0, r)
                        implies pasted(Seq::empty(), input, r) by {
                        lemma_step(out0, left, Token::Placemarker, rest0, c, r);
                    }
                } else if first_operand(rest0) is Some {
                    let k = first_operand(rest0)->0;
                    assert forall|c: Result<Token<'_>, ExpansionError>, r: Result<Seq<Token<'_>>, ExpansionError>|
                        #[trigger] paste(out0[i], rest0[k], c) && c is Err && r is Err
                        implies #[trigger] pasted(Seq::empty(), input, r) by {
                        lemma_step(out0, left, rest0[k], rest0.skip(k + 1), c, r);
                    }
                    assert forall|c: Result<Token<'_>, ExpansionError>, r: Result<Seq<Token<'_>>, ExpansionError>|
                        #[trigger] paste(out0[i], rest0[k], c) && c is Ok && #[trigger] pasted(out0.take(i).push(c->Ok_0), rest0.skip(k + 1), r)
                        implies pasted(Seq::empty(), input, r) by {
                        lemma_step(out0, left, rest0[k], rest0.skip(k + 1), c, r);
                    }
                }
            }
        }
//@ at loop 1 end
        proof {
            if !(operator(token0) && applies(out0, rest0)) {
                assert(tokens@ == out0.push(token0));
                assert(it@ == rest0);
            } else {
                let i = last_operand(out0)->0;
                assert(last_operand(out0) is Some);
                assert(tokens@.drop_last() =~= out0.take(i));
                assert(tokens@ =~= out0.take(i).push(tokens@.last()));
                if rest0.len() > 0 && operator(rest0[0]) {
                    assert(it@ == rest0);
                    assert(paste(out0[i], Token::Placemarker, Ok(tokens@.last())));
                } else {
                    let k = first_operand(rest0)->0;
                    assert(it@ == rest0.skip(k + 1));
                    assert(paste(out0[i], rest0[k], Ok(tokens@.last())));
                }
            }
            left = it@;
        }
//@ at loop 2 start
        proof { lemma_last_operand(tokens@); }
//@ at loop 3 start
        proof { lemma_first_operand(it@); }
//@ loop 2
        invariant_except_break
            tokens@.len() <= out0.len(),
            tokens@ == out0.take(tokens@.len() as int),
            last_operand(tokens@) == last_operand(out0),
        invariant
            it@ == rest0,
            good(out0),
        ensures
            last_operand(out0) is Some,
            vx_b0 == out0[last_operand(out0)->0],
            tokens@ == out0.take(last_operand(out0)->0),
            0 <= last_operand(out0)->0 < out0.len(),
        decreases tokens@.len(),
//@ loop 3
        invariant_except_break
            it@.len() <= rest0.len(),
            it@ == rest0.skip(rest0.len() - it@.len()),
            first_operand(rest0) == (match first_operand(it@) { Some(k) => Some(k + rest0.len() - it@.len()), None => None }),
        invariant
            good(rest0),
        ensures
            first_operand(rest0) is Some,
            vx_b1 == rest0[first_operand(rest0)->0],
            it@ == rest0.skip(first_operand(rest0)->0 + 1),
            0 <= first_operand(rest0)->0 < rest0.len(),
        decreases it@.len(),
//@ end

//@ fn macro_set/mod.rs MacroSet::remove_placemarkers
    ensures final(tokens)@ == old(tokens)@.filter(|t: Token<'_>| !(t is Placemarker)),
//@ end
}

// ---- results -------------------------------------------------------------------------------------------------------

/// The resulting token; a placemarker gives none, and what is no valid token is an error.
pub open spec fn result(t: Token, params: Seq<Token>, r: Result<Option<MacroToken>, ExpansionError>) -> bool {
    match inner(t) {
        Token::MacroArg(i) => r matches Ok(Some(MacroToken::Arg(a))) && a.index == i,
        Token::VarArgs => r matches Ok(Some(MacroToken::Arg(a))) && a.index == operands_in(params) - 1,
        Token::Punctuation(p) => r matches Ok(Some(MacroToken::Punctuation(q))) && q == p,
        Token::Identifier(p) => r matches Ok(Some(MacroToken::Identifier(q))) && q == p,
        Token::IdentifierContinue(p) => r matches Ok(Some(MacroToken::IdentifierContinue(q))) && q == p,
        Token::Literal(p, _) => r matches Ok(Some(MacroToken::Lit(q))) && q == p,
        Token::Plain(s) => r matches Err(ExpansionError::InvalidToken(x)) && x@ == s@,
        Token::Comment(p) => r matches Ok(Some(MacroToken::Comment(q))) && q == p,
        Token::Placemarker => r matches Ok(None),
        Token::NonReplacable(_) => false,
    }
}
pub open spec fn results<'t>(s: Seq<Token<'t>>, params: Seq<Token<'t>>, out: Seq<MacroToken<'t>>) -> bool
    decreases s.len()
{
    if s.len() == 0 { out.len() == 0 }
    else {
        exists|m: Option<MacroToken<'t>>| #[trigger] result(s.last(), params, Ok(m)) && match m {
            None => results(s.drop_last(), params, out),
            Some(t) => out.len() > 0 && out.last() == t && results(s.drop_last(), params, out.drop_last()),
        }
    }
}
impl<'t> Token<'t> {
//@ fn macro_set/mod.rs Token::detokenize
    requires inner(self) is VarArgs ==> operands_in(arg_names@) > 0,
    ensures result(self, arg_names@, r),
    decreases self,
//@ at start
    proof { reveal_with_fuel(inner, 2); }
//@ end
}
//@ fn macro_set/mod.rs detokenize
//@ attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ rule $x.into_iter().filter_map(|$t| $e.transpose()).collect() ~> { \
//@     let mut it = vx_iter($x); let mut out: Vec<MacroToken<'_>> = Vec::new(); \
//@     while let Some($t) = it.next() { if let Some(m) = $e? { out.push(m) } } Ok(out) }
    requires forall|i: int| 0 <= i < tokens@.len() && inner(#[trigger] tokens@[i]) is VarArgs ==> operands_in(arg_names@) > 0,
    ensures
        r matches Ok(v) ==> results(tokens@, arg_names@, v@),
        r is Err ==> exists|i: int| 0 <= i < tokens@.len() && inner(#[trigger] tokens@[i]) is Plain,
//@ at start
    let ghost input = tokens@;
    proof { assert(input.skip(0) =~= input); assert(input.take(0) =~= Seq::empty()); assert(input.len() == 0 ==> input =~= Seq::empty()); }
//@ loop 1
        invariant
            it@.len() <= input.len(),
            it@ == input.skip(input.len() - it@.len()),
            results(input.take(input.len() - it@.len()), arg_names@, out@),
            it@.len() == 0 ==> input.take(input.len() - it@.len()) == input,
            forall|i: int| 0 <= i < input.len() && inner(#[trigger] input[i]) is VarArgs ==> operands_in(arg_names@) > 0,
        decreases it@.len(),
//@ at loop 1 start
        let ghost k = input.len() - it@.len();
        let ghost out0 = out@;
        proof {
            assert(input[k - 1] == t);
            assert(it@ =~= input.skip(k));
            assert(input.take(k).drop_last() =~= input.take(k - 1));
            assert(input.take(k).last() == t);
            if k == input.len() { assert(input.take(k) =~= input); }
        }
//@ at loop 1 end
        proof {
            if out@ != out0 { assert(out@.drop_last() =~= out0); }
            assert(exists|m: Option<MacroToken<'_>>| #[trigger] result(input[k - 1], arg_names@, Ok(m)));
            assert(results(input.take(k), arg_names@, out@));
        }
//@ end
}
fn main() {}
