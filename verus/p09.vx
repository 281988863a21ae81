//@ # P09: stringification spells the argument's tokens in order.
use vstd::prelude::*;
verus! {
//@ rule Cow::Owned(s.into_bytes()) ~> Bytes::vx_utf8(s)
//@ rule Cow::Borrowed(&[]) ~> Bytes::vx_none()
//@ include expand.vxi
//@ item macro_set/mod.rs MacroSet Clone Default
//@ item macro_set/mod.rs StringifyAction
//@ include fine.vxi

// ---- what an argument is spelled like ------------------------------------------------------------------------------

pub enum Piece { Deferred, Nothing, Text(Seq<char>) }
/// How a token of an argument is stringified.
pub open spec fn piece(t: Token, nested: bool) -> Piece
    decreases t
{
    match t {
        Token::MacroArg(_) => Piece::Deferred,
        Token::VarArgs => Piece::Deferred,
        // The line and file of a use within another macro are only known there.
        Token::Identifier(i) => if nested && (i.id@ == "__LINE__"@ || i.id@ == "__FILE__"@) { Piece::Deferred } else { Piece::Text(i.id@) },
        Token::IdentifierContinue(i) => Piece::Text(i.id_cont@),
        Token::NonReplacable(t) => piece(*t, nested),
        Token::Literal(_, s) => Piece::Text(s@),
        Token::Plain(s) => Piece::Text(s@),
        Token::Punctuation(p) => Piece::Text(p.punctuation@),
        Token::Comment(_) => Piece::Nothing,
        Token::Placemarker => Piece::Nothing,
    }
}
/// What is written: characters, and parts which are only known when the generated macro is used.
pub enum Sym<'t> { Char(char), Deferred(Token<'t>) }
pub open spec fn chars<'t>(s: Seq<char>) -> Seq<Sym<'t>> { s.map_values(|c: char| Sym::Char(c)) }
pub open spec fn syms<'t>(t: Token<'t>, nested: bool) -> Seq<Sym<'t>> {
    match piece(t, nested) {
        Piece::Deferred => seq![Sym::Deferred(t)],
        Piece::Nothing => Seq::empty(),
        Piece::Text(s) => chars(s),
    }
}
/// The spelling of the first `k` tokens, those with a mark having a space in front of them.
pub open spec fn spelling<'t>(ts: Seq<Token<'t>>, nested: bool, spaces: Seq<bool>, k: nat) -> Seq<Sym<'t>>
    decreases k
{
    if k == 0 { Seq::empty() }
    else {
        spelling(ts, nested, spaces, (k - 1) as nat) + (if spaces[k - 1] { chars(seq![' ']) } else { Seq::empty() }) + syms(ts[k - 1], nested)
    }
}
pub open spec fn word_char(c: char) -> bool {
    c == '_' || 'a' <= c <= 'z' || 'A' <= c <= 'Z' || '0' <= c <= '9' || c as u32 >= 0x80
}
/// A token with a letter or digit in it, as names, numbers and most literals are, or one which is not known yet.
pub open spec fn is_word(t: Token, nested: bool) -> bool {
    match piece(t, nested) { Piece::Deferred => true, Piece::Nothing => false, Piece::Text(s) => exists|i: int| 0 <= i < s.len() && #[trigger] word_char(s[i]) }
}
/// The last of the first `k` tokens which is written.
pub open spec fn before(ts: Seq<Token>, nested: bool, k: nat) -> Option<int>
    decreases k
{
    if k == 0 { None }
    else if piece(ts[k - 1], nested) is Nothing { before(ts, nested, (k - 1) as nat) }
    else { Some(k - 1) }
}
/// A space in front of the `k`th token is only between two which are written, and always between two words.
pub open spec fn spaced(ts: Seq<Token>, nested: bool, space: bool, k: nat) -> bool {
    if piece(ts[k as int], nested) is Nothing { !space }
    else {
        match before(ts, nested, k) {
            None => !space,
            Some(j) => is_word(ts[j], nested) && is_word(ts[k as int], nested) ==> space,
        }
    }
}

// ---- how it is generated -------------------------------------------------------------------------------------------

pub enum Part<'t> { Text(Seq<char>), Deferred(Token<'t>) }
pub open spec fn reads<'t>(parts: Seq<Part<'t>>) -> Seq<Sym<'t>>
    decreases parts.len()
{
    if parts.len() == 0 { Seq::empty() }
    else {
        reads(parts.drop_last()) + match parts.last() { Part::Text(s) => chars(s), Part::Deferred(t) => seq![Sym::Deferred(t)] }
    }
}
/// The UTF-8 encoding of a text.
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub axiom fn utf8_empty()
    ensures utf8(Seq::empty()) == Seq::<u8>::empty();
/// The C spelling of a string literal.
pub open spec fn quoted(s: Seq<char>) -> Seq<char> { seq!['"'] + escaped(s) + seq!['"'] }
pub open spec fn escaped(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else {
        let c = s.last();
        escaped(s.drop_last()) + (if c == '"' || c == '\\' { seq!['\\', c] } else { seq![c] })
    }
}
pub open spec fn literal(t: Token, s: Seq<char>) -> bool {
    t matches Token::Literal(l, r) && l matches Lit::String(l) && l matches LitString::Ordinary(b) && b@ == utf8(s) && r@ == quoted(s)
}
pub open spec fn writes<'t>(parts: Seq<Part<'t>>, out: Seq<Token<'t>>) -> bool
    decreases parts.len()
{
    if parts.len() == 0 { out.len() == 0 }
    else {
        match parts.last() {
            Part::Text(s) => out.len() > 0 && literal(out.last(), s) && writes(parts.drop_last(), out.drop_last()),
            Part::Deferred(t) => out.len() > 1 && out.last() == t && punct(out[out.len() - 2], "#"@)
                && writes(parts.drop_last(), out.take(out.len() - 2)),
        }
    }
}
/// No string is split in two.
pub open spec fn whole(parts: Seq<Part>) -> bool {
    parts.len() > 0 && forall|i: int| 0 < i < parts.len() ==> !(#[trigger] parts[i] is Text && parts[i - 1] is Text)
}
/// `out` is the stringification of an argument.
pub open spec fn stringified<'t>(ts: Seq<Token<'t>>, nested: bool, out: Seq<Token<'t>>) -> bool {
    exists|parts: Seq<Part<'t>>, spaces: Seq<bool>| {
        &&& #[trigger] writes(parts, out)
        &&& whole(parts)
        &&& reads(parts) == #[trigger] spelling(ts, nested, spaces, ts.len())
        &&& forall|k: int| 0 <= k < ts.len() ==> spaced(ts, nested, #[trigger] spaces[k], k as nat)
    }
}
/// An argument without deferred parts is one string.
pub proof fn lemma_one_string<'t>(ts: Seq<Token<'t>>, nested: bool, out: Seq<Token<'t>>)
    requires stringified(ts, nested, out), forall|i: int| 0 <= i < ts.len() ==> !(piece(#[trigger] ts[i], nested) is Deferred),
    ensures
        out.len() == 1,
        exists|spaces: Seq<bool>, s: Seq<char>| chars(s) == #[trigger] spelling(ts, nested, spaces, ts.len()) && #[trigger] literal(out[0], s)
            && forall|k: int| 0 <= k < ts.len() ==> spaced(ts, nested, #[trigger] spaces[k], k as nat),
{
    let (parts, spaces) = choose|parts: Seq<Part<'t>>, spaces: Seq<bool>| {
        &&& #[trigger] writes(parts, out)
        &&& whole(parts)
        &&& reads(parts) == #[trigger] spelling(ts, nested, spaces, ts.len())
        &&& forall|k: int| 0 <= k < ts.len() ==> spaced(ts, nested, #[trigger] spaces[k], k as nat)
    };
    lemma_known(ts, nested, spaces, ts.len());
    lemma_text_parts(parts);
    if parts.len() > 1 { assert(parts[1] is Text && parts[0] is Text); }
    let s = parts[0]->Text_0;
    assert(parts.drop_last() =~= Seq::empty());
    reveal_with_fuel(reads, 2);
    reveal_with_fuel(writes, 2);
    assert(reads(parts) =~= chars(s));
    assert(literal(out[0], s));
}
proof fn lemma_known(ts: Seq<Token>, nested: bool, spaces: Seq<bool>, k: nat)
    requires k <= ts.len(), forall|i: int| 0 <= i < ts.len() ==> !(piece(#[trigger] ts[i], nested) is Deferred),
    ensures forall|i: int| 0 <= i < spelling(ts, nested, spaces, k).len() ==> #[trigger] spelling(ts, nested, spaces, k)[i] is Char,
    decreases k,
{
    if k > 0 { lemma_known(ts, nested, spaces, (k - 1) as nat); }
}
proof fn lemma_text_parts(parts: Seq<Part>)
    requires forall|i: int| 0 <= i < reads(parts).len() ==> #[trigger] reads(parts)[i] is Char,
    ensures forall|i: int| 0 <= i < parts.len() ==> #[trigger] parts[i] is Text,
    decreases parts.len(),
{
    if parts.len() > 0 {
        let p = parts.drop_last();
        assert forall|i: int| 0 <= i < reads(p).len() implies #[trigger] reads(p)[i] is Char by {
            assert(reads(parts)[i] == reads(p)[i]);
        }
        lemma_text_parts(p);
        if parts.last() is Deferred {
            assert(reads(parts)[reads(p).len() as int] is Deferred);
        }
        assert forall|i: int| 0 <= i < parts.len() implies #[trigger] parts[i] is Text by {
            if i < p.len() { assert(parts[i] == p[i]); }
        }
    }
}

/// `e` is the macro expansion of an argument (P08).
pub uninterp spec fn expanded<'t>(set: MacroSet, names: Set<Seq<char>>, a: Seq<Token<'t>>, e: Seq<Token<'t>>) -> bool;
pub uninterp spec fn inner_error(e: ExpansionError) -> bool;
proof fn lemma_written(parts: Seq<Part>, out: Seq<Token>)
    requires writes(parts, out), parts.len() > 0,
    ensures out.len() > 0,
{ }
/// The last token of a stringification is no operator.
pub proof fn lemma_stringified<'t>(ts: Seq<Token<'t>>, nested: bool, out: Seq<Token<'t>>)
    requires stringified(ts, nested, out),
    ensures last_operand(out) is Some, forall|s: Seq<char>| !ends_with_op(out, s),
{
    let (parts, spaces) = choose|parts: Seq<Part<'t>>, spaces: Seq<bool>| {
        &&& #[trigger] writes(parts, out)
        &&& whole(parts)
        &&& reads(parts) == #[trigger] spelling(ts, nested, spaces, ts.len())
        &&& forall|k: int| 0 <= k < ts.len() ==> spaced(ts, nested, #[trigger] spaces[k], k as nat)
    };
    if parts.last() is Deferred {
        let t = parts.last()->Deferred_0;
        let r = reads(parts);
        assert(r.last() == Sym::Deferred(t));
        lemma_deferred(ts, nested, spaces, ts.len(), r.len() - 1);
        assert(out.last() == t);
    }
    lemma_last_at(out, out.len() - 1);
}
/// Deferred parts are parameters or names.
proof fn lemma_deferred<'t>(ts: Seq<Token<'t>>, nested: bool, spaces: Seq<bool>, k: nat, i: int)
    requires k <= ts.len(), 0 <= i < spelling(ts, nested, spaces, k).len(), spelling(ts, nested, spaces, k)[i] is Deferred,
    ensures piece(spelling(ts, nested, spaces, k)[i]->Deferred_0, nested) is Deferred,
    decreases k,
{
    if k > 0 {
        let a = spelling(ts, nested, spaces, (k - 1) as nat);
        if i < a.len() { lemma_deferred(ts, nested, spaces, (k - 1) as nat, i); }
    }
}
/// Deferred parts are tokens of the argument.
proof fn lemma_deferred_from<'t>(ts: Seq<Token<'t>>, nested: bool, spaces: Seq<bool>, k: nat, va: bool)
    requires k <= ts.len(), all_fine(ts, va),
    ensures forall|i: int| 0 <= i < spelling(ts, nested, spaces, k).len() ==> fine_sym(#[trigger] spelling(ts, nested, spaces, k)[i], va),
    decreases k,
{
    if k > 0 {
        lemma_deferred_from(ts, nested, spaces, (k - 1) as nat, va);
        let s = spelling(ts, nested, spaces, k);
        let a = spelling(ts, nested, spaces, (k - 1) as nat);
        let b = if spaces[k - 1] { chars::<'t>(seq![' ']) } else { Seq::empty() };
        let c = syms(ts[k - 1], nested);
        assert(s == a + b + c);
        assert forall|i: int| 0 <= i < s.len() implies fine_sym(#[trigger] s[i], va) by {
            if i < a.len() { assert(s[i] == a[i]); assert(fine_sym(a[i], va)); }
            else if i < a.len() + b.len() { assert(s[i] == b[i - a.len()]); }
            else { assert(s[i] == c[i - a.len() - b.len()]); assert(fine(ts[k - 1], va)); }
        }
    }
}
pub open spec fn fine_sym(s: Sym, va: bool) -> bool { s matches Sym::Deferred(t) ==> fine(t, va) }
/// Stringification makes no parameters and variable arguments.
proof fn lemma_written_fine<'t>(parts: Seq<Part<'t>>, out: Seq<Token<'t>>, va: bool)
    requires writes(parts, out), forall|i: int| 0 <= i < reads(parts).len() ==> fine_sym(#[trigger] reads(parts)[i], va),
    ensures all_fine(out, va),
    decreases parts.len(),
{
    if parts.len() > 0 {
        let p = parts.drop_last();
        assert forall|i: int| 0 <= i < reads(p).len() implies fine_sym(#[trigger] reads(p)[i], va) by {
            assert(reads(parts)[i] == reads(p)[i]);
        }
        match parts.last() {
            Part::Text(s) => {
                lemma_written_fine(p, out.drop_last(), va);
                assert forall|i: int| 0 <= i < out.len() implies fine(#[trigger] out[i], va) by {
                    if i < out.len() - 1 { assert(out[i] == out.drop_last()[i]); } else { assert(literal(out[i], s)); }
                }
            }
            Part::Deferred(t) => {
                let n = (out.len() - 2) as int;
                assert(reads(parts)[reads(p).len() as int] == Sym::Deferred(t));
                lemma_written_fine(p, out.take(n), va);
                assert(fine_sym(reads(parts)[reads(p).len() as int], va));
                assert forall|i: int| 0 <= i < out.len() implies fine(#[trigger] out[i], va) by {
                    if i < n { assert(out[i] == out.take(n)[i]); } else if i == n { assert(punct(out[i], "#"@)); }
                }
            }
        }
    }
}
pub proof fn lemma_stringified_fine<'t>(ts: Seq<Token<'t>>, nested: bool, out: Seq<Token<'t>>, va: bool)
    requires stringified(ts, nested, out), all_fine(ts, va),
    ensures all_fine(out, va),
{
    let (parts, spaces) = choose|parts: Seq<Part<'t>>, spaces: Seq<bool>| {
        &&& #[trigger] writes(parts, out)
        &&& whole(parts)
        &&& reads(parts) == #[trigger] spelling(ts, nested, spaces, ts.len())
        &&& forall|k: int| 0 <= k < ts.len() ==> spaced(ts, nested, #[trigger] spaces[k], k as nat)
    };
    lemma_deferred_from(ts, nested, spaces, ts.len(), va);
    lemma_written_fine(parts, out, va);
}
//@ include args.vxi

// ---- shims ---------------------------------------------------------------------------------------------------------

impl<'t> Bytes<'t> {
    #[verifier::external_body]
    pub fn vx_utf8(s: String) -> (r: Self)
        ensures r@ == utf8(s@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_none() -> (r: Self)
        ensures r@ == Seq::<u8>::empty(),
    { unimplemented!() }
}
pub open spec fn replaced(s: Seq<char>, c: char, by: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else { replaced(s.drop_last(), c, by) + (if s.last() == c { by } else { seq![s.last()] }) }
}
#[verifier::external_body]
pub fn vx_replace(s: &str, c: char, by: &str) -> (r: String)
    ensures r@ == replaced(s@, c, by@),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_quote(s: &str) -> (r: String)
    ensures r@ == seq!['"'] + s@ + seq!['"'],
{ unimplemented!() }
//@ rule $s.replace($c, $by) ~> vx_replace(&$s, $c, $by)
//@ rule format!("\"{}\"", $s) ~> vx_quote(&$s)
proof fn lemma_replaced_concat(a: Seq<char>, b: Seq<char>, c: char, by: Seq<char>)
    ensures replaced(a + b, c, by) == replaced(a, c, by) + replaced(b, c, by),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(replaced(a, c, by) + replaced(b, c, by) =~= replaced(a, c, by));
    } else {
        lemma_replaced_concat(a, b.drop_last(), c, by);
        assert((a + b).drop_last() =~= a + b.drop_last());
        let x = if b.last() == c { by } else { seq![b.last()] };
        assert(replaced(a, c, by) + (replaced(b.drop_last(), c, by) + x) =~= (replaced(a, c, by) + replaced(b.drop_last(), c, by)) + x);
    }
}
proof fn lemma_escaped(s: Seq<char>)
    ensures replaced(replaced(s, '\\', seq!['\\', '\\']), '"', seq!['\\', '"']) == escaped(s),
    decreases s.len(),
{
    if s.len() > 0 {
        let c = s.last();
        let x = if c == '\\' { seq!['\\', '\\'] } else { seq![c] };
        lemma_escaped(s.drop_last());
        lemma_replaced_concat(replaced(s.drop_last(), '\\', seq!['\\', '\\']), x, '"', seq!['\\', '"']);
        reveal_with_fuel(replaced, 3);
        if c == '\\' { assert(x.drop_last() =~= seq!['\\']); assert(replaced(x, '"', seq!['\\', '"']) =~= x); }
        else { assert(x.drop_last() =~= Seq::empty()); assert(replaced(x, '"', seq!['\\', '"']) =~= if c == '"' { seq!['\\', '"'] } else { seq![c] }); }
    }
}
// ---- the functions -------------------------------------------------------------------------------------------------

impl<'t> Token<'t> {
//@ fn macro_set/mod.rs Token::stringify
    ensures
        match piece(*self, nested) {
            Piece::Deferred => r is Keep,
            Piece::Nothing => r is Skip,
            Piece::Text(s) => r matches StringifyAction::Append(t) && t@ == s,
        },
    decreases *self,
//@ at start
    proof { str_ext(); }
//@ end
}
//@ fn macro_set/mod.rs stringify/string_literal
    ensures literal(r, s@),
//@ at start
    proof {
        reveal_strlit("\\\\"); reveal_strlit("\\\"");
        assert("\\\\"@ =~= seq!['\\', '\\']); assert("\\\""@ =~= seq!['\\', '"']);
        lemma_escaped(s@);
    }
//@ end
#[verifier::external_body]
pub fn vx_ends_with(a: &str, c: char) -> (r: bool)
    ensures r == (a@.len() > 0 && a@.last() == c),
{ a.ends_with(c) }
#[verifier::external_body]
pub fn vx_starts_with(a: &str, c: char) -> (r: bool)
    ensures r == (a@.len() > 0 && a@[0] == c),
{ a.starts_with(c) }
proof fn lemma_not_words()
    ensures
        ")"@.len() == 1, !word_char(")"@[0]), "("@.len() == 1, !word_char("("@[0]), "]"@.len() == 1, !word_char("]"@[0]), "["@.len() == 1, !word_char("["@[0]),
        "}"@.len() == 1, !word_char("}"@[0]), "{"@.len() == 1, !word_char("{"@[0]), "."@.len() == 1, !word_char("."@[0]), ","@.len() == 1, !word_char(","@[0]),
{
    reveal_strlit("("); reveal_strlit(")"); reveal_strlit("["); reveal_strlit("]"); reveal_strlit("{"); reveal_strlit("}");
    reveal_strlit(","); reveal_strlit(".");
}
pub open spec fn held(s: Option<String>) -> Seq<char> { match s { Some(s) => s@, None => Seq::empty() } }
/// What is written after some tokens.
pub open spec fn written<'t>(ts: Seq<Token<'t>>, nested: bool, parts: Seq<Part<'t>>, spaces: Seq<bool>, out: Seq<Token<'t>>, cur: Option<String>, space: bool) -> bool {
    let k = spaces.len();
    &&& writes(parts, out)
    &&& parts.len() > 0 ==> parts.last() is Deferred
    &&& forall|i: int| 0 < i < parts.len() ==> !(#[trigger] parts[i] is Text && parts[i - 1] is Text)
    &&& reads(parts) + chars(held(cur)) == spelling(ts, nested, spaces, k)
    &&& forall|i: int| 0 <= i < k ==> spaced(ts, nested, #[trigger] spaces[i], i as nat)
    &&& match before(ts, nested, k) {
        None => !space,
        Some(j) => is_word(ts[j], nested) ==> space,
    }
}
proof fn lemma_spaces(ts: Seq<Token>, nested: bool, spaces: Seq<bool>, b: bool, k: nat)
    requires k <= spaces.len(),
    ensures spelling(ts, nested, spaces.push(b), k) == spelling(ts, nested, spaces, k),
    decreases k,
{
    if k > 0 { lemma_spaces(ts, nested, spaces, b, (k - 1) as nat); }
}
mod done {
use super::*;
pub broadcast proof fn lemma_done<'t>(ts: Seq<Token<'t>>, nested: bool, parts: Seq<Part<'t>>, spaces: Seq<bool>, out: Seq<Token<'t>>, cur: Option<String>, space: bool)
    requires #[trigger] written(ts, nested, parts, spaces, out, cur, space), spaces.len() == ts.len(),
    ensures
        cur is None && out.len() > 0 ==> stringified(ts, nested, out),
        cur matches Some(s) ==> forall|o: Token<'t>| #[trigger] literal(o, s@) ==> stringified(ts, nested, out.push(o)),
        cur is None && out.len() == 0 ==> forall|v: Seq<Token<'t>>| v.len() == 1 && literal(v[0], Seq::empty()) ==> #[trigger] stringified(ts, nested, v),
{
    assert(reads(parts) + chars(Seq::<char>::empty()) =~= reads(parts));
    let s = held(cur);
    let q = parts.push(Part::Text(s));
    assert(q.drop_last() =~= parts);
    assert(whole(q));
    assert(reads(q) == spelling(ts, nested, spaces, ts.len()));
    assert forall|o: Token<'t>| #[trigger] literal(o, s) implies stringified(ts, nested, out.push(o)) by {
        assert(out.push(o).drop_last() =~= out);
        assert(writes(q, out.push(o)));
    }
    if cur is None && out.len() == 0 {
        assert(out =~= Seq::empty());
        assert forall|v: Seq<Token<'t>>| v.len() == 1 && literal(v[0], Seq::empty()) implies #[trigger] stringified(ts, nested, v) by {
            assert(out.push(v[0]) =~= v);
        }
    }
    if cur is None && out.len() > 0 { assert(writes(parts, out)); assert(whole(parts)); }
}
}
//@ fn macro_set/mod.rs stringify
//@ opt for-next
//@ rule token == $s ~> vx_str_eq(token, $s)
//@ rule token != $s ~> !vx_str_eq(token, $s)
//@ rule token.ends_with($c) ~> vx_ends_with(token, $c)
//@ rule token.starts_with($c) ~> vx_starts_with(token, $c)
//@ attr #[verifier::loop_isolation(false)]
    ensures stringified(tokens@, nested, r@),
//@ at start
    broadcast use done::lemma_done;
    proof {
        utf8_empty();
        assert(quoted(Seq::empty()) =~= seq!['"', '"']);
        reveal_strlit("\"\"");
        assert("\"\""@ =~= seq!['"', '"']);
    }
    let ghost ts = tokens@;
    let ghost mut parts = Seq::<Part>::empty();
    let ghost mut spaces = Seq::<bool>::empty();
//@ loop 1
        invariant
            vx_it0@.len() <= ts.len(),
            vx_it0@ == ts.skip(ts.len() - vx_it0@.len()),
            spaces.len() == ts.len() - vx_it0@.len(),
            written(ts, nested, parts, spaces, tokens@, current_string, space_before_next),
        decreases vx_it0@.len(),
//@ at loop 1 start
        let ghost k = spaces.len();
        let ghost t = ts[k as int];
        let ghost cur = held(current_string);
        proof {
            assert(t == token);
            assert(vx_it0@ =~= ts.skip((k + 1) as int));
            lemma_spaces(ts, nested, spaces, true, k);
            lemma_spaces(ts, nested, spaces, false, k);
            lemma_not_words();
            assert forall|s: Seq<char>| #![trigger reads(parts.push(Part::Text(s)))] writes(parts, tokens@) implies
                reads(parts.push(Part::Text(s))) == reads(parts) + chars(s)
                && forall|o: Token| #[trigger] literal(o, s) ==> writes(parts.push(Part::Text(s)), tokens@.push(o)) by {
                assert(parts.push(Part::Text(s)).drop_last() =~= parts);
                assert forall|o: Token| #[trigger] literal(o, s) implies writes(parts.push(Part::Text(s)), tokens@.push(o)) by {
                    assert(tokens@.push(o).drop_last() =~= tokens@);
                }
            }
            if piece(t, nested) is Nothing {
                spaces = spaces.push(false);
                assert(spelling(ts, nested, spaces, (k + 1) as nat) =~= spelling(ts, nested, spaces, k));
            } else if piece(t, nested) is Deferred {
                let text = if space_before_next { cur.push(' ') } else { cur };
                spaces = spaces.push(space_before_next);
                let p = parts;
                assert(reads(p) + chars(Seq::<char>::empty()) =~= reads(p));
                assert(reads(p) + chars(text) =~= reads(p) + chars(cur) + (if space_before_next { chars(seq![' ']) } else { Seq::empty() }));
                let _ = reads(p.push(Part::Text(text)));
                parts = if current_string is Some || space_before_next { parts.push(Part::Text(text)) } else { parts };
                let q = parts.push(Part::Deferred(t));
                assert(q.drop_last() =~= parts);
                assert(reads(q) =~= spelling(ts, nested, spaces, (k + 1) as nat));
                assert forall|out: Seq<Token>, h: Token| #![trigger out.push(h).push(t)] writes(parts, out) && punct(h, "#"@) implies writes(q, out.push(h).push(t)) by {
                    assert(out.push(h).push(t).take(out.len() as int) =~= out);
                }
                assert(reads(q) + chars(Seq::<char>::empty()) =~= reads(q));
                parts = q;
            }
        }
//@ at loop 1 end
        proof {
            let text = piece(t, nested)->Text_0;
            let now = current_string->0@;
            let sp = now != cur + text;
            spaces = spaces.push(sp);
            assert(cur + seq![' '] =~= cur.push(' '));
            assert(chars(cur + text) =~= chars(cur) + chars(text));
            assert(chars(cur.push(' ') + text) =~= chars(cur) + chars(seq![' ']) + chars(text));
            assert(reads(parts) + chars(Seq::<char>::empty()) =~= reads(parts));
            assert(reads(parts) + chars(now) =~= spelling(ts, nested, spaces, (k + 1) as nat));
        }
//@ end

impl MacroSet {
    #[verifier::external_body]
    pub fn expand_macro_body<'s, 't>(&'s self, non_replaced_names: VSet<'_>, body: &Vec<Token<'t>>) -> (r: Result<Vec<Token<'t>>, ExpansionError>)
        ensures match r { Ok(e) => expanded(*self, non_replaced_names@, body@, e@), Err(e) => inner_error(e) },
    { unimplemented!() }
//@ include expand_arguments.vxi
}
}
fn main() {}
