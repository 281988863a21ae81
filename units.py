# Which verifier units decide which property: (back end, unit, extra options).
UNITS = {
    "P03": [("verus", "p03", ["--rlimit", "60"]), ("verus", "plit", ["--rlimit", "60"]), ("verus", "ptok", ["--rlimit", "60"])],
    "P04": [("verus", "p04", ["--rlimit", "60"]), ("verus", "plit", ["--rlimit", "60"]), ("verus", "ptok", ["--rlimit", "60"])],
    "P01": [("verus", "p01", []), ("verus", "plit", ["--rlimit", "60"])],
    "P05": [("verus", "p05", ["--rlimit", "60"])],
    "P15": [("verus", "p15", ["--rlimit", "60"]), ("verus", "plit", ["--rlimit", "60"])],
    "P02": [("verus", "p02", [])],
    "P06": [("verus", "p06", [])],
    "P07": [("verus", "p07", [])],
    "P08": [("verus", "p08", ["--rlimit", "60"])],
    "P09": [("verus", "p09", ["--rlimit", "60"])],
    "P10": [("verus", "p10", ["--rlimit", "60"]), ("verus", "p10a", ["--rlimit", "60"])],
    "P11": [("verus", "p11", ["--rlimit", "60"]), ("verus", "p11m", ["--rlimit", "60"]), ("verus", "p12", ["--rlimit", "60"])],
    "P12": [("verus", "p12", ["--rlimit", "60"]), ("verus", "p12g", [])],
    "P13": [("verus", "p13", ["--rlimit", "60"])],
    "P14": [("verus", "p14", [])],
    "P16": [("verus", "p16", ["--rlimit", "60"])],
    "P17": [("verus", "p17", ["--rlimit", "100"]), ("verus", "p17g", []), ("verus", "p11m", ["--rlimit", "60"])],
    "P18": [("verus", "p18", ["--rlimit", "60"]), ("verus", "p18o", ["--rlimit", "60"]), ("verus", "p18g", [])],
}
# Seconds for the bounded exploration.
NATIVE_SECONDS = {}
# What is trusted beyond what a scan of the verified file finds.
COMMON = [
    "vx: the extraction (expansion of macro_rules, quote! as a sequence of pushes, the rewriting rules listed per function under `rewrites`)",
    "proc_macro2/quote/syn/nom/std: their documented behaviour, as stated in the shims (external_body)",
    "rustc, Verus, Z3",
]
TRUSTED = {
    "P03": COMMON + [
        "nom's char, tag, one_of, none_of, anychar as functions of the remaining text (lex.vxi: nom_*); char::to_digit",
        "the code which is generated for the literal is P16",
    ],
    "P04": COMMON + [
        "nom's char, tag, is_not, none_of, anychar as functions of the remaining text (lex.vxi: nom_*); char::to_digit",
        "str::from_utf8, String::from_utf8, String::from_utf16, char::encode_utf8/16 as the UTF-8 (vstd) and UTF-16 (string.vxi) encodings and their partial inverses",
        "the code which is generated for the literal is P16",
    ],
    "P01": COMMON + [
        "nom's char, tag, one_of, digit1 .. (lex.vxi: nom_*) as functions of the remaining text, and i128::from_str_radix/char::to_digit as the value of a digit",
    ],
    "P05": COMMON + [
        "nom's char, tag, anychar, satisfy, take_until (lex.vxi, token.vxi: nom_*) as functions of the remaining text; str::strip_prefix; equality of str",
        "unicode_ident::is_xid_start/is_xid_continue are left abstract except for ASCII (axiom xid_ascii)",
        "the contracts of the parsers of integer, character, string and floating-point literals, which are discharged in P01, P03, P04 and P15",
    ],
    "P16": COMMON + [
        "proc_macro2's Literal::character, byte_string, u8/u16/u32/usize_(un)suffixed denote the character, bytes or number they are made from (tokens.vxi), and quote! as in P12",
        "str::as_bytes, str::encode_utf16, str::chars as the encodings of enc.vxi; Iterator::chain, map and collect keep the order of the elements (Each)",
        "the type which the context gives for wchar_t, Type::from_rust_ty and Type::finish are abstract (a type which is none of C's makes from_rust_ty's unwrap panic); that a character is wrapped in the cast to its type (Expr::finish), and which Rust versions elide `'static` and have CStr (LocalContext::new) are covered by the bounded exploration only",
        "the code of integer and floating-point literals is P13 and P15",
    ],
    "P17": COMMON + [
        "nom's combinators, among them permutation, many0, separated_list0 and eof, as unfolded by vx; Vec::remove, Option::unwrap_or_default (vstd)",
        "how expressions, types and names are parsed is under contract in P11 and P12 (assumed here); their code and what `finish` makes of them are abstract relations (under contract in P02, P12, P13)",
        "`iter().map(f).collect()` as a loop over the elements in their order; Rust's statement syntax, as stated by stmt_code in p17g.vx",
        "`asm` statements are left abstract",
    ],
    "P18": COMMON + [
        "what the context says (functions, enumeration constants, types of parameters) is an abstract function of the name; Type::from_rust_ty is abstract",
        "what finishing a body yields is one abstract outcome of the body and the context (outcome) in p18g.vx; p18.vx states what every such outcome notes and p18o.vx that nothing else is noted; the type of the result is covered by the bounded exploration (the type of an expression is also under contract in P13)",
        "concatenation of strings is left abstract; the code of bodies, types and strings is abstract (under contract in P12, P13, P16, P17)",
        "quote!'s repetition as in tokens.vxi, `iter().map(f).collect()` and `all` as loops over the elements in their order; how the code of a body spells a parameter is P13 and the bounded exploration",
    ],
    "P15": COMMON + [
        "str::parse::<f32/f64> (through nom's ParseTo) reads every decimal floating-point number and yields the nearest value (nearest32, nearest64 are abstract); the bounded exploration compares it with the C library",
        "f32/f64::classify and is_sign_positive are left abstract; proc_macro2's unsuffixed float literals denote the number they are made from (compared in the bounded exploration)",
        "the contracts of the parsers of other literals, which are discharged in P01, P03 and P04",
    ],
    "P02": COMMON + [
        "floating-point arithmetic is left abstract",
        "Expr::finish: its ConcatString arm is replaced by an arbitrary string expression (it contains no integer arithmetic)",
        "termination of the recursive `finish` functions is not proved (exec_allows_no_decreases_clause)",
        "Var::finish, Stringify::finish, IdentifierExpr::finish and Type::finish do not touch the expression they are called on (external_body); the signature of a C function, which FunctionCall::finish asks the user for, is arbitrary",
    ],
    "P06": COMMON + [
        "HashMap<String, _> as a finite map of texts (VMap), str::trim/starts_with/ends_with, Iterator::eq and map/collect over the given tokens",
        "how a looked-up definition is expanded is left abstract (a function of the table, the name, its parameters and its body); it is under contract in P07 to P10",
    ],
    "P07": COMMON + [
        "Peekable<IntoIter>, Cloned<Iter> and the iterator adaptors over tokens (VIter, vx_cloned, vx_all, vx_any, ..) as sequences",
        "the search for a parameter which is not unique (vx_duplicate) is left abstract",
        "the expansion of arguments and of the body is left abstract in this unit (inner_error): it is under contract in P08 to P10",
    ],
    "P08": COMMON + [
        "Peekable<IntoIter>, Cloned<Iter> and the iterator adaptors over tokens (VIter, vx_*), HashMap and HashSet of names as finite maps and sets of texts (VMap, VSet)",
        "Token::from_str is an arbitrary function here (P05); how tokens are pasted, stringified and translated are abstract relations (under contract in P10 and P09), of which only that they make no parameters or variable arguments is used - which is proved there",
        "which error is returned is not specified here (arity and pasting: P07 and P10)",
        "the size of the stack: every recursion is bounded by the number of macros, not by a constant",
    ],
    "P09": COMMON + [
        "String, Option<String>, str::replace, format!, Cow and the iterators over tokens as texts and sequences (vstd and VxText, VIter, vx_*); UTF-8 encoding is left abstract",
        "the macro expansion of arguments which are no operands of `#` or `##` is left abstract: it is under contract in P08",
    ],
    "P10": COMMON + [
        "Cow<str>, String, Peekable<IntoIter> and Vec::retain as texts and sequences (Str, VIter, vx_*)",
        "how a spelling is classified is left abstract (ident_of, lit_of, continue_of); it is decided in P01 and P03 to P05",
    ],
    "P11": COMMON + [
        "LitString::parse, LitChar::parse and Lit::parse are left abstract functions of the tokens (they are under contract in P03 and P04)",
        "the parts of a word like `123def` in a name which is pasted with `##` are left abstract (split_word)",
        "how statements are parsed (Statement::parse) is under contract in P17; unicode_ident's classes of characters are abstract",
    ],
    "P12": COMMON + [
        "the parts of a word like `123def` in a name which is pasted with `##` are left abstract (split_word)",
        "the code of names is left abstract; proc_macro2::Ident::new and syn::parse_quote! as the tokens written",
        "types which the context gives for names (resolve_ty, Type::finish, Type::from_rust_ty) are covered by the bounded exploration only",
    ],
    "P13": COMMON + [
        "Rust's expression grammar (precedence levels, associativity, blocks as statements, types before `<`), as stated by `code` in p13.vx",
        "the code of variables, calls, literals, strings and types is left abstract (external_body); string concatenation is replaced by an arbitrary block",
    ],
    "P14": COMMON + [
        "Expr::to_token_stream and Type::to_token_stream are left abstract (they are under contract in P13/P12)",
    ],
}
NOTES = {
    "P18": "Every obligation of the `finish` functions of expressions, names, types, declarations, statements and bodies is discharged: whatever demands a macro or another fragment for a parameter is noted in the context and stays so, whatever the rest of the body is; and nothing else is noted: a parameter's type or fragment changes only to one which some part of the body gives it. So is every obligation of FnMacro::generate, VarMacro::generate and LocalContext::is_variadic: the item is a function exactly under the stated conditions, with its parameters, types, fragments and result in their order, or the stated error.",
    "P17": "Every obligation of Statement::parse and parse_single (each alternative with a contract of its own), VarDecl::parse, FunctionDecl::parse, MacroBody::parse and of Statement, VarDecl and FunctionDecl::finish, to_tokens and to_token_stream is discharged, termination included: for all token sequences the tree is the one the specification reads, `finish` keeps its structure, and the code has the same statements in the same order under the same conditions; expressions, types and names are abstract in the code.",
    "P05": "Every obligation of universal_char, Identifier::parse_str, IdentifierContinue::parse_str, their try_from, Lit::parse_str, Lit::try_from, Punctuation::try_from, Comment::try_from and Token::from_str is discharged for all texts: the kind, the decoded letters and the text of every token are the ones the specification gives its spelling.",
    "P16": "Every obligation of LitString::to_token_stream, LitString::finish, wchar_literal, quote_static_ref, LitChar::to_tokens, LitChar::finish, Lit::to_tokens and Lit::finish is discharged: a string's code is an array, a CStr or a pointer to an array of exactly its contents and a terminating zero, with the length and unit type to match, and a character's code is its number, for all literals.",
    "P15": "Every obligation of LitFloatSuffix::parse, LitFloat::parse_str, LitFloat::try_from, Lit::parse_str, Lit::try_from and LitFloat::to_tokens is discharged: a spelling is accepted exactly when it is a decimal floating constant, with its suffix's type, and the code generated denotes the value.",
    "P03": "Every obligation of the escape-sequence parsers, LitCharPrefix::parse, LitChar::parse_unprefixed, with_prefix, parse_str and LitChar::try_from(&str) is discharged: a spelling is accepted exactly when it is a character constant whose number fits its prefix, with exactly that number, for all texts; LitChar::parse takes exactly the literal tokens.",
    "P04": "Every obligation of the escape-sequence parsers and of LitString::parse_ordinary, parse_utf8, parse_utf16, parse_utf32, parse_wide, parse_str and LitString::try_from(&str) is discharged: a spelling is accepted exactly when it is a string literal which its encoding can hold, with exactly its content, for all texts; LitString::parse concatenates adjacent literals under the one encoding they have, for all token sequences.",
    "P01": "Every obligation of LitInt::parse_i128, parse_suffix, parse_str, LitInt::try_from(&str) and of the suffix parsers is discharged: a spelling is accepted exactly when it is an integer constant which fits, with exactly its value and type, for all texts.",
    "P11": "Every obligation of VarMacro::parse, FnMacro::parse, FnMacro::parse_args, MacroBody::parse, is_identifier and of the recursive-descent parser (Expr::parse, parse_term_prec1 to 14, parse_cast_ty, parse_factor, parse_concat_string, with names, stringification and types) is discharged, termination included: for all token sequences it returns the tree, and what follows it, which a table of C's operators by level gives, and an error where there is none.",
    "P12": "Every obligation of const_volatile_qualifier, int_ty (with int_signedness, int_length), ty, Type::parse, Type::qualify, TypeQualifier::or, and of BuiltInType::to_rust_ty, Type::to_tokens and to_token_stream is discharged: for all token sequences the parsed type and what follows it are the ones the specification gives, and the code of every type is the FFI type with the pointers it has.",
    "P13": "Every obligation of the recursive code generator for expressions is discharged for all trees which C allows; leaves (names, calls, literals, strings, types) are abstract.",
    "P02": "Every obligation of the LitInt operators and of the `finish` functions is discharged for all 128-bit values and all trees; floating-point values and names are abstract.",
    "P06": "Every obligation of MacroSet::new, define_*, undefine_*, is_whitespace and the lookups of expand_*_macro is discharged against a table of latest definitions, for all histories (an invariant and a transition per operation).",
    "P07": "Every obligation of collect_args (matching, splitting, nothing consumed without a call) and of the arity check in expand_fn_macro_body is discharged for all token sequences.",
    "P08": "Every obligation of tokenize, collect_args, exclude_calls, expand_var_macro_body, expand_fn_macro_body, expand_arguments, expand_macro_body, expand_var_macro and expand_fn_macro is discharged for all token sequences and tables: the result is derivable by the rescanning rules (no macro inside its own expansion, painted names stay so, arguments expanded on their own), nothing replaceable is left, no index is out of range, and the expansion terminates.",
    "P09": "Every obligation of Token::stringify, stringify (spelling, order, spaces, deferred parts, quoting) and expand_arguments (which argument each `#` is applied to) is discharged for all token sequences.",
    "P10": "Every obligation of expand_arguments (operands are passed unexpanded, empty ones as placemarkers, operators in arguments are not applied), Punctuation::concat, Token::concat, expand_concat, remove_placemarkers, Token::detokenize and detokenize is discharged: which operands paste, to which token, in which order, and that anything else is an error.",
    "P14": "Every obligation of Cast::to_tokens and Type::is_void is discharged for all 128-bit values and all types; the tokens of types and other operands are abstract.",
}
NOT_CLAIMED = {}
