#!/usr/bin/env python3
# Generates properties.jsonl (kept so that the statements are edited in one place).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

MS="src/macro_set/mod.rs"
p("P01","Integer literals are read with exactly their C value and type",
  "A token spelled as a C integer constant (decimal, octal, hexadecimal or binary digits, followed by any valid combination of the `u`, `l`/`ll` and `z` suffixes in either order) is read as an integer literal with exactly the value of its digits and exactly the type named by its suffix. A spelling whose value does not fit 127 bits, which contains a digit outside its base (such as `08`), or which has anything else after the digits is never read as an integer literal.",
  ["inputs"],"Every string given as a macro token.",
  "There are infinitely many digit strings; a wrong base, an off-by-one in the overflow check or a mix-up of two suffixes shows only for particular lengths and spellings.",
  ["src/ast/literal/int.rs","src/ast/literal.rs"],
  [("LitInt::parse_str","src/ast/literal/int.rs"),("LitInt::parse_i128","src/ast/literal/int.rs"),("LitInt::parse_suffix","src/ast/literal/int.rs")],
  observe="Lit::try_from(&str) / LitInt::try_from(&str)")
p("P02","Folded integer constants have the exact arithmetic value",
  "Whenever an expression over integer literals (`+ - * / % << >> & | ^` and unary `-`, `+`, `!`, nested in any way) is replaced by a single literal in the generated code, that literal is the value of the expression in signed 128-bit arithmetic whenever every intermediate result fits (shift counts 0 to 127), with truncating division. A division or remainder by a literal zero is left in place and never crashes the generator.",
  ["inputs"],"Every tree of integer literals and operators, every 128-bit operand value.",
  "Operands range over 2^128 values and trees are unbounded; a swapped operator or a panic for zero divisors only shows for particular operands.",
  ["src/ast/expr.rs","src/ast/literal/int.rs"],
  [("Expr::finish","src/ast/expr.rs"),("Add/Sub/Mul/Div/Rem/Shl/Shr/BitAnd/BitOr/BitXor for LitInt","src/ast/literal/int.rs")],
  observe="VarMacro::generate / LitInt operators")
p("P03","Character literals decode to exactly the code point they denote",
  "A character literal, with any encoding prefix, decodes to exactly the number its single character or escape sequence (simple, octal of 1 to 3 digits, hexadecimal of any length, universal of 4 or 8 digits) denotes, in the character type its prefix names. It is accepted only when that number fits the prefix: at most 0xff without a prefix, 0x7f for `u8`, 0xffff for `u`; any other spelling is not a character literal.",
  ["inputs"],"Every string given as a macro token.",
  "All Unicode characters times all escape forms times five prefixes; range checks fail only at their boundaries.",
  ["src/ast/literal/char.rs","src/ast/literal.rs"],
  [("LitChar::parse_str","src/ast/literal/char.rs"),("LitChar::with_prefix","src/ast/literal/char.rs"),("escaped_char","src/ast/literal.rs"),("numeric_escape_sequence","src/ast/literal.rs"),("universal_char","src/ast/literal.rs")],
  observe="LitChar::try_from(&str)")
p("P04","String literals decode to exactly the text they denote",
  "A string literal, with any encoding prefix, decodes to the concatenation, in order, of what its characters and escape sequences denote in that encoding: UTF-8 bytes (numeric escapes being single bytes) for ordinary and `u8` strings, code points for `u` (surrogate pairs combined), `U` and `L` strings. A string that contains an escape not representable in its encoding, an unescaped newline, or no closing quote is not accepted, and adjacent string literals denote the concatenation of their contents, an unprefixed one adopting the prefix of the first, its text being read as UTF-8.",
  ["inputs"],"Every string given as a macro token and every sequence of adjacent string literal tokens.",
  "Strings have unbounded length and every position may hold any escape form; accumulator mistakes show only for particular orders of escaped and unescaped parts.",
  ["src/ast/literal/string.rs","src/ast/literal.rs"],
  [("LitString::parse_str","src/ast/literal/string.rs"),("LitString::parse_ordinary","src/ast/literal/string.rs"),("LitString::parse","src/ast/literal/string.rs")],
  observe="LitString::try_from(&str)")
p("P05","Every spelling is classified as the C token it is",
  "A token string is classified as an identifier exactly when it is a C identifier (a letter or `_` followed by letters, digits and `_`, where universal characters stand for the letter they denote), as punctuation exactly when it is one of the C punctuators, as a comment exactly when it is one `/* */` comment, and `__VA_ARGS__` as the variable arguments. The decoded identifier has the same letters in the same order.",
  ["inputs"],"Every string given as a macro token or parameter name.",
  "Classification of arbitrary Unicode text with escapes in arbitrary positions; unit tests sample a few spellings.",
  ["src/ast/identifier.rs","src/ast/punctuation.rs","src/ast/comment.rs",MS],
  [("Identifier::parse_str","src/ast/identifier.rs"),("Punctuation::try_from","src/ast/punctuation.rs"),("Comment::try_from","src/ast/comment.rs"),("Token::from_str",MS)],
  observe="Identifier::try_from, Punctuation::try_from, Comment::try_from")
p("P06","The macro table always reflects the latest definition of each name",
  "After any history of definitions and undefinitions, looking up a name finds exactly its latest definition, of the kind (variable-like or function-like) it was last defined with, or nothing if it was undefined since; other names are unaffected. Defining a name reports a redefinition exactly when the name was defined and the kind, the parameters or the body (ignoring whitespace and comment tokens) changed, and undefining reports whether there was a definition of that kind.",
  ["histories","inputs"],"Every sequence of define and undefine operations with arbitrary names and bodies.",
  "Histories are unbounded; a stale definition survives only particular interleavings of kinds and names.",
  [MS],
  [("MacroSet::define_var_macro",MS),("MacroSet::define_fn_macro",MS),("MacroSet::undefine_var_macro",MS),("MacroSet::undefine_fn_macro",MS),("is_whitespace",MS)],
  state=[{"name":"var_macros","meaning":"current variable-like definitions"},{"name":"fn_macros","meaning":"current function-like definitions"}],
  observe="return values of define/undefine and MacroNotFound of expand")
p("P07","A macro call takes exactly its parenthesised, comma-separated arguments",
  "A function-like macro followed by `(` is called with exactly the tokens up to the matching `)`, split at the commas which are outside any nested parentheses, brackets or braces, in order and without loss; if there is no matching `)` or the brackets inside do not pair up, it is not a call and no token is consumed. A call is expanded only if the number of arguments matches the parameters (one empty argument counts as none, variable arguments may be any number), otherwise it is an argument error.",
  ["inputs"],"Every token sequence after a macro name and every parameter list.",
  "Nesting is unbounded and all bracket kinds interact; errors surface only for particular nestings and argument counts.",
  [MS],
  [("MacroSet::collect_args",MS),("MacroSet::expand_fn_macro_body",MS)],
  observe="MacroSet::expand_var_macro / expand_fn_macro")
p("P08","Expansion terminates, is complete and never expands a macro inside itself",
  "For every set of macros, including mutually recursive ones, expansion of any of them terminates without crashing. In the resulting tokens no use of a defined macro remains unexpanded, nor a call whose parentheses stood there when its name was scanned, except where the name came out of the expansion of that same macro, and every name that is inside its own expansion is left as it is.",
  ["inputs","histories"],"Every set of macro definitions and every macro in it.",
  "Termination and completeness quantify over all, also mutually recursive, macro sets and over unbounded nesting of calls.",
  [MS],
  [("MacroSet::expand_macro_body",MS),("MacroSet::expand_var_macro_body",MS),("MacroSet::expand_fn_macro_body",MS),("MacroSet::expand_arguments",MS)],
  observe="MacroSet::expand_var_macro / expand_fn_macro")
p("P09","Stringification spells the argument's tokens in order",
  "Stringifying an argument (`#param`) of a call produces one string literal whose text is the spelling of the argument's tokens, in order, without its comments, separated by at most one space and by exactly one between two words (tokens with a letter or digit, such as names and numbers); an empty argument gives the empty string. Parts that are only known when the generated macro is used count as words and stay as deferred stringifications in their place between the surrounding text.",
  ["inputs"],"Every argument token sequence.",
  "Arguments are arbitrary token sequences; loss, duplication or reordering happens only around particular token kinds.",
  [MS],
  [("stringify",MS),("Token::stringify",MS),("MacroSet::expand_arguments",MS)],
  observe="MacroSet::expand_var_macro")
p("P10","Token pasting yields the token spelled by both operands, or an error",
  "`a ## b` in a macro body whose operands are known is replaced by the single token whose spelling is the spelling of `a` followed by that of `b`, an empty operand contributing nothing; a spelling that is no valid token is an error and never a different token. Pasting is done for names, numbers and plain words, punctuators that form a punctuator, a number after `.`, and a string or character literal after an encoding prefix; comments are never operands and an argument consisting only of comments is empty. A `##` at the start or end of a body is an error, a pasted punctuator or a `##` coming from an argument is never treated as an operator, and operands of `##` are not macro-expanded.",
  ["inputs"],"Every pair of operand tokens and every body containing `##` in any position.",
  "All pairs of token kinds and all positions of comments, empty arguments and repeated `##` matter; tests cover a handful of pairs.",
  [MS,"src/ast/punctuation.rs"],
  [("Token::concat",MS),("MacroSet::expand_concat",MS),("Punctuation::concat","src/ast/punctuation.rs"),("MacroSet::remove_placemarkers",MS)],
  observe="MacroSet::expand_var_macro")
p("P11","Expressions are parsed with C precedence and associativity",
  "Every token sequence accepted as an expression is parsed into the tree which C's precedence and associativity give it: postfix before prefix and casts before `* / %`, `+ -`, `<< >>`, comparisons, equality, `&`, `^`, `|`, the conditional and the right-associative assignments, with parentheses overriding and comments ignored; every C expression built of names, literals, casts, calls, member accesses and operators except `&&`, `||` and `,` is accepted. A parenthesised macro parameter followed by `+`, `-`, `*` or `&` is an operand, not a cast.",
  ["inputs"],"Every sequence of expression tokens.",
  "Expression grammars are recursive and operators interact pairwise at every nesting depth; unit tests contain a few sample trees.",
  ["src/ast/expr.rs","src/ast/tokens.rs"],
  [("Expr::parse_term_prec1 to prec14","src/ast/expr.rs"),("Expr::parse_cast_ty","src/ast/expr.rs"),("parenthesized, punct, meta","src/ast/tokens.rs")],
  observe="VarMacro::parse / FnMacro::parse, VarMacro::value")
p("P12","A C type name denotes the right Rust type",
  "Every accepted spelling of a built-in C type denotes exactly that type (in particular signedness and width, with `int` optional where C allows it), `const` and `volatile` anywhere in it or on any pointer level are kept on the level they qualify, and keywords in a combination that C does not allow never denote a built-in type. In generated code each type appears as the corresponding FFI type, a pointer level that is itself `const` as `*const` and every other pointer level as `*mut`.",
  ["inputs"],"Every sequence of type specifier, qualifier and `*` tokens.",
  "Dozens of specifier combinations times qualifier positions times pointer levels; swapping two arms affects one spelling only.",
  ["src/ast/ty.rs"],
  [("BuiltInType::parse","src/ast/ty.rs"),("TypeQualifier","src/ast/ty.rs"),("Type::parse","src/ast/ty.rs"),("Type::to_tokens","src/ast/ty.rs")],
  observe="FnMacro/VarMacro generate")
p("P13","Generated Rust expressions keep the structure of the C expression",
  "The Rust code generated for an expression built of names, literals, casts, unary and binary operators parses, by Rust's grammar, to the same tree of operations: operands are parenthesised whenever Rust's precedence, associativity, non-associative comparisons or the ambiguity of `<` after a cast would otherwise change or break it. Compound assignments and increments apply exactly their own operator, also through volatile pointers, and a block at the beginning of a function body is kept from being a statement of its own.",
  ["inputs"],"Every expression tree.",
  "Every pair of parent and child operators on either side at any depth matters, and a missing pair of parentheses silently changes the computed value.",
  ["src/ast/binary_expr.rs","src/ast/unary_expr.rs","src/ast/cast.rs","src/ast/expr.rs"],
  [("BinaryExpr::to_token_stream","src/ast/binary_expr.rs"),("UnaryExpr::to_token_stream","src/ast/unary_expr.rs"),("Cast::to_tokens","src/ast/cast.rs"),("precedence","src/ast/binary_expr.rs")],
  observe="FnMacro::generate / VarMacro::generate")
p("P14","An integer that is cast is generated in a type that can hold it",
  "An integer literal that is the operand of a cast is generated with a type suffix whose range contains its value, with the value unchanged, and the smallest such suffix when the value is at most 64 bits wide, so that the generated cast compiles and converts the same value as C does. Casting literal zero to a pointer yields a null pointer of the right mutability.",
  ["inputs"],"Every 128-bit literal value and every target type.",
  "Boundaries of ten ranges in a 128-bit domain; an off-by-one at one boundary changes the value for a single literal.",
  ["src/ast/cast.rs"],
  [("Cast::to_tokens","src/ast/cast.rs")],
  observe="VarMacro::generate")
p("P15","Floating-point literals are read with their C value and type",
  "A token string is accepted as a floating-point literal exactly when it is a decimal C floating constant (digits with a `.` or an exponent, at least one digit, optionally the suffix `f` or `l` in either case), with the type its suffix names and the value of that type nearest to the decimal number. The generated code denotes exactly that value, also when it is infinite.",
  ["inputs"],"Every spelling and every value.",
  "Spellings are unbounded, exponents, signs, points and suffixes combine freely, and rounding matters only for particular digit strings.",
  ["src/ast/literal/float.rs","src/ast/literal.rs"],
  [("LitFloat::parse_str","src/ast/literal/float.rs"),("LitFloat::to_tokens","src/ast/literal/float.rs"),("Lit::parse_str","src/ast/literal.rs")],
  observe="LitFloat::try_from, Lit::try_from, VarMacro::generate")
p("P16","Code for strings and characters denotes exactly their C contents",
  "The code generated for a character literal is its number, cast to the Rust type for the character type of its prefix (`c_char`, `u8`, `u16`, `u32` or the type given for `wchar_t`). The code generated for a string literal denotes exactly its contents in the units of its prefix (bytes, UTF-8, UTF-16, Unicode scalars or wide characters), followed by one terminating zero: as the value of a variable-like macro a reference to an array of exactly that many units (or, for a string without interior zero and a Rust version which allows it, a `CStr` made of these bytes), anywhere else a pointer to the first unit of such a constant array, typed as a pointer to that character type. Every unit is valid as a literal of the type it is written with, and `'static` is written where the Rust version does not infer it.",
  ["inputs"],"Every string and character literal, every context (Rust version, wchar_t, type prefixes), as a variable-like and a function-like macro.",
  "Contents, prefixes, surrogate pairs, embedded zeros and units beyond the range of the unit type combine freely, and a generated constant which is short by one unit or lacks its terminator still compiles.",
  ["src/ast/literal/string.rs","src/ast/literal/char.rs","src/ast/literal.rs","src/codegen/mod.rs","src/context.rs"],
  [("LitString::to_token_stream","src/ast/literal/string.rs"),("LitChar::to_tokens","src/ast/literal/char.rs"),("Lit::to_tokens","src/ast/literal.rs"),("quote_static_ref","src/codegen/mod.rs"),("LocalContext::new","src/context.rs")],
  observe="VarMacro::generate, FnMacro::generate")
p("P17","Statements keep their order and their control flow",
  "A macro whose body is no expression but a sequence of expression statements, declarations with an initialiser, function declarations, blocks, `if`/`else` and `do`/`while` statements (with comments anywhere between tokens) is parsed into exactly these statements in their order: an `else` belongs to the nearest `if`, every branch holds the statements it has in C, a declaration its type, name, value and storage. The code generated for it executes the same statements in the same order: a branch of an `if` under its condition and the `else` branch otherwise, the statements of a `do` at least once and again as long as its condition holds (compared with 0 if it is no `bool`), a block in braces of its own, `static` variables as `static`, others as local variables, and a function declaration as an `extern` declaration with its parameters in order and its result (none for `void`).",
  ["inputs"],"Every sequence of tokens as the body of a variable-like or function-like macro, and every tree of these statements; jump statements, `while`, `for` and `switch` are not supported by the library and excluded.",
  "Statements nest freely and the branches of an `if` swallow statements by position, so the tests' one statement per macro cannot show an `else` which goes to the wrong `if` or statements which are exchanged in a nested block.",
  ["src/ast/statement.rs","src/ast/var_decl.rs","src/ast/function_decl.rs","src/macro_body.rs"],
  [("Statement::parse_single","src/ast/statement.rs"),("Statement::to_tokens","src/ast/statement.rs"),("Statement::finish","src/ast/statement.rs"),("VarDecl::parse","src/ast/var_decl.rs"),("FunctionDecl::to_tokens","src/ast/function_decl.rs"),("MacroBody::parse","src/macro_body.rs")],
  observe="VarMacro::parse, FnMacro::parse, FnMacro::generate")
p("P18","A macro becomes a function exactly when all its types are known",
  "`FnMacro::generate` makes a `pub unsafe extern \"C\"` function of a macro exactly when the type of every parameter and of the result is known (given by the user, or taken from the C function which the parameter is passed to), the macro is not variadic, no C function has its name, and nothing in its body needs a macro (unknown names or functions, `__LINE__`/`__FILE__`, changing a parameter or taking its address). The function then has the parameters in their order with these types and the result (none for `void`, the body is then closed by `;`). Otherwise it is an exported `macro_rules!` macro whose parameters, in their order, are `ident` where the parameter is pasted, declared or a member's name, `ty` where it is a type, `tt` as the member in `offsetof`, `$($__VA_ARGS__:expr),*` for `...` and `expr` otherwise. A parameter is written `$p` in a macro and `p` in a function. A variable-like macro has a value with its type only if it is an expression which is constant, and the errors say which of the two it is not.",
  ["inputs"],"Every macro body which is parsed, every context (types of parameters, functions, types, enumeration constants), as a function-like and a variable-like macro.",
  "Whether a function can be made depends on the most demanding use of each parameter anywhere in the body and on the order in which types become known; a wrong choice compiles here and fails (or converts silently) only where the generated item is used.",
  ["src/fn_macro.rs","src/var_macro.rs","src/context.rs","src/ast/function_call.rs","src/ast/var.rs","src/ast/expr.rs","src/ast/unary_expr.rs","src/ast/binary_expr.rs"],
  [("FnMacro::generate","src/fn_macro.rs"),("VarMacro::generate","src/var_macro.rs"),("FunctionCall::finish","src/ast/function_call.rs"),("Var::finish","src/ast/var.rs"),("Expr::finish","src/ast/expr.rs"),("BinaryExpr::finish","src/ast/binary_expr.rs"),("UnaryExpr::finish","src/ast/unary_expr.rs"),("VarDecl::finish","src/ast/var_decl.rs")],
  observe="FnMacro::generate, VarMacro::generate")
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
