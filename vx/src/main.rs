//! `vx`: extracts functions of the verified crate, mechanically, into a Verus file.
//!
//! `vx TEMPLATE SRC_DIR OUT.rs OUT.json`
//!
//! Exit codes: 0 ok, 3 an anchor is lost or a construct is unsupported, 2 usage or internal errors.
mod mac;
mod nomel;
mod passes;
mod quoteel;
mod rules;
mod source;

use mac::Res;
use quote::{quote, ToTokens};
use rules::{Apply, Kind, Rule};
use serde_json::{json, Value};
use source::{squash, Found, Source};
use std::collections::{HashMap, HashSet};
use std::path::{Path, PathBuf};
use syn::visit_mut::VisitMut;
use syn::{parse_quote, Item};

#[derive(Default)]
struct Section {
    head: String,
    body: Vec<String>,
}

struct FnDir {
    /// Only the contract is emitted.
    assumed: bool,
    file: String,
    path: String,
    name: Option<String>,
    sections: Vec<Section>,
}

enum Piece {
    Text(String),
    Item { file: String, path: String, name: Option<String>, opts: Vec<String> },
    Fn(FnDir),
}

fn words(s: &str) -> Vec<String> {
    // split at blanks outside of `<..>` and quotes
    let mut out = vec![];
    let mut cur = String::new();
    let mut depth = 0;
    for c in s.chars() {
        match c {
            '<' => depth += 1,
            '>' => depth -= 1,
            _ => (),
        }
        if c.is_whitespace() && depth == 0 {
            if !cur.is_empty() {
                out.push(std::mem::take(&mut cur));
            }
        } else {
            cur.push(c);
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}

struct Template {
    pieces: Vec<Piece>,
    rules: Vec<Rule>,
    nom: Vec<String>,
}

/// `//@ for X in A B` … `//@ endfor`: repeats the text, `@X@` stands for `A`, then `B`.
fn expand_for(text: &str) -> String {
    let mut out = String::new();
    let mut lines = text.lines();
    while let Some(line) = lines.next() {
        if let Some(head) = line.trim_start().strip_prefix("//@ for ") {
            let (var, vals) = head.split_once(" in ").unwrap_or((head, ""));
            let body: Vec<&str> = lines.by_ref().take_while(|l| l.trim() != "//@ endfor").collect();
            for v in vals.split_whitespace() {
                for l in &body {
                    out.push_str(&l.replace(&format!("@{}@", var.trim()), v));
                    out.push('\n');
                }
            }
        } else {
            out.push_str(line);
            out.push('\n');
        }
    }
    out
}

fn read_template(path: &Path, t: &mut Template, seen: &mut HashSet<PathBuf>, assumed: bool) -> Res<()> {
    if !seen.insert(path.to_path_buf()) {
        return Ok(());
    }
    let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {e}", path.display()))?;
    let text = expand_for(&text);
    let mut cur: Option<FnDir> = None;
    let mut raw = String::new();
    let mut lines = text.lines().peekable();
    while let Some(line) = lines.next() {
        let Some(d) = line.trim_start().strip_prefix("//@") else {
            match &mut cur {
                Some(f) => f.sections.last_mut().unwrap().body.push(line.into()),
                None => {
                    raw.push_str(line);
                    raw.push('\n');
                }
            }
            continue;
        };
        let mut d = d.trim().to_string();
        while d.ends_with('\\') {
            d.pop();
            let next = lines.next().unwrap_or("");
            let next = next.trim_start();
            d.push_str(next.strip_prefix("//@").unwrap_or(next));
        }
        let (cmd, rest) = d.split_once(char::is_whitespace).unwrap_or((&d, ""));
        let rest = rest.trim();
        if let Some(f) = &mut cur {
            match cmd {
                "end" => {
                    t.pieces.push(Piece::Fn(cur.take().unwrap()));
                }
                "sig" => f.sections.push(Section { head: "sig".into(), body: vec![rest.into()] }),
                _ => f.sections.push(Section { head: d.clone(), body: vec![] }),
            }
            continue;
        }
        match cmd {
            "include" => {
                t.pieces.push(Piece::Text(std::mem::take(&mut raw)));
                read_template(&path.parent().unwrap().join(rest), t, seen, assumed)?;
            }
            // contracts of functions which another unit verifies
            "assume" => {
                t.pieces.push(Piece::Text(std::mem::take(&mut raw)));
                read_template(&path.parent().unwrap().join(rest), t, seen, true)?;
            }
            "rule" => t.rules.push(Rule::new(Kind::Expr, rest)?),
            "type" => t.rules.push(Rule::new(Kind::Type, rest)?),
            "nom" => t.nom.push(rest.into()),
            "item" => {
                t.pieces.push(Piece::Text(std::mem::take(&mut raw)));
                let w = words(rest);
                let (name, k) = if w.get(2).map(String::as_str) == Some("as") { (w.get(3).cloned(), 4) } else { (None, 2) };
                t.pieces.push(Piece::Item { file: w[0].clone(), path: w[1].clone(), name, opts: w[k..].to_vec() });
            }
            "fn" => {
                t.pieces.push(Piece::Text(std::mem::take(&mut raw)));
                let w = words(rest);
                let name = if w.get(2).map(String::as_str) == Some("as") { w.get(3).cloned() } else { None };
                cur = Some(FnDir {
                    file: w[0].clone(),
                    path: w[1].clone(),
                    name,
                    assumed,
                    sections: vec![Section { head: "spec".into(), body: vec![] }],
                });
            }
            "#" => (),
            _ => return Err(format!("unknown directive {d}")),
        }
    }
    if cur.is_some() {
        return Err("unterminated //@ fn".into());
    }
    t.pieces.push(Piece::Text(raw));
    Ok(())
}

/// The specifications of closures are numbered from here.
const CLOSURES: usize = 1000;

/// Replace `__vx_raw!(..)`, `__vx_tab!(n);` and `__vx_inv!(n);`.
fn post(text: &str, table: &[String], inv: &HashMap<usize, String>) -> String {
    let mut out = String::new();
    let mut rest = text;
    loop {
        let next = ["__vx_raw!", "__vx_tab!", "__vx_inv!", "__vx_it!"].iter().filter_map(|m| rest.find(m).map(|i| (i, *m))).min();
        let Some((i, m)) = next else {
            out.push_str(rest);
            return out;
        };
        out.push_str(&rest[..i]);
        rest = &rest[i + m.len()..];
        let (inner, tail) = balanced(rest.trim_start());
        rest = tail;
        match m {
            "__vx_raw!" => out.push_str(&post(inner, table, inv)),
            "__vx_it!" => {
                let (k, e) = inner.split_once(',').unwrap();
                out.push_str(&format!("it{}: {}", k.trim(), post(e.trim(), table, inv)));
            }
            "__vx_tab!" => {
                let n: usize = inner.trim().parse().unwrap();
                out.push_str(&table[n]);
                rest = rest.trim_start().strip_prefix(';').unwrap_or(rest);
            }
            _ => {
                let n: usize = inner.trim().parse().unwrap();
                // move in front of the brace of the loop's body
                let p = out.rfind('{').unwrap();
                let after = out.split_off(p);
                out.push_str(&inv[&n]);
                out.push_str(&after);
                rest = rest.trim_start().strip_prefix(';').unwrap_or(rest);
            }
        }
    }
}

fn balanced(s: &str) -> (&str, &str) {
    let b = s.as_bytes();
    let mut depth = 0;
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'(' | b'[' | b'{' => depth += 1,
            b')' | b']' | b'}' => {
                depth -= 1;
                if depth == 0 {
                    return (&s[1..i], &s[i + 1..]);
                }
            }
            b'"' => {
                i += 1;
                while b[i] != b'"' {
                    if b[i] == b'\\' {
                        i += 1;
                    }
                    i += 1;
                }
            }
            b'\'' => {
                // character literal or lifetime
                if b.get(i + 1) == Some(&b'\\') {
                    i += 2;
                    while b[i] != b'\'' {
                        i += 1;
                    }
                } else {
                    let c = s[i + 1..].chars().next().map_or(1, char::len_utf8);
                    if b.get(i + 1 + c) == Some(&b'\'') {
                        i += 1 + c;
                    }
                }
            }
            _ => (),
        }
        i += 1;
    }
    (s, "")
}

fn strip_item(i: &mut Item, rules: &[Rule]) {
    struct V;
    impl VisitMut for V {
        fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
            a.clear();
        }
        fn visit_visibility_mut(&mut self, v: &mut syn::Visibility) {
            *v = parse_quote!(pub);
        }
    }
    V.visit_item_mut(i);
    match i {
        Item::Struct(s) => {
            for f in &mut s.fields {
                f.vis = parse_quote!(pub);
            }
        }
        Item::Enum(e) => {
            for v in &mut e.variants {
                for f in &mut v.fields {
                    f.vis = syn::Visibility::Inherited;
                }
            }
        }
        _ => (),
    }
    Apply { rules, used: vec![] }.visit_item_mut(i);
}

fn derives(i: &Item) -> Vec<String> {
    let attrs = match i {
        Item::Struct(s) => &s.attrs,
        Item::Enum(s) => &s.attrs,
        _ => return vec![],
    };
    let mut out = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                out.push(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    out
}

fn run() -> Res<()> {
    let args: Vec<String> = std::env::args().collect();
    if args.len() != 5 {
        return Err("usage: vx TEMPLATE SRC_DIR OUT.rs OUT.json".into());
    }
    let mut src = Source::new(PathBuf::from(&args[2]));
    let mut t = Template { pieces: vec![], rules: vec![], nom: vec![] };
    read_template(Path::new(&args[1]), &mut t, &mut HashSet::new(), false).map_err(|e| format!("template: {e}"))?;

    // Functions which need no inlining.
    let mut known: HashSet<String> = HashSet::new();
    for p in &t.pieces {
        match p {
            Piece::Text(s) => {
                let mut prev = "";
                for w in s.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|w| !w.is_empty()) {
                    if prev == "fn" {
                        known.insert(w.into());
                    }
                    prev = w;
                }
            }
            Piece::Fn(f) => {
                let n = f.path.rsplit(['/', ':']).next().unwrap();
                if !f.path.contains('#') {
                    known.insert(n.into());
                }
                if let Some(n) = &f.name {
                    known.insert(n.clone());
                }
            }
            _ => (),
        }
    }

    let mut out = String::new();
    let mut fns: Vec<Value> = vec![];
    let mut lost: Vec<Value> = vec![];
    let mut items: Vec<Value> = vec![];
    for p in &t.pieces {
        match p {
            Piece::Text(s) => out.push_str(s),
            Piece::Item { file, path, name, opts } => {
                let Found::Item(mut i) = src.find(file, path)? else { return Err(format!("lost anchor: {file} {path}")) };
                let d = derives(&i);
                for o in opts {
                    if !d.contains(o) {
                        return Err(format!("lost anchor: {path} does not derive {o}"));
                    }
                }
                strip_item(&mut i, &t.rules);
                if let Some(n) = name {
                    match &mut i {
                        Item::Enum(e) => e.ident = rules::ident(n),
                        Item::Struct(e) => e.ident = rules::ident(n),
                        _ => return Err(format!("lost anchor: {path}")),
                    }
                }
                let f = syn::File { shebang: None, attrs: vec![], items: vec![i] };
                out.push_str(&prettyplease::unparse(&f));
                items.push(json!({"file": file, "path": path}));
            }
            Piece::Fn(f) => {
                let start = out.lines().count() + 1;
                let (text, info) = emit_fn(f, &mut src, &t, &known)?;
                out.push_str(&text);
                let end = out.lines().count();
                let mut info = info;
                info["start"] = json!(start);
                info["end"] = json!(end);
                for l in info["lost"].as_array().unwrap() {
                    lost.push(l.clone());
                }
                fns.push(info);
            }
        }
    }
    std::fs::write(&args[3], &out).map_err(|e| e.to_string())?;
    let j = json!({"functions": fns, "items": items, "lost": lost});
    std::fs::write(&args[4], serde_json::to_string_pretty(&j).unwrap()).map_err(|e| e.to_string())?;
    Ok(())
}

fn emit_fn(f: &FnDir, src: &mut Source, t: &Template, known: &HashSet<String>) -> Res<(String, Value)> {
    let (path, lifted, alternative) = match f.path.split_once('#') {
        Some((p, k)) => match k.strip_prefix("alt").and_then(|k| k.split_once('.')) {
            Some((k, j)) => {
                (p, None, Some((k.parse::<usize>().map_err(|_| "alt number")?, j.parse::<usize>().map_err(|_| "alternative")?)))
            }
            None => (p, Some(k.parse::<usize>().map_err(|_| "closure number")?), None),
        },
        None => (f.path.as_str(), None, None),
    };
    let Found::Fn { mut sig, mut block, self_ty } = src.find(&f.file, path)? else {
        return Err(format!("lost anchor: {} {}", f.file, f.path));
    };
    if let Some(k) = lifted {
        let Some((params, b)) = nomel::closure(&block, k) else { return Err(format!("lost anchor: {} {}", f.file, f.path)) };
        let (inputs, b) = (params.iter().map(|p| -> syn::FnArg { match p { syn::Pat::Type(t) => { let (p, t) = (&t.pat, &t.ty); parse_quote!(#p: #t) } p => parse_quote!(#p: ()) } }), b);
        sig = parse_quote!(fn vx_closure(#(#inputs),*) -> _);
        block = b;
    }
    if let Some((k, j)) = alternative {
        if !nomel::alternative(&mut block, k, j) {
            return Err(format!("lost anchor: {} {}", f.file, f.path));
        }
    }
    let orig = squash(&block.to_token_stream().to_string());
    if f.assumed {
        let (mut attr, mut spec, mut sig_text) = (String::from("#[verifier::external_body]"), String::new(), None);
        let mut local: Vec<Rule> = vec![];
        for s in &f.sections {
            let body = s.body.join("\n");
            match s.head.split_whitespace().next() {
                Some("spec") => spec.push_str(&(body + "\n")),
                Some("sig") => sig_text = Some(body),
                Some("attr") => {
                    let a = s.head["attr".len()..].trim();
                    if !["loop_isolation", "invariants", "rlimit", "decreases"].iter().any(|x| a.contains(x)) {
                        attr.push_str(a);
                    }
                    spec.push_str(&(body + "\n"));
                }
                Some("type") => {
                    local.push(Rule::new(Kind::Type, s.head["type".len()..].trim())?);
                    spec.push_str(&(body + "\n"));
                }
                Some("rule" | "rename" | "lift" | "lift-alt" | "opt") => spec.push_str(&(body + "\n")),
                _ => (),
            }
        }
        // termination is proved where the body is verified
        let sig_out = match sig_text {
            Some(s) => {
                check_params(&s, &sig, &f.path, &f.sections)?;
                s
            }
            None => sig_of(f, &sig, &local.iter().cloned().chain(t.rules.iter().cloned()).collect::<Vec<_>>()),
        };
        let spec = drop_decreases(&spec);
        let name = f.name.clone().unwrap_or_else(|| f.path.clone());
        return Ok((
            format!("{attr}\n{sig_out}\n{spec}\n{{ unimplemented!() }}\n"),
            json!({"name": name, "file": f.file, "path": f.path, "assumed": true, "rules": [], "inlined": [], "opaque_arms": [], "lost": [], "hash": hash(&orig)}),
        ));
    }
    passes::strip_attrs(&mut block);
    passes::noops(&mut block);
    passes::macro_stmts(&mut block);
    passes::local_macros(&mut block)?;

    let mut table: Vec<String> = vec![];
    let mut inv: HashMap<usize, String> = HashMap::new();
    let mut loop_blocks = vec![];
    let mut alts: HashMap<(usize, usize), usize> = HashMap::new();
    let mut anchors = vec![];
    let mut starts = vec![];
    let mut ends = vec![];
    let mut spec = String::new();
    let mut sig_text: Option<String> = None;
    let mut attr = String::new();
    let mut local_rules: Vec<Rule> = vec![];
    let mut opts: HashSet<String> = HashSet::new();
    /// A type which has another name in the template.
    struct Rename(String, String);
    impl VisitMut for Rename {
        fn visit_path_segment_mut(&mut self, s: &mut syn::PathSegment) {
            if s.ident == self.0 {
                s.ident = rules::ident(&self.1);
            }
            syn::visit_mut::visit_path_segment_mut(self, s);
        }
    }
    let mut rename = Rename(String::new(), String::new());
    let mut arms: Vec<(String, syn::Expr)> = vec![];
    for s in &f.sections {
        let body = s.body.join("\n");
        let w: Vec<&str> = s.head.split_whitespace().collect();
        match w.as_slice() {
            ["spec"] => spec.push_str(&(body + "\n")),
            ["sig"] => sig_text = Some(body),
            ["attr", ..] => {
                attr.push_str(&s.head["attr".len()..]);
                attr.push('\n');
                spec.push_str(&(body + "\n"));
            }
            ["rule", ..] => {
                local_rules.push(Rule::new(Kind::Expr, s.head["rule".len()..].trim())?);
                spec.push_str(&(body + "\n"));
            }
            ["type", ..] => {
                local_rules.push(Rule::new(Kind::Type, s.head["type".len()..].trim())?);
                spec.push_str(&(body + "\n"));
            }
            ["rename", a, b] => {
                rename.0 = a.to_string();
                rename.1 = b.to_string();
                rename.visit_block_mut(&mut block);
                spec.push_str(&(body + "\n"));
            }
            ["lift", k, n] => {
                if !nomel::lift(&mut block, k.parse().map_err(|_| "closure number")?, n) {
                    return Err(format!("lost anchor: {} closure {k}", f.path));
                }
                spec.push_str(&(body + "\n"));
            }
            ["lift-alt", k, j, n] => {
                let (k, j) = (k.parse().map_err(|_| "alt number")?, j.parse().map_err(|_| "alternative")?);
                if !nomel::lift_alt(&mut block, k, j, n) {
                    return Err(format!("lost anchor: {} alternative {k}.{j}", f.path));
                }
                spec.push_str(&(body + "\n"));
            }
            ["opt", o @ ..] => {
                opts.extend(o.iter().map(|s| s.to_string()));
                spec.push_str(&(body + "\n"));
            }
            ["loop", k] => {
                inv.insert(k.parse().map_err(|_| "loop number")?, body);
            }
            ["closure", k] => {
                let k: usize = k.parse().map_err(|_| "closure number")?;
                inv.insert(CLOSURES + k, body);
            }
            ["alt", k, j] => {
                let n = (k.parse().map_err(|_| "alt number")?, j.parse().map_err(|_| "alternative")?);
                alts.insert(n, table.len());
                table.push(body);
            }
            ["at", "start"] => {
                starts.push(table.len());
                table.push(body);
            }
            ["at", "end"] => {
                ends.push(table.len());
                table.push(body);
            }
            ["at", "loop", k, pos] => {
                loop_blocks.push((k.parse().map_err(|_| "loop number")?, *pos == "end", table.len()));
                table.push(body);
            }
            ["before" | "after", ..] => {
                let (kw, sub) = s.head.split_once(char::is_whitespace).unwrap();
                let sub = sub.trim().trim_matches('`');
                anchors.push((squash(sub), kw == "after", table.len(), false));
                table.push(body);
            }
            ["arm", ..] => {
                let (p, e) = s.head["arm".len()..].split_once("~>").ok_or("arm")?;
                let e: syn::Expr = syn::parse_str(e).map_err(|x| format!("template: {x}"))?;
                arms.push((p.trim().to_string(), e));
                spec.push_str(&(body + "\n"));
            }
            ["#", ..] => (),
            _ => return Err(format!("unknown section {}", s.head)),
        }
    }
    let mut rules = local_rules;
    rules.extend(t.rules.iter().cloned());

    for (p, e) in &arms {
        if !passes::opaque_arm(&mut block, p, e) {
            return Err(format!("lost anchor: {}: arm {p}", f.path));
        }
    }

    // helpers without contracts
    let items = src.load(&f.file)?.clone();
    let st = self_ty.clone();
    let mut find = |name: &str, method: bool| -> Option<(syn::Signature, syn::Block)> {
        for i in &items {
            match i {
                Item::Fn(g) if !method && g.sig.ident == name => return Some((g.sig.clone(), (*g.block).clone())),
                Item::Impl(im) if method => {
                    if st.as_ref().map(|s| quote!(#s).to_string()) != Some(im.self_ty.to_token_stream().to_string()) {
                        continue;
                    }
                    for it in &im.items {
                        if let syn::ImplItem::Fn(g) = it {
                            if g.sig.ident == name {
                                return Some((g.sig.clone(), g.block.clone()));
                            }
                        }
                    }
                }
                _ => (),
            }
        }
        None
    };
    let mut inliner = passes::Inline { known, find: &mut find, n: 1000, done: vec![] };
    inliner.visit_block_mut(&mut block);
    let inlined = inliner.done;
    passes::macro_stmts(&mut block);
    passes::strip_attrs(&mut block);
    passes::noops(&mut block);

    if opts.contains("uncurry") {
        nomel::uncurry(&mut block)?;
    }
    let mut curried_names: Vec<String> = vec![];
    if opts.contains("nom") {
        let mut inl = HashMap::new();
        let mut curried = vec![];
        for n in &t.nom {
            let w = words(n);
            match w.first().map(String::as_str) {
                Some("inline") => {
                    let Found::Fn { sig, block, .. } = src.find(&w[1], &w[2])? else { return Err(format!("lost anchor: {n}")) };
                    inl.insert(w[2].clone(), nomel::inlined(&sig, &block)?);
                }
                Some("curried") => curried.extend(w[1..].iter().cloned()),
                _ => return Err(format!("template: nom {n}")),
            }
        }
        passes::vec_calls(&mut block);
        let is_known = |n: &str| known.contains(n) || n.starts_with(|c: char| c.is_uppercase());
        let mut nom = nomel::Nom {
            vars: HashMap::new(),
            inlined: &inl,
            known: &is_known,
            find: &mut find,
            n: 0,
            loops: 0,
            alts: &alts,
            nalts: 0,
            err: None,
            depth: 0,
            curried: curried.clone(),
        };
        nom.and_then(&mut block);
        nom.bindings(&mut block)?;
        nom.block(&mut block)?;
        passes::calls_vec(&mut block);
        nomel::curried_calls(&mut block, &curried);
        curried_names = curried;
    }
    if opts.contains("nom") {
        // what the texts given to the elementary parsers consist of
        struct L<'a>(&'a mut Vec<String>, &'a [String]);
        impl VisitMut for L<'_> {
            fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
                syn::visit_mut::visit_expr_mut(self, e);
                let syn::Expr::Call(c) = &*e else { return };
                let f = c.func.to_token_stream().to_string();
                let Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) = c.args.first() else { return };
                if !f.starts_with("nom_") && !self.1.contains(&f) {
                    return;
                }
                let t = s.token().to_string();
                let mut p = format!("proof {{ reveal_strlit({t}); assert({t}@.len() == {}", s.value().chars().count());
                for (i, x) in s.value().chars().enumerate() {
                    p.push_str(&format!(" && {t}@[{i}] == {}", syn::LitChar::new(x, proc_macro2::Span::call_site()).to_token_stream()));
                }
                p.push_str("); }");
                let i = syn::LitInt::new(&self.0.len().to_string(), proc_macro2::Span::call_site());
                self.0.push(p);
                *e = parse_quote!({ __vx_tab!(#i); #c });
            }
        }
        L(&mut table, &curried_names).visit_block_mut(&mut block);
    }
    passes::inline_closures(&mut block);
    let mut ap = Apply { rules: &rules, used: vec![] };
    ap.visit_block_mut(&mut block);
    let mut used = ap.used;
    passes::macro_stmts(&mut block);
    if opts.contains("options") {
        passes::options(&mut block);
    }
    if opts.contains("iter-map") {
        passes::iter_map(&mut block);
        passes::macro_stmts(&mut block);
    }
    if ["for-mut", "for-index", "for-ref", "for-pat"].iter().any(|o| opts.contains(*o)) {
        passes::for_borrow(&mut block);
    }
    if opts.contains("for-mut") {
        passes::for_mut(&mut block, "iter_mut");
    }
    if opts.contains("for-index") {
        passes::for_index(&mut block);
    }
    if opts.contains("for-ref") {
        passes::for_mut(&mut block, "iter");
    }
    if opts.contains("for-pat") {
        passes::for_pat(&mut block);
    }
    if opts.contains("for-next") {
        passes::for_next(&mut block);
    }
    if opts.contains("ref-match") {
        passes::ref_match(&mut block);
    }
    passes::merge_guards(&mut block);
    if opts.contains("wild-guards") {
        passes::wild_guards(&mut block);
    }
    if opts.contains("hoist-guards") {
        passes::hoist_guards(&mut block);
    }
    passes::split_guards(&mut block);
    passes::unreachable(&mut block);
    quoteel::elaborate(&mut block)?;
    passes::break_values(&mut block);

    // contracts of loops can speak of the iterator
    let named: HashSet<usize> = inv
        .iter()
        .map(|(k, s)| (*k, s))
        .chain(loop_blocks.iter().map(|(k, _, t)| (*k, &table[*t])))
        .filter(|(k, s)| s.contains(&format!("it{k}.")))
        .map(|(k, _)| k)
        .collect();
    let mut an = passes::Annotate {
        named: &named,
        loops: &inv.keys().copied().collect(),
        loop_blocks: &loop_blocks,
        anchors,
        count: 0,
    };
    an.visit_block_mut(&mut block);
    let mut lost = vec![];
    let nloops = an.count;
    for (s, _, _, u) in &an.anchors {
        if !u {
            lost.push(format!("{}: `{}`", f.path, s));
        }
    }
    passes::closure_specs(&mut block, CLOSURES, &inv.keys().copied().filter(|k| *k > CLOSURES).collect());
    let maxloop = inv.keys().copied().filter(|k| *k < CLOSURES).max().unwrap_or(0);
    if maxloop != nloops && !opts.contains("loops") {
        lost.push(format!("{}: {} loops, {} contracts", f.path, nloops, maxloop));
        if maxloop > nloops {
            return Err(format!("lost anchor: {}: {} loops, {} loop contracts", f.path, nloops, maxloop));
        }
    }
    let mk = |i: usize| -> syn::Stmt {
        let i = syn::LitInt::new(&i.to_string(), proc_macro2::Span::call_site());
        parse_quote!(__vx_tab!(#i);)
    };
    // self-test: contradictory contracts or shims would let this pass
    match std::env::var("VX_VACUITY").as_deref() {
        Ok("start") => {
            starts.push(table.len());
            table.push("assert(false);".into());
        }
        Ok("end") => {
            ends.push(table.len());
            table.push("assert(false);".into());
        }
        _ => (),
    }
    for (k, s) in starts.iter().enumerate() {
        block.stmts.insert(k, mk(*s));
    }
    if !ends.is_empty() && matches!(sig.output, syn::ReturnType::Default) {
        if let Some(syn::Stmt::Expr(_, semi @ None)) = block.stmts.last_mut() {
            *semi = Some(Default::default());
        }
    }
    for e in ends {
        let p = match block.stmts.last() {
            Some(syn::Stmt::Expr(_, None)) => block.stmts.len() - 1,
            _ => block.stmts.len(),
        };
        block.stmts.insert(p, mk(e));
    }

    // signature
    let sig_out = match sig_text {
        Some(s) => {
            check_params(&s, &sig, &f.path, &f.sections)?;
            s
        }
        None => sig_of(f, &sig, &rules),
    };

    let body_file: syn::File = parse_quote!(fn vx() #block);
    let printed = prettyplease::unparse(&body_file);
    let b = printed.find('{').unwrap();
    let body = post(&printed[b..], &table, &inv);
    used.sort();
    used.dedup();
    let name = f.name.clone().unwrap_or_else(|| f.path.clone());
    let text = format!("{attr}{sig_out}\n{spec}{body}");
    Ok((
        text,
        json!({"name": name, "file": f.file, "path": f.path, "rules": used, "inlined": inlined, "opaque_arms": arms.iter().map(|a| a.0.clone()).collect::<Vec<_>>(), "lost": lost, "hash": hash(&orig)}),
    ))
}

/// Parameters must be the same, by name and in order.
fn check_params(s: &str, sig: &syn::Signature, path: &str, sections: &[Section]) -> Res<()> {
    let renames: HashMap<&str, &str> = sections
        .iter()
        .filter_map(|s| match s.head.split_whitespace().collect::<Vec<_>>().as_slice() {
            ["rename", a, b] => Some((*a, *b)),
            _ => None,
        })
        .collect();
    let names: Vec<String> = sig
        .inputs
        .iter()
        .map(|p| match p {
            syn::FnArg::Receiver(_) => "self".into(),
            syn::FnArg::Typed(t) => {
                let p = &t.pat;
                let n = quote!(#p).to_string().trim_start_matches("mut ").to_string();
                renames.get(n.as_str()).map_or(n, |b| b.to_string())
            }
        })
        .collect();
    let mut pos = 0;
    for n in &names {
        let found = s[pos..].match_indices(n.as_str()).find(|(i, _)| {
            let a = s[pos..][..*i].chars().last();
            let z = s[pos..][*i + n.len()..].chars().next();
            let w = |c: Option<char>| c.is_some_and(|c| c.is_alphanumeric() || c == '_');
            !w(a) && !w(z)
        });
        match found {
            Some((i, _)) => pos += i + n.len(),
            None => return Err(format!("lost anchor: {} parameter {n}", path)),
        }
    }
    Ok(())
}

fn sig_of(f: &FnDir, sig: &syn::Signature, rules: &[Rule]) -> String {
    let mut sig = sig.clone();
    let mut i = Item::Fn(parse_quote!(#sig {}));
    strip_item(&mut i, rules);
    if let Item::Fn(g) = &i {
        sig = g.sig.clone();
    }
    if let Some(n) = &f.name {
        sig.ident = rules::ident(n);
    }
    sig.constness = None;
    let ret = match &sig.output {
        syn::ReturnType::Type(_, ty) => format!(" -> (r: {})", pretty_ty(ty)),
        syn::ReturnType::Default => String::new(),
    };
    sig.output = syn::ReturnType::Default;
    let wh = sig.generics.where_clause.take();
    let base = pretty_sig(&sig);
    let wh = wh.map(|w| format!("\n{}", w.to_token_stream())).unwrap_or_default();
    format!("pub {base}{ret}{wh}")
}

/// A contract without its `decreases` clause.
fn drop_decreases(spec: &str) -> String {
    let mut out = String::new();
    let mut on = true;
    for l in spec.lines() {
        let w = l.trim().split(|c: char| !c.is_alphanumeric() && c != '_').next().unwrap_or("");
        if w == "decreases" {
            on = false;
        } else if matches!(w, "requires" | "ensures" | "no_unwind" | "opens_invariants" | "returns") {
            on = true;
        }
        if on {
            out.push_str(l);
            out.push('\n');
        }
    }
    out
}

fn hash(s: &str) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    format!("{h:016x}")
}

fn pretty_ty(t: &syn::Type) -> String {
    let i: syn::File = parse_quote!(type X = #t;);
    let s = prettyplease::unparse(&i);
    s.trim().trim_start_matches("type X = ").trim_end_matches(';').to_string()
}

fn pretty_sig(s: &syn::Signature) -> String {
    let i: syn::File = parse_quote!(#s {});
    let p = prettyplease::unparse(&i);
    let p = p.trim();
    p.strip_suffix("{}").unwrap_or(p).trim().to_string()
}

fn main() {
    if let Err(e) = run() {
        eprintln!("vx: {e}");
        std::process::exit(if e.starts_with("usage") || e.starts_with("template") { 2 } else { 3 });
    }
}
