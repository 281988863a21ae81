//! Loading of source files and lookup of items by path.
use crate::mac::{MacroRules, Res};
use std::collections::HashMap;
use std::path::PathBuf;
use syn::{ImplItem, Item};

pub struct Source {
    pub root: PathBuf,
    pub files: HashMap<String, Vec<Item>>,
}

fn expand_items(items: Vec<Item>, macros: &mut HashMap<String, MacroRules>) -> Res<Vec<Item>> {
    let mut out = vec![];
    for i in &items {
        if let Item::Macro(m) = i {
            if let Some(id) = &m.ident {
                if let Ok(r) = MacroRules::parse(m.mac.tokens.clone()) {
                    macros.insert(id.to_string(), r);
                }
            }
        }
    }
    for i in items {
        match &i {
            Item::Macro(m) if m.ident.is_none() => {
                let name = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                if let Some(r) = macros.get(&name) {
                    let ts = r.expand(m.mac.tokens.clone())?;
                    let f: syn::File = syn::parse2(ts).map_err(|e| format!("expanding {name}: {e}"))?;
                    out.extend(f.items);
                    continue;
                }
                out.push(i);
            }
            Item::Mod(m) if m.attrs.iter().any(|a| quote::quote!(#a).to_string().contains("test")) => (),
            _ => out.push(i),
        }
    }
    Ok(out)
}

pub enum Found {
    Fn { sig: syn::Signature, block: syn::Block, self_ty: Option<syn::Type> },
    Item(Item),
}

fn last_ident(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => format!("&{}", last_ident(&r.elem)),
        _ => quote::quote!(#t).to_string().replace(' ', ""),
    }
}

pub fn squash(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

impl Source {
    pub fn new(root: PathBuf) -> Self {
        Self { root, files: HashMap::new() }
    }

    pub fn load(&mut self, file: &str) -> Res<&Vec<Item>> {
        if !self.files.contains_key(file) {
            let p = self.root.join(file);
            let text = std::fs::read_to_string(&p).map_err(|e| format!("lost anchor: file {file}: {e}"))?;
            let f = syn::parse_file(&text).map_err(|e| format!("cannot parse {file}: {e}"))?;
            let mut macros = HashMap::new();
            let items = expand_items(f.items, &mut macros)?;
            self.files.insert(file.into(), items);
        }
        Ok(&self.files[file])
    }

    /// `free_fn`, `Type::method`, `<Type as Trait>::method`, each optionally followed by `/nested`; or an item name.
    pub fn find(&mut self, file: &str, path: &str) -> Res<Found> {
        let items = self.load(file)?;
        let lost = || format!("lost anchor: {file} {path}");
        let mut parts = path.split('/');
        let head = parts.next().unwrap();
        let mut cur = find_head(items, head).ok_or_else(lost)?;
        for nested in parts {
            let Found::Fn { block, self_ty, .. } = &cur else { return Err(lost()) };
            let items: Vec<Item> = block.stmts.iter().filter_map(|s| if let syn::Stmt::Item(i) = s { Some(i.clone()) } else { None }).collect();
            let mut hit = find_head(&items, nested);
            if let Some(Found::Fn { self_ty: t, .. }) = &mut hit {
                if t.is_none() {
                    *t = self_ty.clone();
                }
            }
            cur = hit.ok_or_else(lost)?;
        }
        Ok(cur)
    }
}

fn find_head(items: &[Item], head: &str) -> Option<Found> {
    let (ty, tr, name) = if let Some(rest) = head.strip_prefix('<') {
        let i = rest.rfind(">::")?;
        let (q, name) = (&rest[..i], &rest[i + 3..]);
        let (ty, tr) = q.split_once(" as ")?;
        (Some(ty.trim()), Some(tr.trim()), name)
    } else if let Some((ty, name)) = head.rsplit_once("::") {
        (Some(ty), None, name)
    } else {
        (None, None, head)
    };
    for i in items {
        match i {
            Item::Fn(f) if ty.is_none() && f.sig.ident == name => {
                return Some(Found::Fn { sig: f.sig.clone(), block: (*f.block).clone(), self_ty: None })
            }
            Item::Impl(im) if ty.is_some() => {
                let st = &im.self_ty;
                let full = squash(&quote::quote!(#st).to_string());
                if Some(last_ident(&im.self_ty).as_str()) != ty && Some(full.as_str()) != ty.map(squash).as_deref() {
                    continue;
                }
                match (&im.trait_, tr) {
                    (None, None) => (),
                    (Some((_, p, _)), Some(tr)) => {
                        let last = p.segments.last().unwrap();
                        let short = last.ident.to_string();
                        let full = squash(&quote::quote!(#last).to_string());
                        if short != tr && full != squash(tr) {
                            continue;
                        }
                    }
                    _ => continue,
                }
                for it in &im.items {
                    if let ImplItem::Fn(f) = it {
                        if f.sig.ident == name {
                            return Some(Found::Fn {
                                sig: f.sig.clone(),
                                block: f.block.clone(),
                                self_ty: Some((*im.self_ty).clone()),
                            });
                        }
                    }
                }
            }
            Item::Struct(s) if ty.is_none() && s.ident == name => return Some(Found::Item(i.clone())),
            Item::Enum(s) if ty.is_none() && s.ident == name => return Some(Found::Item(i.clone())),
            Item::Const(s) if ty.is_none() && s.ident == name => return Some(Found::Item(i.clone())),
            Item::Mod(m) => {
                if let Some((_, items)) = &m.content {
                    if let Some(f) = find_head(items, head) {
                        return Some(f);
                    }
                }
            }
            _ => (),
        }
    }
    None
}
