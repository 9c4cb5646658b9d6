//! Mechanical extraction of functions, types and constants from the stacks.rs sources.
//! Usage: vextract REPO CONTRACTED_KEYS.json > units.json
//! Every lowering applied to a function is recorded in its `lowerings` list.
mod expand;
mod inline;
mod lower;

use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use syn::{ImplItem, Item};

fn files(dir: &Path, out: &mut Vec<PathBuf>) {
    let mut v: Vec<_> = std::fs::read_dir(dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    v.sort();
    for p in v {
        if p.is_dir() {
            files(&p, out);
        } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
            out.push(p);
        }
    }
}

fn module_of(rel: &str) -> Option<String> {
    let parts: Vec<&str> = rel.split('/').collect();
    match parts[0] {
        "crypto" if parts.len() > 1 => {
            let m = parts[1].trim_end_matches(".rs");
            if m == "mod" { None } else { Some(m.to_string()) }
        }
        "clarity" | "clarity.rs" => Some("clarity".into()),
        "transaction" | "transaction.rs" => Some("transaction".into()),
        "wallet.rs" | "wallet" => Some("wallet".into()),
        "rpc.rs" | "rpc" => Some("rpc".into()),
        "derive.rs" => Some("derive".into()),
        _ => None,
    }
}

pub fn cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string().replace(' ', "");
        s.contains("cfg(test)") || s == "#[test]"
    })
}

pub struct RawFn {
    pub key: String,
    pub module: String,
    pub self_ty: Option<String>,
    pub trait_: Option<String>,
    pub file: String,
    pub generics: syn::Generics,
    pub impl_generics: syn::Generics,
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub boxed_dyn: Option<String>,
}

fn derives(attrs: &[syn::Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                v.push(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    v
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let repo = PathBuf::from(&args[1]);
    let contracted: BTreeSet<String> = match args.get(2) {
        Some(p) => serde_json::from_str::<Vec<String>>(&std::fs::read_to_string(p).unwrap()).unwrap().into_iter().collect(),
        None => BTreeSet::new(),
    };
    let src = repo.join("stacks/src");
    let mut fs = vec![];
    files(&src, &mut fs);
    let mut parsed: Vec<(String, String, Vec<Item>)> = vec![];
    let mut macros = BTreeMap::new();
    let mut errors: Vec<String> = vec![];
    for f in &fs {
        let rel = f.strip_prefix(&src).unwrap().to_string_lossy().to_string();
        let Some(module) = module_of(&rel) else { continue };
        let text = std::fs::read_to_string(f).unwrap();
        match syn::parse_file(&text) {
            Ok(file) => {
                expand::collect(&file.items, &mut macros);
                parsed.push((module, rel, file.items));
            }
            Err(e) => errors.push(format!("{rel}: {e}")),
        }
    }
    // the expansion of the derive macro on the sample structs
    if let Some(p) = args.get(3) {
        let text = std::fs::read_to_string(p).unwrap();
        let text = text.replace("use ::stacks_rs::clarity::Cast;", "").replace("::stacks_rs::clarity::", "").replace("::stacks_rs::derive::", "").replace("::stacks_rs::transaction::", "").replace("::alloc::vec::Vec::new", "Vec::new").replace("Self::Error", "Error").replace("::std::convert::", "").replace("std::vec::Vec", "Vec");
        match syn::parse_file(&text) {
            Ok(file) => parsed.push(("derive".into(), "(expansion of the sample structs by stacks_derive)".into(), file.items)),
            Err(e) => errors.push(format!("derive expansion: {e}")),
        }
    }
    let mut items: Vec<(String, String, Item)> = vec![];
    for (module, rel, its) in parsed {
        flatten(&module, &rel, its, &macros, &mut items, &mut errors);
    }
    // closed-world implementors of the marker traits
    let mut impls: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (_, _, it) in &items {
        if let Item::Impl(im) = it {
            if let Some((_, p, _)) = &im.trait_ {
                let t = p.segments.last().unwrap().ident.to_string();
                if lower::DYN.contains(&t.as_str()) || t == "Copy" {
                    if let syn::Type::Path(tp) = &*im.self_ty {
                        impls.entry(t).or_default().push(tp.path.segments.last().unwrap().ident.to_string());
                    }
                }
            }
        }
    }
    let mut uses: Vec<Value> = vec![];
    for (module, _, it) in &items {
        if let Item::Use(u) = it {
            fn walk(t: &syn::UseTree, pre: &str, out: &mut Vec<(String, String)>) {
                match t {
                    syn::UseTree::Path(p) => walk(&p.tree, &format!("{pre}{}::", p.ident), out),
                    syn::UseTree::Name(n) => out.push((format!("{pre}{}", n.ident), n.ident.to_string())),
                    syn::UseTree::Rename(r) => out.push((format!("{pre}{}", r.ident), r.rename.to_string())),
                    syn::UseTree::Group(g) => for x in &g.items { walk(x, pre, out) },
                    syn::UseTree::Glob(_) => {}
                }
            }
            let mut v = vec![];
            walk(&u.tree, "", &mut v);
            for (p, a) in v { uses.push(json!({"module": module, "path": p, "alias": a})); }
        }
    }
    let mut types = vec![];
    let mut consts = vec![];
    let mut froms = vec![];
    let mut builder_defaults = vec![];
    let mut raw: Vec<RawFn> = vec![];
    let mut trait_defaults: BTreeMap<String, Vec<syn::TraitItemFn>> = BTreeMap::new();
    for (_, _, it) in &items {
        if let Item::Trait(t) = it {
            for ti in &t.items {
                if let syn::TraitItem::Fn(f) = ti {
                    if f.default.is_some() {
                        trait_defaults.entry(t.ident.to_string()).or_default().push(f.clone());
                    }
                }
            }
        }
    }
    for (module, rel, it) in &items {
        match it {
            Item::Const(c) => {
                consts.push(json!({"module": module, "name": c.ident.to_string(), "text": lower::const_text(c)}));
            }
            Item::Type(t) => {
                let g = &t.generics;
                consts.push(json!({"module": module, "name": t.ident.to_string(), "text": format!("pub type {}{} = {} ;", t.ident, quote::quote!(#g), lower::ty_text(&t.ty))}));
            }
            Item::Struct(s) => {
                types.push(json!({"module": module, "name": s.ident.to_string(), "kind": "struct", "derives": derives(&s.attrs), "text": lower::struct_text(s)}));
                for f in &s.fields {
                    for a in &f.attrs {
                        if a.path().is_ident("builder") {
                            if let Some(d) = lower::builder_default(a) {
                                builder_defaults.push(json!({"module": module, "struct": s.ident.to_string(), "field": f.ident.as_ref().map(|i| i.to_string()), "ty": lower::ty_text(&f.ty), "expr": d}));
                                let (ty, name) = (&f.ty, quote::format_ident!("__default_{}_{}", s.ident, f.ident.as_ref().unwrap()));
                                if let Ok(e) = syn::parse_str::<syn::Expr>(&d) {
                                    let g: syn::ItemFn = syn::parse_quote! { fn #name() -> #ty { #e } };
                                    raw.push(RawFn { key: format!("{module}::{name}"), module: module.clone(), self_ty: None, trait_: None, file: rel.clone(), generics: Default::default(), impl_generics: Default::default(), sig: g.sig, block: *g.block, boxed_dyn: None });
                                }
                            }
                        }
                    }
                }
            }
            Item::Enum(e) => {
                let mut unit = true;
                for v in &e.variants {
                    if !matches!(v.fields, syn::Fields::Unit) { unit = false; }
                    for f in &v.fields {
                        if f.attrs.iter().any(|a| a.path().is_ident("from")) {
                            froms.push(json!({"module": module, "enum": e.ident.to_string(), "variant": v.ident.to_string(), "ty": lower::ty_text(&f.ty)}));
                        }
                    }
                }
                types.push(json!({"module": module, "name": e.ident.to_string(), "kind": if unit {"cenum"} else {"enum"}, "derives": derives(&e.attrs), "text": lower::enum_text(e)}));
            }
            Item::Fn(f) => {
                raw.push(RawFn {
                    key: format!("{module}::{}", f.sig.ident),
                    module: module.clone(),
                    self_ty: None,
                    trait_: None,
                    file: rel.clone(),
                    generics: f.sig.generics.clone(),
                    impl_generics: Default::default(),
                    sig: f.sig.clone(),
                    block: (*f.block).clone(),
                    boxed_dyn: None,
                });
            }
            Item::Impl(im) => {
                let trait_ = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().to_token_stream().to_string().replace(' ', ""));
                let mut boxed = None;
                let ty = match &*im.self_ty {
                    syn::Type::Path(tp) => {
                        let last = tp.path.segments.last().unwrap();
                        if last.ident == "Box" {
                            if let syn::PathArguments::AngleBracketed(ab) = &last.arguments {
                                let s = ab.args.to_token_stream().to_string();
                                if let Some(t) = s.strip_prefix("dyn ") {
                                    boxed = Some(t.trim().to_string());
                                }
                            }
                            match &boxed { Some(b) => format!("Dyn{b}"), None => continue }
                        } else {
                            last.ident.to_string()
                        }
                    }
                    _ => continue,
                };
                let tk = trait_.clone().unwrap_or_default();
                let base = tk.split('<').next().unwrap().to_string();
                let mut have = BTreeSet::new();
                for ii in &im.items {
                    if let ImplItem::Fn(f) = ii {
                        if cfg_test(&f.attrs) { continue; }
                        have.insert(f.sig.ident.to_string());
                        let name = if boxed.is_some() { format!("boxed_{}", f.sig.ident) } else { f.sig.ident.to_string() };
                        let mut sig = f.sig.clone();
                        if boxed.is_some() { sig.ident = syn::Ident::new(&name, sig.ident.span()); }
                        let key = if base == "From" || base == "AsRef" || base == "AsMut" || base == "TryFrom" || base == "Display" || base == "Debug" || base == "LowerHex" { format!("{module}::<{tk} for {ty}>::{name}") } else { format!("{module}::{ty}::{name}") };
                        raw.push(RawFn {
                            key,
                            module: module.clone(),
                            self_ty: Some(ty.clone()),
                            trait_: trait_.clone(),
                            file: rel.clone(),
                            generics: f.sig.generics.clone(),
                            impl_generics: im.generics.clone(),
                            sig,
                            block: f.block.clone(),
                            boxed_dyn: boxed.clone(),
                        });
                    }
                }
                if boxed.is_none() {
                    if let Some(ds) = trait_defaults.get(&base) {
                        for d in ds {
                            if !have.contains(&d.sig.ident.to_string()) {
                                raw.push(RawFn {
                                    key: format!("{module}::{ty}::{}", d.sig.ident),
                                    module: module.clone(),
                                    self_ty: Some(ty.clone()),
                                    trait_: trait_.clone(),
                                    file: rel.clone(),
                                    generics: d.sig.generics.clone(),
                                    impl_generics: im.generics.clone(),
                                    sig: d.sig.clone(),
                                    block: d.default.clone().unwrap(),
                                    boxed_dyn: None,
                                });
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    // default trait methods for the closed-world enums
    for d in lower::DYN {
        let tr = if *d == "Clarity" || *d == "Payload" || *d == "Condition" || *d == "SpendingCondition" { "Codec" } else { continue };
        let module = if *d == "Clarity" { "clarity" } else { "transaction" };
        if let Some(ds) = trait_defaults.get(tr) {
            for t in ds {
                raw.push(RawFn {
                    key: format!("{module}::Dyn{d}::{}", t.sig.ident),
                    module: module.into(),
                    self_ty: Some(format!("Dyn{d}")),
                    trait_: Some(tr.into()),
                    file: "(trait default)".into(),
                    generics: t.sig.generics.clone(),
                    impl_generics: Default::default(),
                    sig: t.sig.clone(),
                    block: t.default.clone().unwrap(),
                    boxed_dyn: None,
                });
            }
        }
    }
    let iter_types: Vec<String> = raw.iter().filter(|r| r.trait_.as_deref() == Some("Iterator")).filter_map(|r| r.self_ty.clone()).collect::<BTreeSet<_>>().into_iter().collect();
    let mut inl = inline::Inliner::new(&raw, &contracted);
    let units: Vec<Value> = raw.iter().map(|r| {
        let mut block = r.block.clone();
        let (inlined, unknown) = inl.run(r, &mut block);
        lower::unit(r, block, inlined, unknown, &iter_types)
    }).collect();
    let out = json!({"fns": units, "types": types, "consts": consts, "froms": froms, "builder_defaults": builder_defaults, "impls": impls, "errors": errors, "uses": uses});
    println!("{}", serde_json::to_string_pretty(&out).unwrap());
}

fn flatten(module: &str, rel: &str, items: Vec<Item>, macros: &BTreeMap<String, expand::MacroDef>, out: &mut Vec<(String, String, Item)>, errors: &mut Vec<String>) {
    for it in items {
        match it {
            Item::Mod(m) => {
                if cfg_test(&m.attrs) || m.ident == "tests" { continue; }
                if let Some((_, its)) = m.content {
                    let module = if module == "derive" && m.ident == "uses" { "uses" } else { module };
                    flatten(module, rel, its, macros, out, errors);
                }
            }
            Item::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                if m.ident.is_some() || name == "clone_trait_object" { continue; }
                if let Some(def) = macros.get(&name) {
                    match expand::expand(def, m.mac.tokens.clone()) {
                        Ok(its) => flatten(module, rel, its, macros, out, errors),
                        Err(e) => errors.push(format!("{rel}: macro {name}: {e}")),
                    }
                }
            }
            Item::Fn(ref f) if cfg_test(&f.attrs) => {}
            Item::Impl(ref f) if cfg_test(&f.attrs) => {}
            other => out.push((module.to_string(), rel.to_string(), other)),
        }
    }
}
