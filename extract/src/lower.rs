//! Lowering rules: from the repository's Rust to the subset Verus accepts. Each rule keeps the meaning of the
//! code; the ones applied are listed per function.
use crate::RawFn;
use proc_macro2::{Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::visit_mut::VisitMut;
use syn::{parse_quote, Block, Expr, Ident, Pat, Stmt, Type};

pub const DYN: &[&str] = &["Clarity", "Payload", "Condition", "SpendingCondition", "Network"];

fn id(s: &str) -> Ident { Ident::new(s, Span::call_site()) }

pub struct TyLower { pub map: BTreeMap<String, Type> }
impl VisitMut for TyLower {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::TraitObject(o) = t {
            for b in &o.bounds {
                if let syn::TypeParamBound::Trait(tb) = b {
                    let n = tb.path.segments.last().unwrap().ident.to_string();
                    if DYN.contains(&n.as_str()) {
                        let i = id(&format!("Dyn{n}"));
                        *t = parse_quote!(#i);
                        return;
                    }
                }
            }
        }
        if let Type::Paren(p) = t {
            let inner = (*p.elem).clone();
            *t = inner;
            self.visit_type_mut(t);
            return;
        }
        if let Type::Path(p) = t {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if segs.last().map(|s| s == "Formatter").unwrap_or(false) { *t = parse_quote!(__Fmt); return; }
            if segs.len() >= 2 && segs[segs.len() - 1] == "Result" && segs[segs.len() - 2] == "fmt" { *t = parse_quote!(Result<(), __FmtErr>); return; }
            if segs.len() >= 2 && segs[segs.len() - 1] == "Error" && segs[segs.len() - 2] == "fmt" { *t = parse_quote!(__FmtErr); return; }
            if p.qself.is_none() && p.path.segments.len() == 1 {
                let n = p.path.segments[0].ident.to_string();
                if let Some(r) = self.map.get(&n) {
                    *t = r.clone();
                    return;
                }
                // builder structs: generics are replaced by the closed enums
                if n == "STXTokenTransfer" || n == "STXContractCall" {
                    p.path.segments[0].arguments = syn::PathArguments::None;
                }
            }
        }
        syn::visit_mut::visit_type_mut(self, t);
    }
}

fn bound_text(bounds: &Punctuated<syn::TypeParamBound, syn::Token![+]>) -> String {
    bounds.iter().map(|b| b.to_token_stream().to_string().replace(' ', "")).filter(|b| b != "Send" && b != "Sync" && b != "Sized" && b != "'static").collect::<Vec<_>>().join("+")
}

#[derive(Clone, PartialEq)]
enum G { Keep(String), Mono(String, bool, bool) } // kept with a bound / replaced by type, dropping .as_ref(), .into()

fn classify(b: &str) -> Option<G> {
    let b = b.replace("std::convert::", "");
    if b == "AsRef<[u8]>" { return Some(G::Keep("BytesRef".into())); }
    if b == "AsRef<str>" { return Some(G::Mono("&str".into(), true, false)); }
    if let Some(x) = b.strip_prefix("AsRef<[") { return Some(G::Mono(format!("&[{}]", x.trim_end_matches("]>")), true, false)); }
    if let Some(x) = b.strip_prefix("Into<") {
        let x = x.trim_end_matches('>');
        return Some(match x {
            "String" | "LengthPrefixedStr" => G::Keep(format!("IntoV<{x}>")),
            _ => G::Mono(x.to_string(), false, true),
        });
    }
    if DYN.contains(&b.as_str()) { return Some(G::Mono(format!("Dyn{b}"), false, false)); }
    None
}

pub fn generics_map(gs: &[&syn::Generics]) -> BTreeMap<String, String> {
    let mut m: BTreeMap<String, String> = BTreeMap::new();
    for g in gs {
        for p in &g.params {
            if let syn::GenericParam::Type(t) = p {
                m.insert(t.ident.to_string(), bound_text(&t.bounds));
            }
        }
        if let Some(w) = &g.where_clause {
            for p in &w.predicates {
                if let syn::WherePredicate::Type(pt) = p {
                    let n = pt.bounded_ty.to_token_stream().to_string();
                    if let Some(e) = m.get_mut(&n) {
                        let b = bound_text(&pt.bounds);
                        if e.is_empty() { *e = b; } else if !b.is_empty() { *e = format!("{e}+{b}"); }
                    }
                }
            }
        }
    }
    m
}

pub fn ty_text(t: &Type) -> String {
    let mut t = t.clone();
    TyLower { map: BTreeMap::new() }.visit_type_mut(&mut t);
    t.to_token_stream().to_string()
}

fn struct_generic_map(g: &syn::Generics) -> BTreeMap<String, Type> {
    let mut m = BTreeMap::new();
    for (k, b) in generics_map(&[g]) {
        if let Some(G::Mono(t, ..)) = classify(&b) {
            m.insert(k, syn::parse_str(&t).unwrap());
        }
    }
    m
}

pub fn struct_text(s: &syn::ItemStruct) -> String {
    let mut s = s.clone();
    let map = struct_generic_map(&s.generics);
    let mut tl = TyLower { map: map.clone() };
    s.attrs.clear();
    s.vis = parse_quote!(pub);
    for f in s.fields.iter_mut() {
        f.attrs.clear();
        f.vis = parse_quote!(pub);
        tl.visit_type_mut(&mut f.ty);
    }
    if !map.is_empty() { s.generics = Default::default(); }
    s.to_token_stream().to_string()
}

pub fn enum_text(e: &syn::ItemEnum) -> String {
    let mut e = e.clone();
    let repr: Vec<_> = e.attrs.iter().filter(|a| a.path().is_ident("repr")).cloned().collect();
    e.attrs = repr;
    e.vis = parse_quote!(pub);
    let mut tl = TyLower { map: BTreeMap::new() };
    for v in e.variants.iter_mut() {
        v.attrs.clear();
        for f in v.fields.iter_mut() {
            f.attrs.clear();
            tl.visit_type_mut(&mut f.ty);
        }
    }
    e.to_token_stream().to_string()
}

/// b"..." -> &[byte, ...]
struct ByteStr;
fn byte_array(b: &syn::LitByteStr) -> Expr {
    let v: Vec<syn::LitInt> = b.value().iter().map(|x| syn::LitInt::new(&format!("{x}u8"), Span::call_site())).collect();
    parse_quote!(&[#(#v),*])
}
impl VisitMut for ByteStr {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Lit(syn::ExprLit { lit: syn::Lit::ByteStr(b), .. }) = e { let n = byte_array(b); *e = n; return; }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}

pub fn const_text(c: &syn::ItemConst) -> String {
    let mut c = c.clone();
    ByteStr.visit_expr_mut(&mut c.expr);
    c.attrs.clear();
    c.vis = parse_quote!(pub);
    if let Type::Reference(r) = &mut *c.ty {
        if r.lifetime.is_none() { r.lifetime = Some(parse_quote!('static)); }
    }
    c.to_token_stream().to_string()
}

pub fn builder_default(a: &syn::Attribute) -> Option<String> {
    let mut out = None;
    let p = |m: syn::meta::ParseNestedMeta| -> syn::Result<()> {
        if m.path.is_ident("default") {
            if m.input.peek(syn::Token![=]) {
                let e: Expr = m.value()?.parse()?;
                out = Some(e.to_token_stream().to_string());
            } else {
                out = Some("Default::default()".into());
            }
        } else if m.input.peek(syn::token::Paren) {
            let c;
            syn::parenthesized!(c in m.input);
            let _: TokenStream = c.parse()?;
        } else if m.input.peek(syn::Token![=]) {
            let _: Expr = m.value()?.parse()?;
        }
        Ok(())
    };
    a.parse_nested_meta(p).ok()?;
    out
}

// ---------------------------------------------------------------- loop numbering

struct Number { n: usize, desc: Vec<String>, ret_string: bool }
const ITER_FNS: &[&str] = &["position", "find", "any", "all", "rposition"];
fn mark(n: usize) -> syn::Attribute { let l = syn::LitInt::new(&n.to_string(), Span::call_site()); parse_quote!(#[__l(#l)]) }
fn take_mark(attrs: &mut Vec<syn::Attribute>) -> Option<usize> {
    let i = attrs.iter().position(|a| a.path().is_ident("__l"))?;
    let a = attrs.remove(i);
    a.parse_args::<syn::LitInt>().ok()?.base10_parse().ok()
}
fn iter_chain(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "iter" | "into_iter" | "iter_mut" | "rev" | "enumerate" | "copied" | "chars" | "bytes") && (m.args.is_empty()),
        Expr::Paren(p) => iter_chain(&p.expr),
        _ => false,
    }
}
impl VisitMut for Number {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => { f.attrs.push(mark(self.n)); self.desc.push(format!("for {}", f.expr.to_token_stream())); self.n += 1; }
            Expr::While(f) => { f.attrs.push(mark(self.n)); self.desc.push(format!("while {}", f.cond.to_token_stream())); self.n += 1; }
            Expr::Loop(f) => { f.attrs.push(mark(self.n)); self.desc.push("loop".into()); self.n += 1; }
            Expr::MethodCall(m) if ITER_FNS.contains(&m.method.to_string().as_str()) && iter_chain(&m.receiver) && m.args.len() == 1 && matches!(m.args[0], Expr::Closure(_)) => {
                m.attrs.push(mark(self.n)); self.desc.push(format!("{}", m.method)); self.n += 1;
            }
            Expr::MethodCall(m) if m.method == "count" || (m.method == "collect" && { let t = m.turbofish.to_token_stream().to_string(); t.contains("Vec") || !self.ret_string && !t.contains("String") }) => {
                if let Expr::MethodCall(f) = &*m.receiver {
                    if (f.method == "filter" || f.method == "take_while") && iter_chain(&f.receiver) || (m.method == "collect" && f.method == "map" && iter_chain(&f.receiver) && matches!(f.args.first(), Some(Expr::Closure(_)))) {
                        m.attrs.push(mark(self.n)); self.desc.push(format!("{}.{}", f.method, m.method)); self.n += 1;
                    }
                }
            }
            _ => {}
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------- combinators
/// Option and Result combinators with a closure or function argument -> match, where the kind of the receiver is evident
struct Comb { used: bool }
#[derive(Clone, Copy, PartialEq)]
enum Kd { O, R, N }
fn kind_of(e: &Expr) -> Kd {
    match strip(e) {
        Expr::MethodCall(m) => match m.method.to_string().as_str() {
            "get" | "ok" | "err" | "first" | "last" | "pop" | "strip_prefix" | "split_first" | "checked_add" | "checked_sub" | "checked_mul" => Kd::O,
            "ok_or_else" | "ok_or" | "map_err" | "cast" | "cast_as" | "verify" | "verify_origin" | "encode" | "modify" => Kd::R,
            "map" | "and_then" => kind_of(&m.receiver),
            _ => Kd::N,
        },
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => match p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default().as_str() {
                "from_utf8" | "try_from" | "decode" | "from_str" | "c32_encode" | "c32_decode" | "c32check_decode" | "c32check_encode" | "c32_address" | "c32_address_decode" | "decode_clarity_type" => Kd::R,
                _ => Kd::N,
            },
            _ => Kd::N,
        },
        _ => Kd::N,
    }
}
fn escapes(e: &Expr) -> bool {
    fn any(t: TokenStream) -> bool {
        t.into_iter().any(|t| match t {
            TokenTree::Punct(p) => p.as_char() == '?',
            TokenTree::Ident(i) => i == "return",
            TokenTree::Group(g) => any(g.stream()),
            TokenTree::Literal(_) => false,
        })
    }
    any(e.to_token_stream())
}
/// the pattern and the result of applying f to the value it binds
fn applied(f: &Expr) -> Option<(Pat, Expr)> {
    match strip(f) {
        Expr::Closure(c) if c.inputs.len() == 1 && !escapes(&c.body) => Some((c.inputs[0].clone(), (*c.body).clone())),
        Expr::Path(p) => Some((parse_quote!(__x), parse_quote!(#p(__x)))),
        _ => None,
    }
}
impl VisitMut for Comb {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(m) = e {
            let k = kind_of(&m.receiver);
            let r = &m.receiver;
            let n: Option<Expr> = match (m.method.to_string().as_str(), k, m.args.len()) {
                ("ok_or_else", Kd::O, 1) => match strip(&m.args[0]) {
                    Expr::Closure(c) if c.inputs.is_empty() && !escapes(&c.body) => { let b = &c.body; Some(parse_quote!((match #r { Some(__x) => Ok(__x), None => Err(#b) }))) }
                    _ => None,
                },
                ("map_err", Kd::R, 1) => applied(&m.args[0]).map(|(p, b)| parse_quote!((match #r { Ok(__x) => Ok(__x), Err(#p) => Err(#b) }))),
                ("and_then", Kd::R, 1) => applied(&m.args[0]).map(|(p, b)| parse_quote!((match #r { Ok(#p) => #b, Err(__x) => Err(__x) }))),
                ("and_then", Kd::O, 1) => applied(&m.args[0]).map(|(p, b)| parse_quote!((match #r { Some(#p) => #b, None => None }))),
                ("map", Kd::R, 1) => applied(&m.args[0]).map(|(p, b)| parse_quote!((match #r { Ok(#p) => Ok(#b), Err(__x) => Err(__x) }))),
                ("map", Kd::O, 1) => applied(&m.args[0]).map(|(p, b)| parse_quote!((match #r { Some(#p) => Some(#b), None => None }))),
                _ => None,
            };
            if let Some(n) = n { *e = n; self.used = true; }
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------- expressions

struct Lower {
    params: BTreeMap<String, G>, // parameter (or self.field) name -> generic class
    low: BTreeSet<String>,
    ret_string: bool, uses: bool,
    fmt_param: bool,
    rpc: bool,
    auto: Vec<(usize, String, String, String)>,
    ty: TyLower,
    iter_types: Vec<String>, // types of the crate that implement Iterator
    iter_vars: BTreeSet<String>,
    str_vars: BTreeSet<String>, // variables known to hold text
}
struct StrVars { vars: BTreeSet<String> }
impl<'b> syn::visit::Visit<'b> for StrVars {
    fn visit_local(&mut self, l: &'b syn::Local) {
        if let Pat::Type(t) = &l.pat {
            let ty = t.ty.to_token_stream().to_string().replace(' ', "");
            if ty == "String" || ty == "&str" {
                if let Pat::Ident(i) = &*t.pat { self.vars.insert(i.ident.to_string()); }
            }
        }
        syn::visit::visit_local(self, l);
    }
}
struct IterVars<'a> { types: &'a [String], vars: BTreeSet<String> }
fn starts_with_type(e: &Expr, types: &[String]) -> bool {
    let t = e.to_token_stream().to_string();
    types.iter().any(|x| t.starts_with(&format!("{x} ::")) || t.starts_with(&format!("{x} {{")))
}
impl<'a, 'b> syn::visit::Visit<'b> for IterVars<'a> {
    fn visit_local(&mut self, l: &'b syn::Local) {
        if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
            if starts_with_type(&init.expr, self.types) { self.vars.insert(i.ident.to_string()); }
        }
        syn::visit::visit_local(self, l);
    }
}

struct Chain { base: Expr, rev: bool, enumerate: bool, copied: bool, mutable: bool, kind: &'static str }

fn strip(e: &Expr) -> &Expr { match e { Expr::Paren(p) => strip(&p.expr), Expr::Group(g) => strip(&g.expr), _ => e } }

fn chain(e: &Expr) -> Option<Chain> {
    match strip(e) {
        Expr::Reference(r) => Some(Chain { base: (*r.expr).clone(), rev: false, enumerate: false, copied: false, mutable: r.mutability.is_some(), kind: "ref" }),
        Expr::Path(_) => Some(Chain { base: strip(e).clone(), rev: false, enumerate: false, copied: false, mutable: false, kind: "plain" }),
        Expr::MethodCall(m) if m.args.is_empty() => {
            let name = m.method.to_string();
            match name.as_str() {
                "iter" => Some(Chain { base: strip(&m.receiver).clone(), rev: false, enumerate: false, copied: false, mutable: false, kind: "iter" }),
                "into_iter" => Some(Chain { base: strip(&m.receiver).clone(), rev: false, enumerate: false, copied: false, mutable: false, kind: "into" }),
                "into_iter_v" => Some(Chain { base: strip(&m.receiver).clone(), rev: false, enumerate: false, copied: false, mutable: false, kind: "into" }),
                "iter_mut" => Some(Chain { base: strip(&m.receiver).clone(), rev: false, enumerate: false, copied: false, mutable: true, kind: "iter" }),
                "chars" => Some(Chain { base: strip(&m.receiver).clone(), rev: false, enumerate: false, copied: true, mutable: false, kind: "chars" }),
                "bytes" => Some(Chain { base: strip(&m.receiver).clone(), rev: false, enumerate: false, copied: true, mutable: false, kind: "bytes" }),
                "bytes_v" => Some(Chain { base: strip(&m.receiver).clone(), rev: false, enumerate: false, copied: true, mutable: false, kind: "bytes" }),
                "rev" => { let mut c = chain(&m.receiver)?; if c.enumerate || c.kind == "ref" || c.kind == "plain" { return None; } c.rev = !c.rev; Some(c) }
                "enumerate" => { let mut c = chain(&m.receiver)?; if c.enumerate || c.kind == "ref" || c.kind == "plain" { return None; } c.enumerate = true; Some(c) }
                "copied" | "cloned" => { let mut c = chain(&m.receiver)?; if c.enumerate { return None; } c.copied = true; Some(c) }
                "as_bytes" | "as_slice" | "keys_slice" => Some(Chain { base: strip(e).clone(), rev: false, enumerate: false, copied: false, mutable: false, kind: "plain" }),
                _ => None,
            }
        }
        _ => None,
    }
}

fn source_ref(c: &Chain) -> Expr {
    let b = &c.base;
    match c.kind {
        "chars" => parse_quote!(__chars(&#b)),
        "bytes" => parse_quote!(#b.as_bytes()),
        "into" => parse_quote!(#b.into_iter_v()),
        "plain" => b.clone(),
        _ => match b {
            Expr::MethodCall(_) => b.clone(), // already a reference, e.g. s.as_bytes().iter()
            Expr::Index(_) => parse_quote!(&#b),
            _ => parse_quote!(__seq(&#b)),
        },
    }
}

impl Lower {
    fn note(&mut self, s: &str) { self.low.insert(s.to_string()); }

    fn bind_elem(c: &Chain, pat: &Pat, n: usize) -> Option<Vec<Stmt>> {
        let v = id(&format!("__v{n}"));
        let j = id(&format!("__j{n}"));
        let i = id(&format!("__i{n}"));
        let mut out: Vec<Stmt> = vec![];
        let mut p = pat.clone();
        if let Pat::Paren(pp) = &p { p = (*pp.pat).clone(); }
        if c.enumerate {
            let Pat::Tuple(t) = &p else { return None };
            if t.elems.len() != 2 { return None; }
            let pi = &t.elems[0];
            out.push(parse_quote!(let #pi = #i;));
            p = t.elems[1].clone();
        }
        if c.mutable {
            let b = &c.base;
            if matches!(p, Pat::Wild(_)) { return Some(out); }
            out.push(parse_quote!(let #p = &mut #b[#j];));
            return Some(out);
        }
        match &p {
            Pat::Wild(_) => {}
            Pat::Reference(r) => { let q = &r.pat; out.push(parse_quote!(let #q = #v[#j];)); }
            _ if c.copied => out.push(parse_quote!(let #p = #v[#j];)),
            _ => out.push(parse_quote!(let #p = &#v[#j];)),
        }
        Some(out)
    }

    /// variables the loop body sets to a literal, or advances by one, exactly once and unconditionally per iteration:
    /// what they hold after i iterations is evident (used as extra invariants when a proof fails without them)
    fn evident(&mut self, n: usize, b: &Block) {
        let text = b.to_token_stream().to_string();
        if text.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == "break" || w == "continue") { return; }
        struct Writes(BTreeMap<String, usize>);
        impl<'a> syn::visit::Visit<'a> for Writes {
            fn visit_expr_assign(&mut self, a: &'a syn::ExprAssign) { *self.0.entry(a.left.to_token_stream().to_string()).or_default() += 1; syn::visit::visit_expr_assign(self, a); }
            fn visit_expr_binary(&mut self, a: &'a syn::ExprBinary) {
                if a.op.to_token_stream().to_string().ends_with('=') { *self.0.entry(a.left.to_token_stream().to_string()).or_default() += 1; }
                syn::visit::visit_expr_binary(self, a);
            }
            fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) { *self.0.entry(p.ident.to_string()).or_default() += 2; }
            fn visit_expr_reference(&mut self, r: &'a syn::ExprReference) {
                if r.mutability.is_some() { *self.0.entry(r.expr.to_token_stream().to_string()).or_default() += 2; }
                syn::visit::visit_expr_reference(self, r);
            }
        }
        let mut w = Writes(BTreeMap::new());
        syn::visit::Visit::visit_block(&mut w, b);
        for s in &b.stmts {
            let Stmt::Expr(e, Some(_)) = s else { continue };
            let (l, kind, r) = match e {
                Expr::Assign(a) => (&a.left, "set", &a.right),
                Expr::Binary(b) if matches!(b.op, syn::BinOp::AddAssign(_)) => (&b.left, "add", &b.right),
                Expr::Binary(b) if matches!(b.op, syn::BinOp::SubAssign(_)) => (&b.left, "sub", &b.right),
                _ => continue,
            };
            let Expr::Path(p) = &**l else { continue };
            let Some(x) = p.path.get_ident() else { continue };
            let Expr::Lit(v) = &**r else { continue };
            let text = match (&v.lit, kind) {
                (syn::Lit::Int(i), _) => i.base10_digits().to_string(),
                (syn::Lit::Bool(b), "set") => b.value.to_string(),
                (syn::Lit::Str(s), "set") => format!("{}@", s.token()),
                _ => continue,
            };
            if w.0.get(&x.to_string()) == Some(&1) { self.auto.push((n, x.to_string(), kind.to_string(), text)); }
        }
    }

    fn for_loop(&mut self, f: &mut syn::ExprForLoop) -> Option<Expr> {
        let n = take_mark(&mut f.attrs)?;
        self.evident(n, &f.body.clone());
        let lit = syn::LitInt::new(&n.to_string(), Span::call_site());
        let (i, nn, v, j) = (id(&format!("__i{n}")), id(&format!("__n{n}")), id(&format!("__v{n}")), id(&format!("__j{n}")));
        let stmts = &f.body.stmts;
        let label = &f.label;
        let pat = &*f.pat;
        if let Expr::Range(r) = strip(&f.expr) {
            let (Some(a), Some(b)) = (&r.start, &r.end) else { return None };
            if !matches!(r.limits, syn::RangeLimits::HalfOpen(_)) { return None; }
            self.note("for over a range -> while with a counter");
            let bind: Vec<Stmt> = if matches!(pat, Pat::Wild(_)) { vec![] } else { vec![parse_quote!(let #pat = #i;)] };
            return Some(parse_quote!({
                let #nn = #b; let mut #i = __same(#a, #nn);
                __vmark!(pre, #lit);
                #label while #i < #nn { __vmark!(inv, #lit); #(#bind)* #i += 1; __vmark!(top, #lit); #(#stmts)* __vmark!(bot, #lit); }
                __vmark!(after, #lit);
            }));
        }
        let ex = strip(&f.expr).clone();
        let by_var = match &ex { Expr::Path(p) => p.path.get_ident().map(|i| self.iter_vars.contains(&i.to_string())).unwrap_or(false), Expr::Reference(r) if r.mutability.is_some() => match &*r.expr { Expr::Path(p) => p.path.get_ident().map(|i| self.iter_vars.contains(&i.to_string())).unwrap_or(false), _ => false }, _ => false };
        if by_var || starts_with_type(&ex, &self.iter_types) {
            let it = id(&format!("__it{n}"));
            self.note("for over an iterator of this crate -> loop calling its next()");
            return Some(parse_quote!({
                let mut #it = #ex;
                __vmark!(pre, #lit);
                #label loop { __vmark!(inv, #lit); if let Some(#pat) = #it.next() { __vmark!(top, #lit); #(#stmts)* __vmark!(bot, #lit); } else { break; } }
                __vmark!(after, #lit);
            }));
        }
        let c = chain(&f.expr)?;
        let bind = Self::bind_elem(&c, pat, n)?;
        self.note("for over a slice/Vec/str iterator -> while with an index");
        let jexp: Expr = if c.rev { parse_quote!(#nn - 1 - #i) } else { parse_quote!(#i) };
        let b = &c.base;
        let setup: Vec<Stmt> = if c.mutable {
            vec![parse_quote!(let #nn = #b.len();)]
        } else {
            let src = source_ref(&c);
            vec![parse_quote!(let #v = #src;), parse_quote!(let #nn = #v.len();)]
        };
        // enumerate binds the counter before it is advanced
        Some(parse_quote!({
            #(#setup)* let mut #i: usize = 0;
            __vmark!(pre, #lit);
            #label while #i < #nn { __vmark!(inv, #lit); let #j = #jexp; #(#bind)* #i += 1; __vmark!(top, #lit); #(#stmts)* __vmark!(bot, #lit); }
            __vmark!(after, #lit);
        }))
    }

    fn iter_fn(&mut self, m: &mut syn::ExprMethodCall) -> Option<Expr> {
        let n = take_mark(&mut m.attrs)?;
        let lit = syn::LitInt::new(&n.to_string(), Span::call_site());
        let (i, nn, v, j, r) = (id(&format!("__i{n}")), id(&format!("__n{n}")), id(&format!("__v{n}")), id(&format!("__j{n}")), id(&format!("__r{n}")));
        let name = m.method.to_string();
        let (recv, clo) = if name == "count" || name == "collect" {
            let Expr::MethodCall(f) = &*m.receiver else { return None };
            (f.receiver.clone(), f.args.first()?.clone())
        } else { (m.receiver.clone(), m.args.first()?.clone()) };
        let kind = if name == "count" || name == "collect" { let Expr::MethodCall(f) = &*m.receiver else { return None }; format!("{}.{}", f.method, name) } else { name.clone() };
        let Expr::Closure(cl) = clo else { return None };
        if cl.inputs.len() != 1 { return None; }
        let mut c = chain(&recv)?;
        if c.enumerate { return None; }
        let mutable = c.mutable;
        c.mutable = false;
        let pat = match &cl.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
        // closures of find/filter/take_while receive one more reference; strip it from & patterns
        let pat = if matches!(kind.as_str(), "find" | "filter.count" | "take_while.count") {
            match &pat { Pat::Reference(r) => (*r.pat).clone(), p => p.clone() }
        } else { pat };
        // an identifier bound to && element: one & less than in the source, auto-deref makes no difference except for explicit **x
        let body = &cl.body;
        let mut body: Expr = (**body).clone();
        if matches!(kind.as_str(), "find" | "filter.count" | "take_while.count") { StripDeref.visit_expr_mut(&mut body); }
        let bind = Self::bind_elem(&c, &pat, n)?;
        let jexp: Expr = if c.rev { parse_quote!(#nn - 1 - #i) } else { parse_quote!(#i) };
        let src = source_ref(&c);
        self.note("iterator search/count -> while with an index");
        let (init, hit, miss): (Expr, TokenStream, TokenStream) = match kind.as_str() {
            "position" => (parse_quote!(None), quote!(#r = Some(#i); break;), quote!()),
            "find" if mutable => (parse_quote!(None), quote!(#r = Some(#j); break;), quote!()),
            "find" if c.copied => (parse_quote!(None), quote!(#r = Some(#v[#j]); break;), quote!()),
            "find" => (parse_quote!(None), quote!(#r = Some(&#v[#j]); break;), quote!()),
            "any" => (parse_quote!(false), quote!(#r = true; break;), quote!()),
            "all" => (parse_quote!(true), quote!(), quote!(#r = false; break;)),
            "filter.count" => (parse_quote!(0usize), quote!(#r += 1;), quote!()),
            "take_while.count" => (parse_quote!(0usize), quote!(#r += 1;), quote!(break;)),
            "map.collect" if m.turbofish.to_token_stream().to_string().contains("Result") => {
                let er = id(&format!("__e{n}"));
                self.note("map(..).collect::<Result<Vec<_>, _>>() -> while that stops at the first error");
                let vt: TokenStream = m.turbofish.as_ref().and_then(|t| match t.args.first() {
                    Some(syn::GenericArgument::Type(Type::Path(p))) => match &p.path.segments.last()?.arguments {
                        syn::PathArguments::AngleBracketed(a) => a.args.first().map(|x| quote!(: #x)),
                        _ => None,
                    },
                    _ => None,
                }).unwrap_or_default();
                return Some(parse_quote!({
                    let #v = #src; let #nn = #v.len(); let mut #i: usize = 0; let mut #r #vt = Vec::new(); let mut #er = None;
                    __vmark!(pre, #lit);
                    while #i < #nn && #er.is_none() { __vmark!(inv, #lit); let #j = #jexp; #(#bind)* __vmark!(top, #lit); match #body { Ok(__x) => { #r.push(__x); } Err(__x) => { #er = Some(__x); } } #i += 1; __vmark!(bot, #lit); }
                    __vmark!(after, #lit);
                    match #er { Some(__x) => Err(__x), None => Ok(#r) }
                }));
            }
            "map.collect" => {
                return Some(parse_quote!({
                    let #v = #src; let #nn = #v.len(); let mut #i: usize = 0; let mut #r = Vec::new();
                    __vmark!(pre, #lit);
                    while #i < #nn { __vmark!(inv, #lit); let #j = #jexp; #(#bind)* __vmark!(top, #lit); #r.push(#body); #i += 1; __vmark!(bot, #lit); }
                    __vmark!(after, #lit);
                    #r
                }));
            }
            _ => return None,
        };
        let fin: Expr = if kind == "find" && mutable {
            let b = &c.base;
            parse_quote!(match #r { Some(__k) => Some(&mut #b[__k]), None => None })
        } else { parse_quote!(#r) };
        Some(parse_quote!({
            let #v = #src; let #nn = #v.len(); let mut #i: usize = 0; let mut #r = #init;
            __vmark!(pre, #lit);
            while #i < #nn { __vmark!(inv, #lit); let #j = #jexp; #(#bind)* __vmark!(top, #lit); if #body { #hit } else { #miss } #i += 1; __vmark!(bot, #lit); }
            __vmark!(after, #lit);
            #fin
        }))
    }

    fn json(&mut self, toks: TokenStream) -> Option<Expr> {
        use proc_macro2::{Delimiter, TokenTree};
        let v: Vec<TokenTree> = toks.clone().into_iter().collect();
        if v.len() == 1 {
            if let TokenTree::Group(g) = &v[0] {
                let mut parts: Vec<Vec<TokenTree>> = vec![vec![]];
                for t in g.stream() {
                    match &t { TokenTree::Punct(p) if p.as_char() == ',' => parts.push(vec![]), _ => parts.last_mut().unwrap().push(t) }
                }
                if parts.last().unwrap().is_empty() { parts.pop(); }
                match g.delimiter() {
                    Delimiter::Brace => {
                        let mut e: Expr = parse_quote!(ureq::Json::obj());
                        for p in parts {
                            let k = p.first()?.clone();
                            if !matches!(&k, TokenTree::Literal(_)) { return None; }
                            if !matches!(p.get(1)?, TokenTree::Punct(c) if c.as_char() == ':') { return None; }
                            let x = self.json(p[2..].iter().cloned().collect())?;
                            e = parse_quote!(#e.field(#k, #x));
                        }
                        return Some(e);
                    }
                    Delimiter::Bracket => {
                        let mut e: Expr = parse_quote!(ureq::Json::arr());
                        for p in parts { let x = self.json(p.into_iter().collect())?; e = parse_quote!(#e.item(#x)); }
                        return Some(e);
                    }
                    _ => {}
                }
            }
        }
        let mut e: Expr = syn::parse2(toks).ok()?;
        self.visit_expr_mut(&mut e);
        Some(parse_quote!((&(#e)).json_v()))
    }

    /// the pieces of a format string: statements that build `__t`
    fn pieces(&mut self, f: &str, args: Vec<Expr>) -> Option<TokenStream> {
        let mut named: BTreeMap<String, Expr> = BTreeMap::new();
        let mut pos: Vec<Expr> = vec![];
        for a in args {
            match a {
                Expr::Assign(x) => { named.insert(x.left.to_token_stream().to_string(), (*x.right).clone()); }
                x => pos.push(x),
            }
        }
        let cs: Vec<char> = f.chars().collect();
        let (mut k, mut lit, mut next) = (0, String::new(), 0usize);
        let mut binds: Vec<TokenStream> = vec![];
        let mut out: Vec<TokenStream> = vec![];
        let mut seen: BTreeMap<usize, Ident> = BTreeMap::new();
        while k < cs.len() {
            match cs[k] {
                '{' if cs.get(k + 1) == Some(&'{') => { lit.push('{'); k += 2; }
                '}' if cs.get(k + 1) == Some(&'}') => { lit.push('}'); k += 2; }
                '}' => return None,
                '{' => {
                    let e = (k..cs.len()).find(|i| cs[*i] == '}')?;
                    let inner: String = cs[k + 1..e].iter().collect();
                    let (name, spec) = match inner.split_once(':') { Some((a, b)) => (a.trim().to_string(), b.trim().to_string()), None => (inner.trim().to_string(), String::new()) };
                    if spec.is_empty() {
                        let a = if name.is_empty() { pos.get(next) } else { named.get(&name).or_else(|| name.parse::<usize>().ok().and_then(|i| pos.get(i))) };
                        if let Some(Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) = a {
                            if name.is_empty() { next += 1; }
                            lit.push_str(&s.value());
                            k = e + 1;
                            continue;
                        }
                    }
                    if !lit.is_empty() { out.push(quote!(__t.push_str(#lit);)); lit.clear(); }
                    let m = match spec.as_str() { "" => id("show_v"), "02x" => id("show_hex02_v"), "02X" => id("show_hexu02_v"), _ => return None };
                    let v: Ident;
                    if name.is_empty() || name.chars().all(|c| c.is_ascii_digit()) {
                        let ix = if name.is_empty() { next += 1; next - 1 } else { name.parse().ok()? };
                        let mut a = pos.get(ix)?.clone();
                        if let Some(w) = seen.get(&ix) { v = w.clone(); } else {
                            self.visit_expr_mut(&mut a);
                            v = id(&format!("__a{}", binds.len()));
                            binds.push(quote!(let #v = &(#a);));
                            seen.insert(ix, v.clone());
                        }
                    } else if let Some(a) = named.get(&name) {
                        let mut a = a.clone();
                        self.visit_expr_mut(&mut a);
                        v = id(&format!("__a{}", binds.len()));
                        binds.push(quote!(let #v = &(#a);));
                    } else {
                        v = syn::parse_str(&name).ok()?;
                    }
                    out.push(quote!(#v.#m(&mut __t);));
                    k = e + 1;
                }
                c => { lit.push(c); k += 1; }
            }
        }
        if !lit.is_empty() { out.push(quote!(__t.push_str(#lit);)); }
        Some(quote!(#(#binds)* let mut __t = String::new(); #(#out)*))
    }

    fn mac(&mut self, m: &syn::Macro) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        match name.as_str() {
            "vec" => {
                let toks = m.tokens.clone();
                if let Ok(mut es) = Punctuated::<Expr, syn::Token![,]>::parse_terminated.parse2(toks.clone()) {
                    for e in es.iter_mut() { self.visit_expr_mut(e); }
                    if es.is_empty() { return Some(parse_quote!(Vec::new())); }
                    return Some(parse_quote!(vec![#es]));
                }
                let parser = |s: syn::parse::ParseStream| -> syn::Result<(Expr, Expr)> {
                    let a: Expr = s.parse()?; s.parse::<syn::Token![;]>()?; let b: Expr = s.parse()?; Ok((a, b))
                };
                let (mut a, mut b) = parser.parse2(toks).ok()?;
                self.visit_expr_mut(&mut a);
                self.visit_expr_mut(&mut b);
                Some(parse_quote!(vec![#a; #b]))
            }
            "panic" | "unimplemented" | "unreachable" | "todo" => { self.note("panic!/unimplemented! -> call with precondition false"); Some(parse_quote!(__panic())) }
            "assert" | "debug_assert" => {
                let mut es = Punctuated::<Expr, syn::Token![,]>::parse_terminated.parse2(m.tokens.clone()).ok()?;
                let e = es.first_mut()?;
                self.visit_expr_mut(e);
                self.note("assert! -> if !cond panic");
                Some(parse_quote!(if !(#e) { __panic() }))
            }
            "matches" => {
                let parser = |s: syn::parse::ParseStream| -> syn::Result<(Expr, Pat)> {
                    let a: Expr = s.parse()?; s.parse::<syn::Token![,]>()?; let b = Pat::parse_multi_with_leading_vert(s)?; let _ = s.parse::<Option<syn::Token![,]>>()?; Ok((a, b))
                };
                let (mut a, p) = parser.parse2(m.tokens.clone()).ok()?;
                self.visit_expr_mut(&mut a);
                Some(parse_quote!(match #a { #p => true, _ => false }))
            }
            "json" => {
                let e = self.json(m.tokens.clone())?;
                self.note("json! -> the value it denotes, built by contract-carrying functions");
                Some(e)
            }
            "format" | "f" => {
                let es = Punctuated::<Expr, syn::Token![,]>::parse_terminated.parse2(m.tokens.clone()).ok()?;
                let mut it = es.into_iter();
                let Some(Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) = it.next() else { return None };
                let f = s.value();
                let args: Vec<Expr> = it.collect();
                if let Some(pre) = f.strip_suffix("{}") {
                    if !pre.contains('{') && !pre.contains('}') && args.len() == 1 {
                        let mut a = args[0].clone();
                        self.visit_expr_mut(&mut a);
                        self.note("format!(\"prefix{}\", s) -> trusted concatenation");
                        return Some(parse_quote!(__concat(#pre, &(#a))));
                    }
                }
                if let Some(o) = f.find('{') {
                    if f.ends_with('}') && args.is_empty() && f.matches('{').count() == 1 {
                        let var = &f[o + 1..f.len() - 1];
                        if let Ok(v) = syn::parse_str::<Ident>(var) {
                            let pre = &f[..o];
                            self.note("format!(\"prefix{}\", s) -> trusted concatenation");
                            return Some(parse_quote!(__concat(#pre, &#v)));
                        }
                    }
                }
                if let Some(e) = self.pieces(&f, args) {
                    self.note("format! -> the pieces appended in order to a new String (Display of each argument under contract)");
                    return Some(parse_quote!(({ #e __t })));
                }
                self.note("format! (other) -> unspecified string");
                Some(parse_quote!(__opaque_string()))
            }
            "write" => {
                let es = Punctuated::<Expr, syn::Token![,]>::parse_terminated.parse2(m.tokens.clone()).ok()?;
                let es: Vec<Expr> = es.into_iter().collect();
                if es.len() < 2 { return None; }
                let Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) = &es[1] else { return None };
                let f = s.value();
                let b = &es[0];
                let to_fmt = b.to_token_stream().to_string() == "f" && self.fmt_param;
                if f == "{:02x}" && es.len() == 3 && !to_fmt {
                    let a = &es[2];
                    self.note("write!(s, \"{:02x}\", b) -> trusted two-digit hex append");
                    return Some(parse_quote!(__write_hex02(&mut #b, *(#a).__r())));
                }
                if let (false, Some(v)) = (to_fmt, f.strip_prefix('{').and_then(|x| x.strip_suffix(":02x}"))) {
                    let v: Ident = syn::parse_str(v).ok()?;
                    self.note("write!(s, \"{:02x}\", b) -> trusted two-digit hex append");
                    return Some(parse_quote!(__write_hex02(&mut #b, *#v.__r())));
                }
                let e = self.pieces(&f, es[2..].to_vec())?;
                self.note("write! -> the pieces appended in order (Display of each argument under contract)");
                Some(parse_quote!(({ #e (#b).put(&__t) })))
            }
            _ => None,
        }
    }
}

struct StripDeref;
impl VisitMut for StripDeref {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e {
            if matches!(u.op, syn::UnOp::Deref(_)) {
                if let Expr::Unary(v) = &*u.expr {
                    if matches!(v.op, syn::UnOp::Deref(_)) { *e = (*u.expr).clone(); }
                }
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}

fn split_or(m: &mut syn::ExprMatch) -> bool {
    let mut out = vec![];
    let mut hit = false;
    for a in m.arms.drain(..) {
        if let Pat::Or(o) = &a.pat {
            let binds = o.to_token_stream().to_string().contains('(');
            if binds {
                hit = true;
                for c in &o.cases {
                    let mut n = a.clone();
                    n.pat = c.clone();
                    if n.comma.is_none() { n.comma = Some(Default::default()); }
                    out.push(n);
                }
                continue;
            }
        }
        out.push(a);
    }
    m.arms = out;
    hit
}

struct Cap { input: syn::Ident, used: bool }
impl Cap {
    fn wrap(&mut self, e: &mut Expr) {
        let (x, i) = (e.clone(), &self.input);
        *e = parse_quote!(__cap(#x, #i.len()));
        self.used = true;
    }
}
impl VisitMut for Cap {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Call(c) if c.args.len() == 1 && c.func.to_token_stream().to_string().ends_with(":: with_capacity") => self.wrap(&mut c.args[0]),
            Expr::MethodCall(m) if ["reserve", "reserve_exact", "resize"].contains(&m.method.to_string().as_str()) && !m.args.is_empty() => self.wrap(&mut m.args[0]),
            Expr::Macro(m) if m.mac.path.is_ident("vec") => {
                let parser = |s: syn::parse::ParseStream| -> syn::Result<(Expr, Expr)> { let a: Expr = s.parse()?; s.parse::<syn::Token![;]>()?; let b: Expr = s.parse()?; Ok((a, b)) };
                if let Ok((a, mut b)) = parser.parse2(m.mac.tokens.clone()) {
                    self.wrap(&mut b);
                    m.mac.tokens = quote::quote!(#a; #b);
                }
            }
            _ => {}
        }
    }
}

impl VisitMut for Lower {
    fn visit_type_mut(&mut self, t: &mut Type) { self.ty.visit_type_mut(t); }
    fn visit_attribute_mut(&mut self, _: &mut syn::Attribute) {}
    fn visit_block_mut(&mut self, b: &mut Block) {
        for s in b.stmts.iter_mut() {
            if let Stmt::Macro(m) = s {
                let mac = m.mac.clone();
                if mac.path.is_ident("__vmark") { continue; }
                if let Some(e) = self.mac(&mac) {
                    let semi = m.semi_token;
                    *s = Stmt::Expr(e, semi);
                }
                continue;
            }
            self.visit_stmt_mut(s);
            if let Stmt::Local(l) = s {
                l.attrs.clear();
                // an irrefutable array pattern reads the elements
                let n: Option<(Pat, Expr)> = match (&l.pat, &l.init) {
                    (Pat::Slice(p), Some(i)) if i.diverge.is_none() => {
                        let k = p.elems.len() - usize::from(matches!(p.elems.last(), Some(Pat::Rest(_))));
                        let ids: Vec<_> = p.elems.iter().take(k).filter_map(|x| match x { Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => Some(i.clone()), _ => None }).collect();
                        if ids.len() == k && k > 0 {
                            let x = &i.expr;
                            let ix = (0..k).map(syn::Index::from);
                            Some((parse_quote!((#(#ids,)*)), parse_quote!({ let __sl = #x; (#(__sl[#ix],)*) })))
                        } else { None }
                    }
                    _ => None,
                };
                if let Some((p, x)) = n {
                    l.pat = p;
                    if let Some(i) = &mut l.init { i.expr = Box::new(x); }
                    self.note("array pattern -> elements");
                }
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // strip lint attributes
        if let Expr::Macro(m) = e {
            if let Some(n) = self.mac(&m.mac.clone()) { *e = n; }
            return;
        }
        // text appended with an operator
        if let Expr::Binary(b) = e {
            if matches!(b.op, syn::BinOp::AddAssign(_)) {
                let text = match &*b.right {
                    Expr::Lit(l) => matches!(l.lit, syn::Lit::Str(_)),
                    Expr::Path(p) => p.path.get_ident().map(|i| self.str_vars.contains(&i.to_string())).unwrap_or(false),
                    Expr::MethodCall(m) => m.method == "as_str" && m.args.is_empty(),
                    Expr::Reference(r) => match &*r.expr {
                        Expr::Macro(m) => m.mac.path.segments.last().map(|s| s.ident == "format" || s.ident == "f").unwrap_or(false),
                        Expr::Path(p) => p.path.get_ident().map(|i| self.str_vars.contains(&i.to_string())).unwrap_or(false),
                        Expr::MethodCall(m) => m.method == "to_string" && m.args.is_empty(),
                        _ => false,
                    },
                    _ => false,
                };
                if text {
                    let (l, r) = (&b.left, &b.right);
                    *e = parse_quote!(#l.push_str(#r));
                    self.note("text += -> push_str");
                }
            }
        }
        // comparison of text
        if let Expr::Binary(b) = e {
            let ne = matches!(b.op, syn::BinOp::Ne(_));
            if ne || matches!(b.op, syn::BinOp::Eq(_)) {
                fn core(e: &Expr) -> Option<String> {
                    match e {
                        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
                        Expr::Paren(p) => core(&p.expr),
                        Expr::Reference(r) => core(&r.expr),
                        Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => core(&u.expr),
                        Expr::MethodCall(m) if m.method == "as_str" => Some("as_str()".into()),
                        Expr::MethodCall(m) if m.method == "as_ref" && m.args.is_empty() => core(&m.receiver),
                        _ => None,
                    }
                }
                let text = |x: &Expr| core(x).map(|n| n == "as_str()" || self.str_vars.contains(&n)).unwrap_or(false);
                if text(&b.left) || text(&b.right) {
                    let (l, r) = (&b.left, &b.right);
                    *e = if ne { parse_quote!(!__streq(&#l, &#r)) } else { parse_quote!(__streq(&#l, &#r)) };
                    self.note("comparison of text -> contract-carrying function");
                }
            }
        }
        if let Expr::Match(m) = e {
            if split_or(m) { self.note("or-pattern with bindings -> one arm per alternative"); }
        }
        // Option-valued search followed by .map(closure)
        if let Expr::MethodCall(m) = e {
            if m.method == "map" && m.args.len() == 1 {
                let opt = match &*m.receiver { Expr::MethodCall(r) => matches!(r.method.to_string().as_str(), "find" | "position" | "pop" | "get" | "first" | "last" | "get_mut"), _ => false };
                if opt {
                    if let Expr::Closure(c) = &m.args[0] {
                        if c.inputs.len() == 1 {
                            let p = &c.inputs[0];
                            let b = &c.body;
                            let r = &m.receiver;
                            let ne: Expr = parse_quote!(match #r { Some(#p) => Some(#b), None => None });
                            self.note("Option::map(closure) -> match");
                            *e = ne;
                        }
                    }
                }
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::ForLoop(f) => { if let Some(n) = self.for_loop(f) { *e = n; } }
            Expr::While(w) => {
                if let Some(n) = take_mark(&mut w.attrs) {
                    let lit = syn::LitInt::new(&n.to_string(), Span::call_site());
                    let stmts = &w.body.stmts;
                    let label = &w.label;
                    if let Expr::Let(l) = &*w.cond {
                        let (p, x) = (&l.pat, &l.expr);
                        let ne: Expr = parse_quote!({ __vmark!(pre, #lit); #label loop { __vmark!(inv, #lit); if let #p = #x { __vmark!(top, #lit); #(#stmts)* __vmark!(bot, #lit); } else { break; } } __vmark!(after, #lit); });
                        self.note("while let -> loop with if let / break");
                        *e = ne;
                    } else {
                        let c = &w.cond;
                        *e = parse_quote!({ __vmark!(pre, #lit); #label while #c { __vmark!(inv, #lit); __vmark!(top, #lit); #(#stmts)* __vmark!(bot, #lit); } __vmark!(after, #lit); });
                    }
                }
            }
            Expr::Loop(w) => {
                if let Some(n) = take_mark(&mut w.attrs) {
                    let lit = syn::LitInt::new(&n.to_string(), Span::call_site());
                    let stmts = &w.body.stmts;
                    let label = &w.label;
                    *e = parse_quote!(#label loop { __vmark!(inv, #lit); __vmark!(top, #lit); #(#stmts)* __vmark!(bot, #lit); });
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if m.attrs.iter().any(|a| a.path().is_ident("__l")) {
                    let mut mm = m.clone();
                    if let Some(n) = self.iter_fn(&mut mm) { *e = n; return; }
                    take_mark(&mut m.attrs);
                }
                let recv = m.receiver.to_token_stream().to_string().replace(' ', "");
                if (name == "as_ref" || name == "into") && m.args.is_empty() {
                    if let Some(g) = self.params.get(&recv).cloned() {
                        match g {
                            G::Mono(_, a, i) if (a && name == "as_ref") || (i && name == "into") => { let r = (*m.receiver).clone(); self.note("generic parameter monomorphised"); *e = r; return; }
                            G::Keep(_) if name == "into" => { m.method = id("into_v"); self.note("Into<..> bound -> contract-carrying trait"); }
                            G::Keep(_) => { m.method = id("as_ref_v"); self.note("AsRef<[u8]> bound -> contract-carrying trait"); }
                            _ => {}
                        }
                    } else if name == "into" && self.ret_string && (recv.starts_with('"') || recv.chars().all(|c| c.is_ascii_uppercase() || c == '_' || c.is_ascii_digit())) {
                        m.method = id("into_v"); self.note("Into<..> bound -> contract-carrying trait");
                    }
                } else if self.rpc && matches!((name.as_str(), m.args.len()), ("call", 0) | ("send_json", 1) | ("send_bytes", 1) | ("send_string", 1)) {
                    self.note("network calls take the (ghost) history of exchanges");
                    m.args.push(parse_quote!(net));
                } else if name == "to_be_bytes" && m.args.is_empty() { m.method = id("to_be_bytes_v"); }
                else if (name == "starts_with" || name == "strip_prefix") && m.args.len() == 1 && matches!(&m.args[0], Expr::Lit(syn::ExprLit { lit: syn::Lit::Char(_) | syn::Lit::Str(_), .. })) {
                    let (r, a) = (&m.receiver, &m.args[0]);
                    let ch = matches!(a, Expr::Lit(syn::ExprLit { lit: syn::Lit::Char(_), .. }));
                    let f = id(&format!("__{name}_{}", if ch { "char" } else { "str" }));
                    *e = parse_quote!(#f(&#r, #a));
                }
                else if name == "extend_from_slice" && m.args.len() == 1 { m.method = id("extend_v"); }
                else if name == "extend" && m.args.len() == 1 {
                    // extend with a whole byte sequence (by value, by reference or through iter/copied/cloned/into_iter)
                    let mut a = strip(&m.args[0]).clone();
                    loop {
                        match &a {
                            Expr::MethodCall(i) if i.args.is_empty() && matches!(i.method.to_string().as_str(), "iter" | "copied" | "cloned" | "into_iter") => { a = strip(&i.receiver).clone(); }
                            Expr::Reference(r) if r.mutability.is_none() => { a = strip(&r.expr).clone(); }
                            _ => break,
                        }
                    }
                    self.note("Vec::extend with a byte sequence -> extend_from_slice");
                    let r = &m.receiver;
                    *e = parse_quote!(#r.extend_v((&#a).as_ref_v()));
                }
                else if name == "count" && m.args.is_empty() && matches!(&*m.receiver, Expr::MethodCall(i) if i.method == "chars" && i.args.is_empty()) {
                    let Expr::MethodCall(i) = &*m.receiver else { unreachable!() };
                    let r = &i.receiver;
                    *e = parse_quote!(__chars(&#r).len());
                }
                else if name == "is_some_and" && m.args.len() == 1 && matches!(&m.args[0], Expr::Closure(c) if c.inputs.len() == 1) {
                    let Expr::Closure(c) = &m.args[0] else { unreachable!() };
                    let (p, b, r) = (&c.inputs[0], &c.body, &m.receiver);
                    self.note("Option::is_some_and(closure) -> match");
                    *e = parse_quote!(match #r { Some(#p) => #b, None => false });
                }
                else if name == "concat" && m.args.is_empty() && matches!(strip(&m.receiver), Expr::Array(_)) {
                    let Expr::Array(a) = strip(&m.receiver) else { unreachable!() };
                    let es: Vec<Expr> = a.elems.iter().cloned().collect();
                    self.note("[a, b, ..].concat() -> successive extend_from_slice");
                    *e = parse_quote!({ let mut __c: Vec<u8> = Vec::new(); #(__c.extend_v((&#es).as_ref_v());)* __c });
                }
                else if name == "copy_from_slice" && m.args.len() == 1 && matches!(strip(&m.receiver), Expr::Index(ix) if matches!(&*ix.index, Expr::Range(_))) {
                    let Expr::Index(ix) = strip(&m.receiver) else { unreachable!() };
                    let Expr::Range(rg) = &*ix.index else { unreachable!() };
                    let b = &ix.expr;
                    let lo: Expr = rg.start.as_ref().map(|x| (**x).clone()).unwrap_or(parse_quote!(0));
                    let hi: Expr = rg.end.as_ref().map(|x| (**x).clone()).unwrap_or(parse_quote!(#b.len()));
                    let a = &m.args[0];
                    if matches!(rg.limits, syn::RangeLimits::HalfOpen(_)) {
                        self.note("a[lo..hi].copy_from_slice(s) -> contract-carrying function with the same panic conditions");
                        *e = parse_quote!({ let __lo = #lo; let __hi = #hi; #b.copy_range_v(__lo, __hi, #a) });
                    }
                }
                else if name == "to_string" && m.args.is_empty() { m.method = id("to_string_v"); self.note("to_string on text -> contract-carrying trait"); }
                else if name == "clone" && m.args.is_empty() { m.method = id("clone_v"); self.note("clone -> contract-carrying trait"); }
                else if name == "try_into" && m.args.is_empty() { m.method = id("try_into_v"); self.note("try_into -> contract-carrying trait"); }
                else if (name == "min" || name == "max") && m.args.len() == 1 { m.method = id(&format!("{name}_v")); }
                else if name == "bytes" && m.args.is_empty() { m.method = id("bytes_v"); self.note("str::bytes -> trusted byte iterator"); }
                else if name == "into_iter" && m.args.is_empty() { m.method = id("into_iter_v"); self.note("consuming iterator -> the sequence of its items"); }
                else if name == "contains" && m.args.len() == 1 && matches!(strip(&m.receiver), Expr::Array(_)) {
                    let (r, a) = (&m.receiver, &m.args[0]);
                    *e = parse_quote!(__contains(&#r, #a));
                } else if name == "collect" && self.ret_string {
                    if let Expr::MethodCall(i) = &*m.receiver {
                        if i.method == "rev" && i.args.is_empty() {
                            if let Expr::MethodCall(j) = strip(&i.receiver) {
                                if j.method == "into_iter_v" || j.method == "into_iter" || j.method == "iter" {
                                    let r = &j.receiver;
                                    self.note("Vec<char> collected backwards into String -> trusted function");
                                    *e = parse_quote!(__collect_string_rev(&#r));
                                }
                            }
                        } else if i.method == "into_iter_v" || i.method == "into_iter" || i.method == "iter" {
                            let r = &i.receiver;
                            self.note("Vec<char> collected into String -> trusted function");
                            *e = parse_quote!(__collect_string(&#r));
                        }
                    }
                } else if name == "unwrap" {
                    if let Expr::Call(c) = &*m.receiver {
                        if c.func.to_token_stream().to_string() == "__write_hex02" { let r = (*m.receiver).clone(); *e = r; }
                    }
                }
            }
            Expr::Index(ix) => {
                if let Expr::Range(rg) = &mut *ix.index {
                    if let (syn::RangeLimits::Closed(_), Some(b)) = (&rg.limits, &rg.end) {
                        let nb: Expr = parse_quote!((#b) + 1);
                        rg.limits = syn::RangeLimits::HalfOpen(Default::default());
                        rg.end = Some(Box::new(nb));
                        self.note("a..=b slice -> a..b+1");
                    }
                } else if matches!(&*ix.index, Expr::Reference(_)) {
                    let (m, k) = (&ix.expr, &ix.index);
                    let n: Expr = parse_quote!((*#m.get(#k).unwrap()));
                    self.note("map[&key] -> get and unwrap");
                    *e = n;
                }
            }
            Expr::Reference(r) if r.mutability.is_none() => {
                if let Expr::Index(ix) = &*r.expr {
                    if let (Expr::Path(p), Expr::Range(rg)) = (&*ix.expr, &*ix.index) {
                        if p.path.get_ident().map(|i| self.str_vars.contains(&i.to_string())).unwrap_or(false) && matches!(rg.limits, syn::RangeLimits::HalfOpen(_)) {
                            let a: Expr = rg.start.as_ref().map(|x| (**x).clone()).unwrap_or(parse_quote!(0));
                            let v = &ix.expr;
                            self.note("text slice -> function with a character-boundary precondition");
                            let n: Expr = match &rg.end { Some(b) => parse_quote!(__str_slice(&#v, #a, #b)), None => parse_quote!(__str_slice(&#v, #a, #v.len())) };
                            *e = n;
                        }
                    }
                }
            }
            Expr::Cast(c) if { let t = c.ty.to_token_stream().to_string(); t.starts_with("Box < dyn") || t.starts_with("Box < Dyn") || t == "Box < _ >" } => { let x = (*c.expr).clone(); *e = x; }
            Expr::Call(c) => {
                let f = c.func.to_token_stream().to_string().replace(' ', "");
                if f.ends_with("box_assume_init_into_vec_unsafe") && c.args.len() == 1 {
                    // what the compiler makes of vec![..]
                    if let Expr::Call(w) = &c.args[0] {
                        if let Some(Expr::Array(a)) = w.args.last() { let es = &a.elems; *e = parse_quote!(vec![#es]); self.note("the compiler's expansion of vec![..] -> vec![..]"); }
                    }
                } else if self.uses && matches!(f.as_str(), "STXPostCondition::new" | "FungiblePostCondition::new" | "NonFungiblePostCondition::new") {
                    for k in 0..if f.starts_with('N') { 2 } else { 1 } { let a = &c.args[k]; c.args[k] = parse_quote!((#a).into_dyn()); }
                    self.note("argument of a parameter T: Clarity -> closed enum");
                } else if f == "Box::new" && c.args.len() == 1 {
                    let a = &c.args[0];
                    self.note("Box::new(x) as Box<dyn Trait> -> closed enum");
                    *e = parse_quote!(Box::new((#a).into_dyn()));
                } else if let Some(t) = f.strip_prefix("Box::<").and_then(|x| x.strip_suffix(">::default")) {
                    if let Ok(t) = syn::parse_str::<Type>(t) { *e = parse_quote!(Box::new(<#t>::default().into_dyn())); self.note("Box::new(x) as Box<dyn Trait> -> closed enum"); }
                } else if matches!(f.as_str(), "std::cmp::min" | "std::cmp::max" | "core::cmp::min" | "core::cmp::max" | "cmp::min" | "cmp::max") && c.args.len() == 2 {
                    let (a, b) = (&c.args[0], &c.args[1]);
                    let g = id(if f.ends_with("min") { "min_v" } else { "max_v" });
                    *e = parse_quote!((#a).#g(#b));
                } else if matches!(f.as_str(), "i16::from" | "i32::from" | "i64::from" | "i128::from") && c.args.len() == 1 {
                    let a = &c.args[0];
                    let t: Type = syn::parse_str(f.strip_suffix("::from").unwrap()).unwrap();
                    self.note("lossless integer From -> as");
                    *e = parse_quote!(((#a) as #t));
                } else if f == "char::from" && c.args.len() == 1 {
                    let a = &c.args[0];
                    self.note("char::from(u8) -> as");
                    *e = parse_quote!(((#a) as char));
                } else if let Some(t) = f.strip_suffix("::from_be_bytes") {
                    let t: Type = syn::parse_str(t).unwrap();
                    let a = &c.args;
                    *e = parse_quote!(<#t>::from_be_bytes_v(#a));
                }
            }
            _ => {}
        }
    }
}

struct ClearAttrs;
impl VisitMut for ClearAttrs {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        match s {
            Stmt::Expr(e, _) => clear(e),
            Stmt::Local(l) => {
                l.attrs.clear();
                if let (Pat::Reference(p), Some(i)) = (&l.pat, &mut l.init) {
                    if p.mutability.is_none() && i.diverge.is_none() {
                        let inner = (*p.pat).clone(); let ex = (*i.expr).clone();
                        l.pat = inner; *i.expr = parse_quote!(*(#ex));
                    }
                }
            }
            _ => {}
        }
        syn::visit_mut::visit_stmt_mut(self, s);
    }
}
fn clear(e: &mut Expr) {
    match e {
        Expr::MethodCall(x) => x.attrs.clear(),
        Expr::Assign(x) => x.attrs.clear(),
        Expr::Call(x) => x.attrs.clear(),
        Expr::If(x) => x.attrs.clear(),
        Expr::Match(x) => x.attrs.clear(),
        Expr::Block(x) => x.attrs.clear(),
        Expr::Binary(x) => x.attrs.clear(),
        Expr::ForLoop(x) => x.attrs.clear(),
        Expr::While(x) => x.attrs.clear(),
        Expr::Loop(x) => x.attrs.clear(),
        _ => {}
    }
}

fn param_names(p: &Pat) -> Option<String> { if let Pat::Ident(i) = p { Some(i.ident.to_string()) } else { None } }

pub fn unit(r: &RawFn, mut block: Block, inlined: Vec<String>, unknown: Vec<String>, iter_types: &[String]) -> Value {
    let gm = generics_map(&[&r.impl_generics, &r.generics]);
    let mut tmap: BTreeMap<String, Type> = BTreeMap::new();
    let mut kept: Vec<(String, String)> = vec![];
    let mut class: BTreeMap<String, G> = BTreeMap::new();
    let method = r.sig.ident.to_string().starts_with("boxed_cast");
    let own: Vec<String> = r.generics.type_params().map(|t| t.ident.to_string()).collect();
    let inputs = r.sig.inputs.to_token_stream().to_string();
    for (k, b) in &gm {
        let last = b.rsplit("::").next().unwrap();
        if DYN.contains(&last) && own.contains(k) && !inputs.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == k) {
            kept.push((k.clone(), format!("{last}T")));
            continue;
        }
        match classify(b) {
            Some(G::Mono(t, a, i)) => { tmap.insert(k.clone(), syn::parse_str(&t).unwrap()); class.insert(k.clone(), G::Mono(t, a, i)); }
            Some(G::Keep(t)) => { kept.push((k.clone(), t.clone())); class.insert(k.clone(), G::Keep(t)); }
            None => kept.push((k.clone(), b.clone())),
        }
    }
    if let Some(b) = &r.boxed_dyn { let i = id(&format!("Dyn{b}")); tmap.insert("Self".into(), parse_quote!(Box<#i>)); }
    let mut params: BTreeMap<String, G> = BTreeMap::new();
    let mut args: Vec<String> = vec![];
    let mut tl = TyLower { map: tmap.clone() };
    let mut mut_params: Vec<Stmt> = vec![];
    for inp in &r.sig.inputs {
        match inp {
            syn::FnArg::Receiver(rc) => {
                if r.boxed_dyn.is_some() && rc.reference.is_some() && !method { args.push("this: & Box<".to_string() + &format!("Dyn{}", r.boxed_dyn.clone().unwrap()) + ">"); }
                else { args.push(rc.to_token_stream().to_string()); }
            }
            syn::FnArg::Typed(pt) => {
                let tn = pt.ty.to_token_stream().to_string();
                if let (Some(n), Some(g)) = (param_names(&pt.pat), class.get(&tn)) { params.insert(n, g.clone()); }
                let mut ty = (*pt.ty).clone();
                tl.visit_type_mut(&mut ty);
                let mut pat = (*pt.pat).clone();
                if let Pat::Ident(pi) = &mut pat {
                    if pi.mutability.is_some() {
                        pi.mutability = None;
                        let n = &pi.ident;
                        mut_params.push(parse_quote!(let mut #n = #n;));
                    }
                }
                args.push(format!("{} : {}", pat.to_token_stream(), ty.to_token_stream()));
            }
        }
    }
    let ret = match &r.sig.output {
        syn::ReturnType::Default => String::new(),
        syn::ReturnType::Type(_, t) => { let mut t = (**t).clone(); tl.visit_type_mut(&mut t); t.to_token_stream().to_string() }
    };
    // functions returning an iterator: the sequence of its items
    let mut ret = ret;
    if let Some(x) = ret.strip_prefix("impl Iterator < Item = ") {
        if let Some(Stmt::Expr(e @ Expr::MethodCall(_), None)) = block.stmts.last_mut() {
            let old = e.clone();
            *e = parse_quote!(#old.collect());
            ret = format!("Vec < {}", x);
        }
    }
    ClearAttrs.visit_block_mut(&mut block);
    ByteStr.visit_block_mut(&mut block);
    let mut comb = Comb { used: false };
    comb.visit_block_mut(&mut block);
    let mut num = Number { n: 0, desc: vec![], ret_string: ret == "String" };
    num.visit_block_mut(&mut block);
    let mut iv = IterVars { types: iter_types, vars: BTreeSet::new() };
    syn::visit::Visit::visit_block(&mut iv, &block);
    let mut sv = StrVars { vars: BTreeSet::new() };
    for inp in &r.sig.inputs {
        if let syn::FnArg::Typed(pt) = inp {
            let ty = pt.ty.to_token_stream().to_string().replace(' ', "");
            let g = class.get(&ty).map(|g| matches!(g, G::Keep(k) if k.starts_with("IntoV")) || matches!(g, G::Mono(t, ..) if t.replace(" ", "") == "&str")).unwrap_or(false);
            if ty == "String" || ty == "&str" || ty == "&String" || g { if let Some(n) = param_names(&pt.pat) { sv.vars.insert(n); } }
        }
    }
    syn::visit::Visit::visit_block(&mut sv, &block);
    let mut lo = Lower { auto: vec![], rpc: r.module == "rpc", uses: r.module == "uses", fmt_param: args.iter().any(|a| a.contains("__Fmt")), str_vars: sv.vars, iter_types: iter_types.to_vec(), iter_vars: iv.vars, params, low: BTreeSet::new(), ret_string: ret == "String", ty: TyLower { map: tmap } };
    lo.visit_block_mut(&mut block);
    // decoders: what is asked of the allocator must be in proportion to the input
    if r.sig.ident.to_string().contains("decode") && matches!(r.module.as_str(), "clarity" | "transaction") {
        let input = r.sig.inputs.iter().find_map(|i| match i { syn::FnArg::Typed(p) if p.ty.to_token_stream().to_string().replace(' ', "") == "&[u8]" => param_names(&p.pat), _ => None });
        if let Some(n) = input {
            let mut cap = Cap { input: syn::Ident::new(&n, proc_macro2::Span::call_site()), used: false };
            cap.visit_block_mut(&mut block);
            if cap.used { lo.note("allocation request in a decoder -> checked against the input length"); }
        }
    }
    if comb.used { lo.note("Option/Result combinator with a closure -> match"); }
    if !inlined.is_empty() { lo.note("uncontracted helper inlined"); }
    // closures that remain carry no contract
    struct Closures(usize);
    impl<'a> syn::visit::Visit<'a> for Closures {
        fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) { self.0 += 1; syn::visit::visit_expr_closure(self, c); }
    }
    // the names the function binds, in order: proof text written for other names follows a renaming
    struct Binds(Vec<String>);
    impl<'ast> syn::visit::Visit<'ast> for Binds {
        fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
            self.0.push(p.ident.to_string());
            syn::visit::visit_pat_ident(self, p);
        }
    }
    let mut binds = Binds(vec![]);
    syn::visit::Visit::visit_block(&mut binds, &block);
    let mut closures = Closures(0);
    syn::visit::Visit::visit_block(&mut closures, &block);
    // marker before the tail expression
    let tail: Stmt = parse_quote!(__vmark!(tail, 0););
    let start: Stmt = parse_quote!(__vmark!(start, 0););
    let has_tail = matches!(block.stmts.last(), Some(Stmt::Expr(_, None)) | Some(Stmt::Macro(_)));
    let pos = if has_tail { block.stmts.len() - 1 } else { block.stmts.len() };
    block.stmts.insert(pos, tail);
    for (k, m) in mut_params.into_iter().enumerate() { block.stmts.insert(k, m); }
    block.stmts.insert(0, start);
    let mut body = block.to_token_stream().to_string();
    if r.boxed_dyn.is_some() && !method { body = body.replace("self .", "this ."); }
    let lts: Vec<String> = r.generics.lifetimes().map(|l| l.lifetime.to_string()).collect();
    let mut gs: Vec<String> = lts;
    gs.extend(kept.iter().map(|(k, b)| if b.is_empty() { k.clone() } else { format!("{k}: {b}") }));
    let impl_lts: Vec<String> = r.impl_generics.lifetimes().map(|l| l.lifetime.to_string()).collect();
    json!({
        "key": r.key, "module": r.module, "self_ty": r.self_ty, "trait": r.trait_, "file": r.file,
        "name": r.sig.ident.to_string(), "generics": gs, "impl_lifetimes": impl_lts, "args": args, "ret": ret, "body": body,
        "loops": num.desc, "auto": lo.auto.iter().map(|(n, x, k, v)| json!([n, x, k, v])).collect::<Vec<_>>(), "lowerings": lo.low.into_iter().collect::<Vec<_>>(), "inlined": inlined, "unknown_calls": unknown, "closures": closures.0, "binds": binds.0,
        "src": r.block.to_token_stream().to_string(),
    })
}
