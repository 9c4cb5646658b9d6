//! Inlining of private helper functions that carry no contract (so that extracting a helper from a
//! contracted function leaves the verified text equivalent).
use crate::RawFn;
use proc_macro2::Span;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::{parse_quote, Block, Expr, Ident, Stmt};

pub struct Inliner {
    fns: BTreeMap<String, Vec<(Option<String>, String, syn::Signature, Block, String)>>, // name -> (self_ty, key, sig, body, module)
    contracted: BTreeSet<String>,
}

struct Rets { ret: bool, ret_non_err: bool, q: bool }
impl<'a> Visit<'a> for Rets {
    fn visit_expr_return(&mut self, r: &'a syn::ExprReturn) {
        self.ret = true;
        let is_err = match &r.expr {
            Some(e) => e.to_token_stream().to_string().starts_with("Err ("),
            None => false,
        };
        if !is_err { self.ret_non_err = true; }
        syn::visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, t: &'a syn::ExprTry) {
        self.q = true;
        syn::visit::visit_expr_try(self, t);
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}

fn err_ty(out: &syn::ReturnType) -> Option<String> {
    if let syn::ReturnType::Type(_, t) = out {
        if let syn::Type::Path(p) = &**t {
            let l = p.path.segments.last()?;
            if l.ident == "Result" {
                if let syn::PathArguments::AngleBracketed(a) = &l.arguments {
                    return a.args.iter().nth(1).map(|x| x.to_token_stream().to_string().replace("Self :: Err", "Error").split("::").last().unwrap().trim().to_string());
                }
            }
        }
    }
    None
}

/// whether a block binds the name again
fn rebinds(b: &Block, x: &Ident) -> bool {
    struct B<'b> { x: &'b Ident, hit: bool }
    impl<'a, 'b> Visit<'a> for B<'b> {
        fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) { if p.ident == *self.x { self.hit = true; } }
    }
    let mut v = B { x, hit: false };
    v.visit_block(b);
    v.hit
}

/// replaces a name by a literal, in format strings too
struct Subst<'a> { x: &'a Ident, l: &'a syn::ExprLit }
impl<'a> VisitMut for Subst<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.is_ident(self.x) { *e = Expr::Lit(self.l.clone()); return; }
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        use proc_macro2::{TokenStream, TokenTree};
        fn go(t: TokenStream, x: &Ident, l: &syn::ExprLit) -> TokenStream {
            t.into_iter().flat_map(|t| match t {
                TokenTree::Ident(i) if i == *x => l.to_token_stream(),
                TokenTree::Group(g) => TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream(), x, l))).into(),
                TokenTree::Literal(q) => {
                    if let (Ok(s), syn::Lit::Str(v)) = (syn::parse2::<syn::LitStr>(q.to_token_stream()), &l.lit) {
                        let n = s.value().replace(&format!("{{{x}}}"), &v.value().replace('{', "{{").replace('}', "}}"));
                        return syn::LitStr::new(&n, Span::call_site()).to_token_stream();
                    }
                    q.to_token_stream()
                }
                t => t.into(),
            }).collect()
        }
        m.tokens = go(std::mem::take(&mut m.tokens), self.x, self.l);
    }
}

/// replaces a type parameter by the type the caller names
struct SubstTy<'a> { x: &'a Ident, t: &'a syn::Type }
impl<'a> VisitMut for SubstTy<'a> {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if p.leading_colon.is_none() && p.segments.first().is_some_and(|s| s.ident == *self.x) {
            if let syn::Type::Path(tp) = self.t {
                if tp.qself.is_none() {
                    let rest: Vec<_> = p.segments.iter().skip(1).cloned().collect();
                    let mut n = tp.path.clone();
                    n.segments.extend(rest);
                    *p = n;
                    return;
                }
            }
        }
        syn::visit_mut::visit_path_mut(self, p);
    }
    fn visit_type_mut(&mut self, ty: &mut syn::Type) {
        if let syn::Type::Path(p) = ty {
            if p.qself.is_none() && p.path.is_ident(self.x) { *ty = self.t.clone(); return; }
        }
        syn::visit_mut::visit_type_mut(self, ty);
    }
}

/// the types given in the call: `helper::<A, B>(..)`
fn turbofish(e: &Expr) -> Vec<syn::Type> {
    let a = match e {
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => match p.path.segments.last().map(|s| &s.arguments) { Some(syn::PathArguments::AngleBracketed(a)) => Some(&a.args), _ => None },
            _ => None,
        },
        Expr::MethodCall(m) => m.turbofish.as_ref().map(|a| &a.args),
        _ => None,
    };
    a.map(|a| a.iter().filter_map(|x| match x { syn::GenericArgument::Type(t) if !matches!(t, syn::Type::Infer(_)) => Some(t.clone()), _ => None }).collect()).unwrap_or_default()
}

struct Pass<'a> {
    me: &'a Inliner,
    module: String,
    self_ty: Option<String>,
    cur_key: String,
    cur_err: Option<String>,
    cur_out: String,
    depth: usize,
    inlined: Vec<String>,
    unknown: Vec<String>,
}

impl<'a> Pass<'a> {
    /// the helper this expression calls, if it is a local function
    fn target(&self, e: &Expr) -> Option<(usize, String, Vec<Expr>)> {
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let name = segs.last()?.clone();
                    let cands = self.me.fns.get(&name)?;
                    let ty = if segs.len() >= 2 {
                        let t = &segs[segs.len() - 2];
                        if t == "Self" { self.self_ty.clone() } else if t.chars().next()?.is_uppercase() { Some(t.clone()) } else { None }
                    } else { None };
                    let ix = cands.iter().position(|c| c.0 == ty && c.4 == self.module).or_else(|| cands.iter().position(|c| c.0 == ty))?;
                    Some((ix, name, c.args.iter().cloned().collect()))
                } else { None }
            }
            Expr::MethodCall(m) => {
                if m.receiver.to_token_stream().to_string() == "self" {
                    let name = m.method.to_string();
                    let cands = self.me.fns.get(&name)?;
                    let ix = cands.iter().position(|c| c.0 == self.self_ty)?;
                    let mut a = vec![(*m.receiver).clone()];
                    a.extend(m.args.iter().cloned());
                    Some((ix, name, a))
                } else { None }
            }
            _ => None,
        }
    }

    fn try_inline(&mut self, e: &Expr, with_q: bool, tail: bool) -> Option<Expr> {
        let (ix, name, args) = self.target(e)?;
        let (ty, key, sig, body, module) = &self.me.fns[&name][ix];
        let (mut sig, mut body) = (sig.clone(), body.clone());
        let given = turbofish(e);
        let params: Vec<Ident> = sig.generics.params.iter().filter_map(|g| match g { syn::GenericParam::Type(t) => Some(t.ident.clone()), _ => None }).collect();
        if !given.is_empty() && given.len() == params.len() {
            for (x, t) in params.iter().zip(&given) {
                SubstTy { x, t }.visit_block_mut(&mut body);
                for i in sig.inputs.iter_mut() { SubstTy { x, t }.visit_fn_arg_mut(i); }
                SubstTy { x, t }.visit_return_type_mut(&mut sig.output);
            }
            sig.generics = Default::default();
        }
        let (sig, body) = (&sig, &body);
        if self.me.contracted.contains(key) || *key == self.cur_key { return None; }
        // constructors / accessors of other types are not helpers of this function
        let mut r = Rets { ret: false, ret_non_err: false, q: false };
        r.visit_block(body);
        let out = sig.output.to_token_stream().to_string();
        let same_err = err_ty(&sig.output).is_some() && err_ty(&sig.output) == self.cur_err && *module == self.module;
        let ok = if tail && out == self.cur_out { true }
            else if with_q { !r.ret_non_err && ((!r.ret && !r.q) || same_err) }
            else { !r.ret && !r.q };
        if !ok || self.depth > 3 || (ty.is_some() && *ty != self.self_ty) {
            self.unknown.push(key.clone());
            return None;
        }
        let mut lits: Vec<(Ident, syn::ExprLit)> = vec![];
        let mut pre: Vec<Stmt> = vec![];
        let mut post: Vec<Stmt> = vec![];
        let mut ai = args.into_iter();
        for (i, inp) in sig.inputs.iter().enumerate() {
            match inp {
                syn::FnArg::Receiver(_) => {
                    let a = ai.next()?;
                    if a.to_token_stream().to_string() != "self" {
                        self.unknown.push(key.clone());
                        return None;
                    }
                }
                syn::FnArg::Typed(pt) => {
                    let a = ai.next()?;
                    // a literal argument takes the place of the parameter
                    if let (Expr::Lit(l), syn::Pat::Ident(pi)) = (&a, &*pt.pat) {
                        if pi.mutability.is_none() && pi.subpat.is_none() && !rebinds(body, &pi.ident) {
                            lits.push((pi.ident.clone(), l.clone()));
                        }
                    }
                    let t = Ident::new(&format!("__a{}_{}", self.depth, i), Span::call_site());
                    let ty = &pt.ty;
                    let tys = ty.to_token_stream().to_string();
                    let generic = sig.generics.params.iter().any(|g| match g {
                        syn::GenericParam::Type(tp) => tys.split(|c: char| !c.is_alphanumeric()).any(|w| tp.ident == w),
                        _ => false,
                    }) || tys.contains("impl ") || tys.contains('\'');
                    if generic { pre.push(parse_quote!(let #t = #a;)); } else { pre.push(parse_quote!(let #t: #ty = #a;)); }
                    let p = &pt.pat;
                    post.push(parse_quote!(let #p = #t;));
                }
            }
        }
        self.inlined.push(key.clone());
        let mut b = body.clone();
        for (x, l) in &lits { Subst { x, l }.visit_block_mut(&mut b); }
        self.depth += 1;
        self.block(&mut b, tail);
        self.depth -= 1;
        let mut stmts = pre;
        stmts.extend(post);
        stmts.extend(b.stmts);
        let blk = Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts } });
        // name the type of the inlined result, as the signature of the helper did
        if with_q {
            if let syn::ReturnType::Type(_, t) = &sig.output {
                let ts = t.to_token_stream().to_string();
                let generic = sig.generics.params.iter().any(|g| matches!(g, syn::GenericParam::Type(tp) if ts.split(|c: char| !c.is_alphanumeric()).any(|w| tp.ident == w))) || ts.contains("impl ") || ts.contains('\'');
                if !generic {
                    let r = Ident::new(&format!("__q{}", self.depth), Span::call_site());
                    return Some(parse_quote!({ let #r: #t = #blk; #r }));
                }
            }
        }
        Some(blk)
    }

    fn block(&mut self, b: &mut Block, tail: bool) {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            if tail && i + 1 == n {
                if let Stmt::Expr(e, None) = s {
                    if let Some(ne) = self.try_inline(e, false, true) { *e = ne; continue; }
                }
            }
            self.visit_stmt_mut(s);
        }
    }
}

impl<'a> VisitMut for Pass<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = e {
            if let Some(ne) = self.try_inline(&t.expr, true, false) {
                t.expr = Box::new(Expr::Paren(syn::ExprParen { attrs: vec![], paren_token: Default::default(), expr: Box::new(ne) }));
                return;
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
        if !matches!(e, Expr::Try(_)) {
            if let Some(ne) = self.try_inline(e, false, false) { *e = ne; }
        }
    }
}

impl Inliner {
    pub fn new(raw: &[RawFn], contracted: &BTreeSet<String>) -> Self {
        let mut fns: BTreeMap<String, Vec<_>> = BTreeMap::new();
        for r in raw {
            fns.entry(r.sig.ident.to_string()).or_default().push((r.self_ty.clone(), r.key.clone(), r.sig.clone(), r.block.clone(), r.module.clone()));
        }
        Inliner { fns, contracted: contracted.clone() }
    }
    pub fn run(&mut self, r: &RawFn, b: &mut Block) -> (Vec<String>, Vec<String>) {
        let mut p = Pass {
            me: self,
            module: r.module.clone(),
            self_ty: r.self_ty.clone(),
            cur_key: r.key.clone(),
            cur_err: err_ty(&r.sig.output),
            cur_out: r.sig.output.to_token_stream().to_string(),
            depth: 0,
            inlined: vec![],
            unknown: vec![],
        };
        p.block(b, true);
        (p.inlined, p.unknown)
    }
}
