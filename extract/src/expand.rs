//! A small macro_rules expander: arms over literal tokens and $x:ident/ty/expr fragments (no repetitions).
use proc_macro2::{Delimiter, Group, Ident, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::parse::{ParseStream, Parser};
use syn::Item;

pub struct MacroDef {
    pub arms: Vec<(Vec<TokenTree>, TokenStream)>,
}

pub fn collect(items: &[Item], out: &mut BTreeMap<String, MacroDef>) {
    for it in items {
        if let Item::Macro(m) = it {
            if m.mac.path.is_ident("macro_rules") {
                if let Some(id) = &m.ident {
                    let mut arms = vec![];
                    let tts: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                    let mut i = 0;
                    while i + 3 < tts.len() + 1 {
                        let (Some(TokenTree::Group(p)), Some(TokenTree::Group(b))) = (tts.get(i), tts.get(i + 3)) else { break };
                        arms.push((p.stream().into_iter().collect(), b.stream()));
                        i += 5;
                    }
                    out.insert(id.to_string(), MacroDef { arms });
                }
            }
        }
    }
}

fn match_arm(pat: &[TokenTree], input: TokenStream) -> syn::Result<BTreeMap<String, TokenStream>> {
    let pat = pat.to_vec();
    let parser = move |s: ParseStream| -> syn::Result<BTreeMap<String, TokenStream>> {
        let mut binds = BTreeMap::new();
        let mut i = 0;
        while i < pat.len() {
            match &pat[i] {
                TokenTree::Punct(p) if p.as_char() == '$' => {
                    let (Some(TokenTree::Ident(n)), Some(TokenTree::Ident(k))) = (pat.get(i + 1), pat.get(i + 3)) else {
                        return Err(s.error("unsupported macro pattern"));
                    };
                    let t = match k.to_string().as_str() {
                        "ident" => s.parse::<Ident>()?.to_token_stream(),
                        "ty" => s.parse::<syn::Type>()?.to_token_stream(),
                        "expr" => s.parse::<syn::Expr>()?.to_token_stream(),
                        "path" => s.parse::<syn::Path>()?.to_token_stream(),
                        "literal" => s.parse::<syn::Lit>()?.to_token_stream(),
                        "tt" => s.parse::<TokenTree>()?.to_token_stream(),
                        _ => return Err(s.error("unsupported fragment")),
                    };
                    binds.insert(n.to_string(), t);
                    i += 4;
                }
                t => {
                    let got: TokenTree = s.parse()?;
                    if got.to_string() != t.to_string() {
                        return Err(s.error("literal mismatch"));
                    }
                    i += 1;
                }
            }
        }
        if !s.is_empty() {
            // trailing comma tolerated by the invocation style `m!(a, b,)` only when the pattern has it
            return Err(s.error("trailing tokens"));
        }
        Ok(binds)
    };
    parser.parse2(input)
}

fn subst(body: TokenStream, binds: &BTreeMap<String, TokenStream>) -> TokenStream {
    let mut out = TokenStream::new();
    let tts: Vec<TokenTree> = body.into_iter().collect();
    let mut i = 0;
    while i < tts.len() {
        match &tts[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                if let Some(TokenTree::Ident(n)) = tts.get(i + 1) {
                    let s = n.to_string();
                    if let Some(t) = binds.get(&s) {
                        out.extend(t.clone());
                        i += 2;
                        continue;
                    }
                    if s == "crate" {
                        out.extend(std::iter::once(TokenTree::Ident(Ident::new("crate", n.span()))));
                        i += 2;
                        continue;
                    }
                }
                out.extend(std::iter::once(tts[i].clone()));
                i += 1;
            }
            TokenTree::Group(g) => {
                let ng = Group::new(g.delimiter(), subst(g.stream(), binds));
                out.extend(std::iter::once(TokenTree::Group(ng)));
                i += 1;
            }
            t => {
                out.extend(std::iter::once(t.clone()));
                i += 1;
            }
        }
    }
    let _ = Delimiter::None;
    out
}

pub fn expand(def: &MacroDef, input: TokenStream) -> Result<Vec<Item>, String> {
    let mut last = String::from("no arms");
    for (pat, body) in &def.arms {
        match match_arm(pat, input.clone()) {
            Ok(b) => {
                let out = subst(body.clone(), &b);
                return syn::parse2::<syn::File>(out).map(|f| f.items).map_err(|e| e.to_string());
            }
            Err(e) => last = e.to_string(),
        }
    }
    Err(last)
}
