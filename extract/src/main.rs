//! Mechanical extraction of the numeric modules of /repo into a crate in which the machine type `f64`
//! and `rug::Rational` are replaced by the types of `shim.rs`.  Nothing else is changed:
//!   * the type name `f64` becomes `F64`, float literals become `lit(..)`,
//!   * `e as T` becomes `cast::<_, T>(e)`,
//!   * the path roots `rug` and `num_traits` become `crate::shim::rug` and `crate::shim::num_traits`,
//!   * modules not listed in KEEP (and `use` items naming them) are dropped,
//!   * `#[cfg(test)]` items are dropped,
//!   * the functions in STUBS may be replaced by their contract while a caller is being proved: their body is
//!     preceded by `if let Some(r) = crate::stub::name(args) { return r; }`.
use proc_macro2::{Group, Ident, Literal, Span, TokenStream, TokenTree};
use quote::{ToTokens, quote};
use std::{fs, path::Path};
use syn::visit_mut::VisitMut;

const KEEP: &[(&str, &[&str])] = &[
    ("numeric", &["*"]),
    ("operations", &["abs", "one", "zero"]),
    ("geometry", &["point", "vector", "spatial_element", "util"]),
];

const STUBS: &[(&str, &[&str])] = &[("Ball", &["add", "sub", "mul", "div"])];
fn stubs(file: &mut syn::File) {
    for i in &mut file.items {
        let syn::Item::Impl(im) = i else { continue };
        if im.trait_.is_some() {
            continue;
        }
        let ty = im.self_ty.to_token_stream().to_string();
        let Some((_, names)) = STUBS.iter().find(|(t, _)| *t == ty) else { continue };
        for f in &mut im.items {
            let syn::ImplItem::Fn(f) = f else { continue };
            let n = f.sig.ident.to_string();
            if !names.contains(&n.as_str()) {
                continue;
            }
            let args: Vec<TokenStream> = f
                .sig
                .inputs
                .iter()
                .map(|a| match a {
                    syn::FnArg::Receiver(_) => quote!(self),
                    syn::FnArg::Typed(t) => t.pat.to_token_stream(),
                })
                .collect();
            let name = Ident::new(&format!("{}_{}", ty.to_lowercase(), n), Span::call_site());
            f.block.stmts.insert(0, syn::parse_quote!(if let Some(r) = crate::stub::#name(#(#args),*) { return r; }));
        }
    }
}

struct Casts;
impl VisitMut for Casts {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        match e {
            syn::Expr::Cast(c) => {
                let (x, t) = (&c.expr, &c.ty);
                *e = syn::parse_quote!(crate::shim::cast::<_, #t>(#x));
            }
            syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Neg(_)) => {
                if let syn::Expr::Lit(l) = &*u.expr {
                    if let syn::Lit::Float(f) = &l.lit {
                        let v: f64 = f.base10_parse().unwrap();
                        *e = syn::parse_quote!(crate::shim::neg_lit(#v));
                        if let syn::Expr::Call(c) = e {
                            // keep the literal out of the literal pass
                            let _ = c;
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

fn is_float(l: &Literal) -> Option<f64> {
    let s = l.to_string();
    let d = s.replace('_', "");
    let d = d.strip_suffix("f64").unwrap_or(&d);
    if !d.starts_with(|c: char| c.is_ascii_digit()) || d.starts_with("0x") || d.starts_with("0b") {
        return None;
    }
    if s.ends_with("f64") || d.contains('.') || d.contains('e') || d.contains('E') {
        return d.parse().ok();
    }
    None
}

fn tokens(ts: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let punct = |t: Option<&TokenTree>, c: char| matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c);
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), tokens(g.stream()));
                n.set_span(g.span());
                out.push(TokenTree::Group(n));
            }
            TokenTree::Ident(id) => {
                let s = id.to_string();
                let after_colon = i >= 2 && punct(v.get(i - 1), ':') && matches!(&v[i - 2], TokenTree::Punct(p) if p.as_char() == ':' && p.spacing() == proc_macro2::Spacing::Joint);
                let root = !after_colon && punct(v.get(i + 1), ':') && punct(v.get(i + 2), ':');
                match s.as_str() {
                    "neg_lit" => {
                        // already converted: copy its literal unchanged
                        out.push(v[i].clone());
                        if let Some(g) = v.get(i + 1) {
                            out.push(g.clone());
                            i += 1;
                        }
                    }
                    "f64" => out.push(TokenTree::Ident(Ident::new("F64", Span::call_site()))),
                    "rug" | "num_traits" if root => {
                        let r = Ident::new(&s, Span::call_site());
                        out.extend(quote!(crate::shim::#r));
                    }
                    _ => out.push(v[i].clone()),
                }
            }
            TokenTree::Literal(l) => match is_float(l) {
                Some(x) => out.extend(quote!(crate::shim::lit(#x))),
                None => out.push(v[i].clone()),
            },
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test"))
}
fn use_root(t: &syn::UseTree) -> String {
    match t {
        syn::UseTree::Path(p) => {
            let s = p.ident.to_string();
            if s == "self" || s == "crate" { use_root(&p.tree) } else { s }
        }
        syn::UseTree::Name(n) => n.ident.to_string(),
        _ => String::new(),
    }
}

fn module(src: &Path, dst: &Path, keep: Option<&[&str]>) -> Vec<String> {
    let text = fs::read_to_string(src).unwrap_or_else(|e| panic!("{}: {}", src.display(), e)).replace("\r\n", "\n");
    let mut file = syn::parse_file(&text).unwrap_or_else(|e| panic!("{}: {}", src.display(), e));
    let all: Vec<String> = file.items.iter().filter_map(|i| if let syn::Item::Mod(m) = i { if m.content.is_none() { Some(m.ident.to_string()) } else { None } } else { None }).collect();
    let kept: Vec<String> = match keep {
        Some(k) if k != ["*"] => all.iter().filter(|m| k.contains(&m.as_str())).cloned().collect(),
        _ => all.clone(),
    };
    file.items.retain(|i| match i {
        syn::Item::Mod(m) => !is_test(&m.attrs) && (m.content.is_some() || kept.contains(&m.ident.to_string())),
        syn::Item::Use(u) => {
            let r = use_root(&u.tree);
            !(all.contains(&r) && !kept.contains(&r))
        }
        syn::Item::Fn(f) => !is_test(&f.attrs),
        _ => true,
    });
    stubs(&mut file);
    Casts.visit_file_mut(&mut file);
    let body = tokens(file.to_token_stream());
    let extra = std::env::args().nth(3).map(|d| Path::new(&d).join(format!("{}.append.rs", src.file_stem().unwrap().to_string_lossy()))).filter(|p| p.exists()).map(|p| fs::read_to_string(p).unwrap()).unwrap_or_default();
    fs::create_dir_all(dst.parent().unwrap()).unwrap();
    fs::write(dst, format!("#[allow(unused_imports)] use crate::shim::F64;\n{}\n{}", body, extra)).unwrap();
    kept
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (repo, out) = (Path::new(&a[1]), Path::new(&a[2]));
    for (m, keep) in KEEP {
        let kept = module(&repo.join("src").join(m).join("mod.rs"), &out.join(m).join("mod.rs"), Some(keep));
        for k in kept {
            module(&repo.join("src").join(m).join(format!("{}.rs", k)), &out.join(m).join(format!("{}.rs", k)), None);
        }
    }
}
