//! Rewrites a Rust source tree so that floating point numbers, `rug` and
//! `num_traits` are replaced by the symbolic runtime. Nothing else changes.
use proc_macro2::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::fs;
use std::path::{Path, PathBuf};
use syn::parse::Parser;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct Lift {
    in_const: u32,
    file: String,
    fns: std::rc::Rc<std::cell::RefCell<Vec<String>>>,
}

impl Lift {
    /// Record every executed function for the evidence file.
    fn mark(&mut self, sig: &Signature, b: &mut Block) {
        if sig.constness.is_some() {
            return;
        }
        let mut v = self.fns.borrow_mut();
        let id = v.len() as u32;
        v.push(format!("{}::{}", self.file, sig.ident));
        b.stmts.insert(0, parse_quote!(::symrt::fnmark(#id);));
    }
}

fn is_int(t: &str) -> bool {
    matches!(t, "i8" | "i16" | "i32" | "i64" | "i128" | "isize" | "u8" | "u16" | "u32" | "u64" | "u128" | "usize")
}

fn type_name(t: &Type) -> Option<String> {
    if let Type::Path(p) = t {
        if p.qself.is_none() && p.path.segments.len() == 1 {
            return Some(p.path.segments[0].ident.to_string());
        }
    }
    None
}

fn int_literal(e: &Expr) -> bool {
    match e {
        Expr::Lit(l) => matches!(l.lit, Lit::Int(_)),
        Expr::Paren(p) => int_literal(&p.expr),
        Expr::Unary(u) => int_literal(&u.expr),
        Expr::Group(g) => int_literal(&g.expr),
        _ => false,
    }
}

impl VisitMut for Lift {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Lit(l) => {
                if let Lit::Float(f) = &l.lit {
                    let d = f.base10_digits().to_string();
                    let d: LitFloat = parse_str(&if d.contains(['.', 'e', 'E']) { d } else { format!("{}.0", d) }).unwrap();
                    *e = parse_quote!(::symrt::lit(#d));
                }
            }
            Expr::Cast(c) => {
                let x = &c.expr;
                if let Some(t) = lifted_type_name(&c.ty) {
                    if t == "f64" {
                        *e = parse_quote!(::symrt::to_f(#x));
                    } else if t == "f32" {
                        *e = parse_quote!(::symrt::to_f32(#x));
                    } else if is_int(&t) && self.in_const == 0 && !int_literal(x) {
                        let ty = &c.ty;
                        *e = parse_quote!(::symrt::cast::<#ty, _>(#x));
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_path_mut(&mut self, p: &mut Path0) {
        visit_mut::visit_path_mut(self, p);
        let names: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if names.len() >= 2 && (names[0] == "std" || names[0] == "core") && (names[1] == "f64" || names[1] == "f32") {
            let rest: Vec<_> = p.segments.iter().skip(2).cloned().collect();
            *p = parse_quote!(::symrt::f64mod #(::#rest)*);
            return;
        }
        if names.len() >= 2 && names[0] == "std" && names[1] == "fs" {
            let rest: Vec<_> = p.segments.iter().skip(1).cloned().collect();
            *p = parse_quote!(::symrt::stdlib #(::#rest)*);
            return;
        }
        match names[0].as_str() {
            "f64" | "f32" => {
                // keep the original name visible to the cast rule through a marker alias
                let seg = if names[0] == "f64" { quote!(::symrt::F) } else { quote!(::symrt::F) };
                let rest: Vec<_> = p.segments.iter().skip(1).cloned().collect();
                *p = parse_quote!(#seg #(::#rest)*);
            }
            "rug" | "num_traits" => {
                let segs: Vec<_> = p.segments.iter().cloned().collect();
                *p = parse_quote!(::symrt #(::#segs)*);
            }
            _ => {}
        }
    }
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        visit_mut::visit_item_fn_mut(self, f);
        self.mark(&f.sig, &mut f.block);
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        visit_mut::visit_impl_item_fn_mut(self, f);
        self.mark(&f.sig, &mut f.block);
    }
    fn visit_trait_item_fn_mut(&mut self, f: &mut TraitItemFn) {
        visit_mut::visit_trait_item_fn_mut(self, f);
        if let Some(b) = &mut f.default {
            self.mark(&f.sig, b);
        }
    }
    fn visit_item_use_mut(&mut self, u: &mut ItemUse) {
        let t = u.tree.to_token_stream().to_string();
        if t.starts_with("rug") || t.starts_with("num_traits") {
            let tree = &u.tree;
            let nt: UseTree = parse_quote!(symrt::#tree);
            u.leading_colon = Some(Default::default());
            u.tree = nt;
        } else if t.starts_with("std :: f64") || t.starts_with("core :: f64") {
            let s = t.replacen("std :: f64", "symrt :: f64mod", 1).replacen("core :: f64", "symrt :: f64mod", 1);
            u.leading_colon = Some(Default::default());
            u.tree = parse_str(&s).unwrap();
        } else if t.starts_with("std ::") && t.contains("fs") {
            u.leading_colon = Some(Default::default());
            u.tree = parse_str(&t.replacen("std", "symrt :: stdlib", 1)).unwrap();
        }
    }
    fn visit_expr_cast_mut(&mut self, c: &mut ExprCast) {
        // visit the operand only; the type is handled by the cast rule
        self.visit_expr_mut(&mut c.expr);
        if type_name(&c.ty).map(|t| t == "f64" || t == "f32" || is_int(&t)) != Some(true) {
            self.visit_type_mut(&mut c.ty);
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = lift_macro(std::mem::take(&mut m.tokens), self);
    }
    fn visit_item_macro_mut(&mut self, m: &mut ItemMacro) {
        if m.ident.is_some() {
            m.mac.tokens = lift_tokens(std::mem::take(&mut m.mac.tokens));
        } else {
            self.visit_macro_mut(&mut m.mac);
        }
    }
    fn visit_item_const_mut(&mut self, c: &mut ItemConst) {
        self.in_const += 1;
        visit_mut::visit_item_const_mut(self, c);
        self.in_const -= 1;
    }
    fn visit_item_static_mut(&mut self, c: &mut ItemStatic) {
        self.in_const += 1;
        visit_mut::visit_item_static_mut(self, c);
        self.in_const -= 1;
    }
    fn visit_impl_item_const_mut(&mut self, c: &mut ImplItemConst) {
        self.in_const += 1;
        visit_mut::visit_impl_item_const_mut(self, c);
        self.in_const -= 1;
    }
    fn visit_type_array_mut(&mut self, a: &mut TypeArray) {
        self.visit_type_mut(&mut a.elem);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        // literal patterns stay as they are
        if !matches!(p, Pat::Lit(_) | Pat::Range(_)) {
            visit_mut::visit_pat_mut(self, p);
        }
    }
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
}

type Path0 = syn::Path;

fn lifted_type_name(t: &Type) -> Option<String> {
    type_name(t)
}

fn lift_macro(ts: TokenStream, l: &mut Lift) -> TokenStream {
    // comma separated expressions
    if let Ok(mut p) = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated.parse2(ts.clone()) {
        for e in p.iter_mut() {
            l.visit_expr_mut(e);
        }
        return p.to_token_stream();
    }
    // statements
    if let Ok(mut b) = Block::parse_within.parse2(ts.clone()) {
        for s in b.iter_mut() {
            l.visit_stmt_mut(s);
        }
        return quote!(#(#b)*);
    }
    // repeat form: expr ; expr
    struct Rep(Expr, Expr);
    impl parse::Parse for Rep {
        fn parse(i: parse::ParseStream) -> Result<Self> {
            let a = i.parse()?;
            let _: Token![;] = i.parse()?;
            Ok(Rep(a, i.parse()?))
        }
    }
    if let Ok(mut r) = syn::parse2::<Rep>(ts.clone()) {
        l.visit_expr_mut(&mut r.0);
        l.visit_expr_mut(&mut r.1);
        let (a, b) = (r.0, r.1);
        return quote!(#a ; #b);
    }
    // impl items
    struct Items(Vec<ImplItem>);
    impl parse::Parse for Items {
        fn parse(i: parse::ParseStream) -> Result<Self> {
            let mut v = vec![];
            while !i.is_empty() {
                v.push(i.parse()?);
            }
            Ok(Items(v))
        }
    }
    if let Ok(mut it) = syn::parse2::<Items>(ts.clone()) {
        for x in it.0.iter_mut() {
            l.visit_impl_item_mut(x);
        }
        let v = it.0;
        return quote!(#(#v)*);
    }
    if let Ok(mut f) = syn::parse2::<File>(ts.clone()) {
        l.visit_file_mut(&mut f);
        return f.to_token_stream();
    }
    lift_tokens(ts)
}

/// Plain token substitution for macro bodies that do not parse on their own.
fn lift_tokens(ts: TokenStream) -> TokenStream {
    let mut out: Vec<TokenTree> = vec![];
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        let prev_dot = i > 0 && matches!(&v[i - 1], TokenTree::Punct(p) if p.as_char() == '.');
        let prev_dollar = i > 0 && matches!(&v[i - 1], TokenTree::Punct(p) if p.as_char() == '$');
        match &v[i] {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), lift_tokens(g.stream()));
                n.set_span(g.span());
                let _ = Delimiter::Brace;
                out.push(n.into());
            }
            TokenTree::Ident(id) if !prev_dot && !prev_dollar && (id == "f64") => {
                out.extend(quote!(::symrt::F));
            }
            TokenTree::Ident(id) if id == "as" && matches!(v.get(i + 1), Some(TokenTree::Ident(t)) if t == "f64" || t == "f32") => {
                let f32 = matches!(v.get(i + 1), Some(TokenTree::Ident(t)) if t == "f32");
                if f32 {
                    out.extend(quote!(.to_f().to_f32()));
                } else {
                    out.extend(quote!(.to_f()));
                }
                i += 1;
            }
            TokenTree::Ident(id) if (id == "rug" || id == "num_traits") && !prev_dot && !prev_dollar => {
                let id = Ident::new(&id.to_string(), Span::call_site());
                out.extend(quote!(::symrt::#id));
            }
            TokenTree::Literal(l) if !prev_dot => {
                let s = l.to_string();
                match syn::parse_str::<Lit>(&s) {
                    Ok(Lit::Float(_)) => out.extend(quote!(::symrt::lit(#l))),
                    _ => out.push(v[i].clone()),
                }
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}

fn walk(dir: &Path, out: &mut Vec<PathBuf>) {
    let mut es: Vec<_> = fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
    es.sort();
    for p in es {
        if p.is_dir() {
            walk(&p, out);
        } else {
            out.push(p);
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (src, dst) = (PathBuf::from(&a[1]), PathBuf::from(&a[2]));
    let mut files = vec![];
    walk(&src, &mut files);
    let mut wanted = vec![];
    let fns = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
    for f in files {
        let rel = f.strip_prefix(&src).unwrap();
        let to = dst.join(rel);
        wanted.push(to.clone());
        fs::create_dir_all(to.parent().unwrap()).unwrap();
        let text = fs::read_to_string(&f).unwrap();
        let new = if f.extension().map(|x| x == "rs") == Some(true) {
            match syn::parse_file(&text) {
                Ok(mut file) => {
                    let mut l = Lift { in_const: 0, file: rel.display().to_string(), fns: fns.clone() };
                    l.visit_file_mut(&mut file);
                    file.to_token_stream().to_string()
                }
                Err(e) => {
                    eprintln!("lift: cannot parse {}: {}", f.display(), e);
                    std::process::exit(3);
                }
            }
        } else {
            text
        };
        if fs::read_to_string(&to).ok().as_deref() != Some(&new) {
            fs::write(&to, new).unwrap();
        }
    }
    let t = fns.borrow().join("\n");
    let fp = dst.parent().unwrap().join("functions.txt");
    fs::write(fp, t).unwrap();
    // drop files that no longer exist in the source
    let mut have = vec![];
    if dst.exists() {
        walk(&dst, &mut have);
    }
    for h in have {
        if !wanted.contains(&h) {
            fs::remove_file(h).unwrap();
        }
    }
}
