//! Mechanical extraction of the verified text from /repo.
//!
//! usage: rewriter <repo> <outdir> <symrt-path>
//!
//! Every source file of the crate is parsed and printed again with these replacements and no
//! others (DESIGN.md, "what the extraction changes"):
//!   f64 -> symrt::R, u64 -> symrt::U64, u128 -> symrt::U128, std::time -> symrt::env::time,
//!   std::{net,fs,thread}, mio, nix, libc, libloading -> symrt::env::*, `.exists()` -> env,
//!   constants holding floats become functions, everything becomes `pub`,
//!   `#[cfg(test)]` items and crate level lint attributes are dropped.
use proc_macro2::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::HashSet;
use std::path::{Path, PathBuf};
use syn::punctuated::Punctuated;
use syn::visit_mut::{self, VisitMut};
use syn::*;

mod hooks;

struct Rw {
    /// names of constants that became functions
    consts: HashSet<String>,
    /// struct fields of type u64
    u64_fields: HashSet<String>,
    /// struct fields of a replaced primitive type
    prim_fields: HashSet<String>,
    /// (function, position, u64 rather than u128) of such parameters
    u64_params: HashSet<(String, usize, bool)>,
    /// inside something the compiler evaluates
    in_const: bool,
}

fn is_cfg_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && {
            let s = a.meta.to_token_stream().to_string().replace(' ', "");
            s == "cfg(test)" || s.starts_with("cfg(all(test,") || s.starts_with("cfg(any(test,")
        } || a.path().is_ident("test")
    })
}

fn prim(id: &str) -> Option<TokenStream> {
    Some(match id {
        "f64" | "f32" => quote!(::symrt::R),
        "u64" => quote!(::symrt::U64),
        "u128" => quote!(::symrt::U128),
        _ => return None,
    })
}

/// new prefix and number of replaced segments
fn map_prefix(segs: &[String]) -> Option<(Vec<&'static str>, usize)> {
    let s: Vec<&str> = segs.iter().map(|x| x.as_str()).collect();
    Some(match s.as_slice() {
        ["mio", ..] => (vec!["symrt", "env", "mio"], 1),
        ["nix", ..] => (vec!["symrt", "env", "nix"], 1),
        ["libc", ..] => (vec!["symrt", "env", "libc"], 1),
        ["libloading", ..] => (vec!["symrt", "env", "libloading"], 1),
        ["std" | "core", "f64", ..] => (vec!["symrt", "f64m"], 2),
        ["std", "net", ..] => (vec!["symrt", "env", "net"], 2),
        ["std", "fs", ..] => (vec!["symrt", "env", "fs"], 2),
        ["std", "thread", ..] => (vec!["symrt", "env", "thread"], 2),
        ["std" | "core", "time", ..] => (vec!["symrt", "env", "time"], 2),
        ["std" | "core", "primitive", "f64", ..] => (vec!["symrt", "R"], 3),
        _ => return None,
    })
}

fn flatten(t: &UseTree, pre: &mut Vec<String>, out: &mut Vec<(Vec<String>, Option<String>)>) {
    match t {
        UseTree::Path(p) => {
            pre.push(p.ident.to_string());
            flatten(&p.tree, pre, out);
            pre.pop();
        }
        UseTree::Name(n) => {
            let mut v = pre.clone();
            if n.ident == "self" {
                out.push((v, None));
            } else {
                v.push(n.ident.to_string());
                out.push((v, None));
            }
        }
        UseTree::Rename(n) => {
            let mut v = pre.clone();
            if n.ident != "self" {
                v.push(n.ident.to_string());
            }
            out.push((v, Some(n.rename.to_string())));
        }
        UseTree::Glob(_) => {
            let mut v = pre.clone();
            v.push("*".into());
            out.push((v, None));
        }
        UseTree::Group(g) => {
            for x in &g.items {
                flatten(x, pre, out);
            }
        }
    }
}

fn rewrite_use(u: &ItemUse) -> Vec<Item> {
    let mut flat = vec![];
    flatten(&u.tree, &mut vec![], &mut flat);
    let mut out = vec![];
    for (segs, rename) in flat {
        let (mapped, lead) = match map_prefix(&segs) {
            Some((p, n)) => {
                let mut v: Vec<String> = p.iter().map(|x| x.to_string()).collect();
                v.extend(segs[n..].iter().cloned());
                (v, true)
            }
            None => (segs.clone(), u.leading_colon.is_some()),
        };
        // `use libc;` style single segment imports of mapped crates keep their name
        let rename = rename.or_else(|| {
            if lead && mapped.last() != segs.last() && segs.last().map(|s| s != "*").unwrap_or(false) {
                segs.last().cloned()
            } else {
                None
            }
        });
        let mut ts = TokenStream::new();
        if lead {
            ts.extend(quote!(::));
        }
        for (i, s) in mapped.iter().enumerate() {
            if i > 0 {
                ts.extend(quote!(::));
            }
            if s == "*" {
                ts.extend(quote!(*));
            } else {
                ts.extend(ident(s).to_token_stream());
            }
        }
        if let Some(r) = rename {
            let r = if r == "_" { quote!(_) } else { ident(&r).to_token_stream() };
            ts.extend(quote!(as #r));
        }
        let attrs = &u.attrs;
        let vis = &u.vis;
        out.push(parse2(quote!(#(#attrs)* #vis use #ts;)).expect("use"));
    }
    out
}
fn ident(s: &str) -> Ident {
    if let Some(r) = s.strip_prefix("r#") {
        Ident::new_raw(r, Span::call_site())
    } else {
        Ident::new(s, Span::call_site())
    }
}

/// does the expression (or type) involve floating point or a constant that became a function?
struct HasFloat<'a> {
    consts: &'a HashSet<String>,
    hit: bool,
}
impl<'a> HasFloat<'a> {
    fn tokens(&mut self, ts: TokenStream) {
        for t in ts {
            match t {
                TokenTree::Literal(l) => {
                    if let Ok(Lit::Float(_)) = parse2::<Lit>(TokenTree::Literal(l).into()) {
                        self.hit = true
                    }
                }
                TokenTree::Ident(i) => {
                    let s = i.to_string();
                    if s == "f64" || s == "f32" || s == "u64" || s == "Duration" || self.consts.contains(&s) {
                        self.hit = true
                    }
                }
                TokenTree::Group(g) => self.tokens(g.stream()),
                _ => {}
            }
        }
    }
}
fn has_float<T: ToTokens>(t: &T, consts: &HashSet<String>) -> bool {
    let mut h = HasFloat { consts, hit: false };
    h.tokens(t.to_token_stream());
    h.hit
}

/// first pass: which constants / fields
struct Collect<'a> {
    rw: &'a mut Rw,
    changed: bool,
}
impl<'a> Collect<'a> {
    fn cst(&mut self, name: &Ident, ty: &Type, e: &Expr) {
        let n = name.to_string();
        if n == "_" || self.rw.consts.contains(&n) {
            return;
        }
        if has_float(ty, &self.rw.consts) || has_float(e, &self.rw.consts) {
            self.rw.consts.insert(n);
            self.changed = true;
        }
    }
}
impl<'a> VisitMut for Collect<'a> {
    fn visit_item_const_mut(&mut self, c: &mut ItemConst) {
        self.cst(&c.ident.clone(), &c.ty, &c.expr);
        visit_mut::visit_item_const_mut(self, c);
    }
    fn visit_item_static_mut(&mut self, c: &mut ItemStatic) {
        self.cst(&c.ident.clone(), &c.ty, &c.expr);
    }
    fn visit_impl_item_const_mut(&mut self, c: &mut ImplItemConst) {
        self.cst(&c.ident.clone(), &c.ty, &c.expr);
    }
    fn visit_trait_item_const_mut(&mut self, c: &mut TraitItemConst) {
        if has_float(&c.ty, &self.rw.consts) && self.rw.consts.insert(c.ident.to_string()) {
            self.changed = true;
        }
    }
    fn visit_signature_mut(&mut self, s: &mut Signature) {
        let n = s.ident.to_string();
        let mut k = 0;
        for a in &s.inputs {
            if let FnArg::Typed(t) = a {
                if let Type::Path(p) = &*t.ty {
                    if p.path.is_ident("u64") || p.path.is_ident("u128") {
                        self.rw.u64_params.insert((n.clone(), k, p.path.is_ident("u64")));
                    }
                }
                k += 1;
            }
        }
    }
    fn visit_field_mut(&mut self, f: &mut Field) {
        if let (Type::Path(p), Some(i)) = (&f.ty, &f.ident) {
            if p.path.is_ident("u64") {
                self.rw.u64_fields.insert(i.to_string());
            }
            if p.path.get_ident().map_or(false, |i| prim(&i.to_string()).is_some()) {
                self.rw.prim_fields.insert(i.to_string());
            }
        }
    }
}

/// nothing but literals and operators
fn literal(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) => true,
        Expr::Paren(p) => literal(&p.expr),
        Expr::Unary(p) => literal(&p.expr),
        Expr::Binary(b) => literal(&b.left) && literal(&b.right),
        _ => false,
    }
}
fn const_fn(
    attrs: &[Attribute],
    name: &Ident,
    ty: &Type,
    e: &Expr,
) -> (TokenStream, TokenStream) {
    let attrs: Vec<&Attribute> = attrs.iter().filter(|a| a.path().is_ident("doc") || a.path().is_ident("cfg")).collect();
    let (ty2, body) = match (ty, e) {
        (Type::Reference(r), Expr::Reference(er)) => {
            let (t, x) = (&r.elem, &er.expr);
            (quote!(&'static #t), quote!(::std::boxed::Box::leak(::std::boxed::Box::new(#x))))
        }
        (Type::Path(p), e) if p.path.is_ident("u64") || p.path.is_ident("u128") => {
            let t = if p.path.is_ident("u64") { quote!(::symrt::U64) } else { quote!(::symrt::U128) };
            let m = if p.path.is_ident("u64") { quote!(::core::primitive::u64) } else { quote!(::core::primitive::u128) };
            if literal(e) {
                (quote!(#ty), quote!(#t::lit({ let x: #m = #e; x })))
            } else {
                (quote!(#ty), quote!(#t::from(#e)))
            }
        }
        _ => (quote!(#ty), quote!(#e)),
    };
    (
        quote!(#(#attrs)* #[allow(non_snake_case, dead_code)]),
        quote!(fn #name() -> #ty2 { #body }),
    )
}

impl Rw {
    fn lit_args(&self, name: &str, args: &mut Punctuated<Expr, Token![,]>) {
        for (k, a) in args.iter_mut().enumerate() {
            if int_lit(a) {
                if self.u64_params.contains(&(name.to_string(), k, true)) {
                    *a = parse_quote!(::symrt::U64::lit(#a));
                } else if self.u64_params.contains(&(name.to_string(), k, false)) {
                    *a = parse_quote!(::symrt::U128::lit(#a));
                }
            }
        }
    }
    fn promotable(&self, e: &Expr) -> bool {
        fn go(rw: &Rw, e: &Expr, fl: &mut bool) -> bool {
            match e {
                Expr::Lit(l) => {
                    *fl |= matches!(l.lit, Lit::Float(_));
                    true
                }
                Expr::Unary(u) => matches!(u.op, UnOp::Neg(_)) && go(rw, &u.expr, fl),
                Expr::Paren(p) => go(rw, &p.expr, fl),
                Expr::Array(a) => a.elems.iter().all(|x| go(rw, x, fl)),
                Expr::Tuple(a) => a.elems.iter().all(|x| go(rw, x, fl)),
                Expr::Repeat(r) => go(rw, &r.expr, fl),
                Expr::Path(p) => {
                    let c = rw.consts.contains(&p.path.segments.last().unwrap().ident.to_string());
                    *fl |= c;
                    c
                }
                _ => false,
            }
        }
        let mut fl = false;
        go(self, e, &mut fl) && fl
    }
    fn items(&mut self, items: &mut Vec<Item>, top: bool) {
        let old = std::mem::take(items);
        for it in old {
            if is_cfg_test(item_attrs(&it)) {
                continue;
            }
            match it {
                Item::Use(u) => items.extend(rewrite_use(&u)),
                Item::ExternCrate(e) => {
                    let n = e.ident.to_string();
                    if !["libc", "nix", "mio", "libloading"].contains(&n.as_str()) {
                        items.push(Item::ExternCrate(e));
                    }
                }
                Item::Const(c) if self.consts.contains(&c.ident.to_string()) => {
                    let (a, f) = const_fn(&c.attrs, &c.ident, &c.ty, &c.expr);
                    items.push(parse2(quote!(#a pub #f)).unwrap());
                }
                Item::Static(c) if self.consts.contains(&c.ident.to_string()) => {
                    let (a, f) = const_fn(&c.attrs, &c.ident, &c.ty, &c.expr);
                    items.push(parse2(quote!(#a pub #f)).unwrap());
                }
                x => items.push(x),
            }
        }
        let _ = top;
        let mut casts = vec![];
        for it in items.iter_mut() {
            self.visit_item_mut(it);
            if let Item::Enum(e) = it {
                let unit = !e.variants.is_empty() && e.variants.iter().all(|v| matches!(v.fields, Fields::Unit));
                if unit && e.generics.params.is_empty() {
                    let n = &e.ident;
                    casts.push(parse_quote!(
                        impl<T> ::symrt::As<T> for #n where i64: ::symrt::As<T> {
                            fn as_(self) -> T {
                                <i64 as ::symrt::As<T>>::as_(self as i64)
                            }
                        }
                    ));
                }
            }
        }
        items.extend::<Vec<Item>>(casts);
    }
    fn tokens(&self, ts: TokenStream) -> TokenStream {
        let mut out = TokenStream::new();
        let all: Vec<TokenTree> = ts.into_iter().collect();
        let punct = |k: Option<usize>, c: char| -> bool {
            matches!(k.and_then(|k| all.get(k)), Some(TokenTree::Punct(p)) if p.as_char() == c)
        };
        for (k, t) in all.iter().cloned().enumerate() {
            match t {
                TokenTree::Literal(l) => match parse2::<Lit>(TokenTree::Literal(l.clone()).into()) {
                    Ok(Lit::Float(f)) => out.extend(float(&f)),
                    _ => out.extend(Some(TokenTree::Literal(l))),
                },
                TokenTree::Ident(i) => match prim(&i.to_string()) {
                    Some(p) => out.extend(p),
                    None => {
                        // a constant that became a function, unless it is something else of that name
                        let before = k.checked_sub(1);
                        let call = matches!(all.get(k + 1), Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis);
                        let defined = matches!(before.and_then(|b| all.get(b)), Some(TokenTree::Ident(w)) if ["const", "static", "fn", "let", "mut", "struct", "enum", "use"].contains(&w.to_string().as_str()));
                        let value = self.consts.contains(&i.to_string())
                            && !call
                            && !defined
                            && !punct(before, '$')
                            && !(punct(before, '.') && !punct(before.and_then(|b| b.checked_sub(1)), '.'))
                            && !punct(Some(k + 1), ':')
                            && !punct(Some(k + 1), '!');
                        out.extend(Some(TokenTree::Ident(i)));
                        if value {
                            out.extend(Some(TokenTree::Group(Group::new(Delimiter::Parenthesis, TokenStream::new()))));
                        }
                    }
                },
                TokenTree::Group(g) => {
                    let mut ng = Group::new(g.delimiter(), self.tokens(g.stream()));
                    ng.set_span(g.span());
                    out.extend(Some(TokenTree::Group(ng)));
                }
                x => out.extend(Some(x)),
            }
        }
        out
    }
}
fn float(f: &LitFloat) -> TokenStream {
    let d = f.base10_digits();
    let l: TokenStream = format!("{}f64", d.trim_end_matches('.')).parse().unwrap();
    quote!(::symrt::R::lit(#l))
}
fn item_attrs(i: &Item) -> &[Attribute] {
    match i {
        Item::Const(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::ExternCrate(x) => &x.attrs,
        Item::Fn(x) => &x.attrs,
        Item::ForeignMod(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Macro(x) => &x.attrs,
        Item::Mod(x) => &x.attrs,
        Item::Static(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Trait(x) => &x.attrs,
        Item::TraitAlias(x) => &x.attrs,
        Item::Type(x) => &x.attrs,
        Item::Union(x) => &x.attrs,
        Item::Use(x) => &x.attrs,
        _ => &[],
    }
}
fn pubvis() -> Visibility {
    parse_quote!(pub)
}
fn int_lit(e: &Expr) -> bool {
    matches!(e, Expr::Lit(ExprLit { lit: Lit::Int(_), .. }))
}

impl VisitMut for Rw {
    fn visit_item_mut(&mut self, it: &mut Item) {
        match it {
            Item::Fn(f) => f.vis = pubvis(),
            Item::Struct(s) => s.vis = pubvis(),
            Item::Enum(s) => s.vis = pubvis(),
            Item::Trait(s) => s.vis = pubvis(),
            Item::Type(s) => s.vis = pubvis(),
            Item::Const(s) => s.vis = pubvis(),
            Item::Static(s) => s.vis = pubvis(),
            Item::Union(s) => s.vis = pubvis(),
            Item::Mod(m) => {
                m.vis = pubvis();
                if let Some((_, items)) = &mut m.content {
                    let mut v = std::mem::take(items);
                    self.items(&mut v, false);
                    *items = v;
                }
                return;
            }
            _ => {}
        }
        visit_mut::visit_item_mut(self, it);
    }
    fn visit_field_mut(&mut self, f: &mut Field) {
        visit_mut::visit_field_mut(self, f);
    }
    fn visit_item_struct_mut(&mut self, s: &mut ItemStruct) {
        for f in s.fields.iter_mut() {
            f.vis = pubvis();
        }
        visit_mut::visit_item_struct_mut(self, s);
    }
    fn visit_signature_mut(&mut self, s: &mut Signature) {
        visit_mut::visit_signature_mut(self, s);
    }
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        if f.sig.constness.is_some() && has_float(f, &self.consts) {
            f.sig.constness = None;
        }
        let o = std::mem::replace(&mut self.in_const, f.sig.constness.is_some());
        visit_mut::visit_item_fn_mut(self, f);
        self.in_const = o;
    }
    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        let is_trait = i.trait_.is_some();
        let old = std::mem::take(&mut i.items);
        for x in old {
            match x {
                ImplItem::Fn(mut f) => {
                    if is_cfg_test(&f.attrs) {
                        continue;
                    }
                    if !is_trait {
                        f.vis = pubvis();
                    }
                    if f.sig.constness.is_some() && has_float(&f, &self.consts) {
                        f.sig.constness = None;
                    }
                    i.items.push(ImplItem::Fn(f));
                }
                ImplItem::Const(c) if self.consts.contains(&c.ident.to_string()) => {
                    let (a, f) = const_fn(&c.attrs, &c.ident, &c.ty, &c.expr);
                    let v = if is_trait { quote!() } else { quote!(pub) };
                    i.items.push(parse2(quote!(#a #v #f)).unwrap());
                }
                ImplItem::Const(mut c) => {
                    if !is_trait {
                        c.vis = pubvis();
                    }
                    i.items.push(ImplItem::Const(c));
                }
                y => i.items.push(y),
            }
        }
        visit_mut::visit_item_impl_mut(self, i);
    }
    fn visit_item_trait_mut(&mut self, t: &mut ItemTrait) {
        let old = std::mem::take(&mut t.items);
        for x in old {
            match x {
                TraitItem::Const(c) if self.consts.contains(&c.ident.to_string()) => {
                    let (n, ty) = (&c.ident, &c.ty);
                    let b = match &c.default {
                        Some((_, e)) => quote!({ #e }),
                        None => quote!(;),
                    };
                    t.items.push(
                        parse2(quote!(#[allow(non_snake_case)] fn #n() -> #ty #b)).unwrap(),
                    );
                }
                y => t.items.push(y),
            }
        }
        visit_mut::visit_item_trait_mut(self, t);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        for s in old {
            match s {
                Stmt::Item(it) => {
                    let mut v = vec![it];
                    // only the replacement of items; visiting happens below
                    let mut items = std::mem::take(&mut v);
                    let mut out = vec![];
                    for it in items.drain(..) {
                        if is_cfg_test(item_attrs(&it)) {
                            continue;
                        }
                        match it {
                            Item::Use(u) => out.extend(rewrite_use(&u)),
                            Item::Const(c) if self.consts.contains(&c.ident.to_string()) => {
                                let (a, f) = const_fn(&c.attrs, &c.ident, &c.ty, &c.expr);
                                out.push(parse2(quote!(#a #f)).unwrap());
                            }
                            Item::Static(c) if self.consts.contains(&c.ident.to_string()) => {
                                let (a, f) = const_fn(&c.attrs, &c.ident, &c.ty, &c.expr);
                                out.push(parse2(quote!(#a #f)).unwrap());
                            }
                            x => out.push(x),
                        }
                    }
                    b.stmts.extend(out.into_iter().map(Stmt::Item));
                }
                x => b.stmts.push(x),
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let Pat::Type(pt) = &l.pat {
            if let Type::Path(p) = &*pt.ty {
                let (is64, is128) = (p.path.is_ident("u64"), p.path.is_ident("u128"));
                if is64 || is128 {
                    if let Some(init) = &mut l.init {
                        if int_lit(&init.expr) {
                            let e = &init.expr;
                            init.expr = if is64 {
                                parse_quote!(::symrt::U64::lit(#e))
                            } else {
                                parse_quote!(::symrt::U128::lit(#e))
                            };
                        }
                    }
                }
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if let Member::Named(n) = &f.member {
            // shorthand `S { CONST }`
            if f.colon_token.is_none() && self.consts.contains(&n.to_string()) {
                f.colon_token = Some(Default::default());
            }
            if self.u64_fields.contains(&n.to_string()) && int_lit(&f.expr) {
                let e = &f.expr;
                f.expr = parse_quote!(::symrt::U64::lit(#e));
                return;
            }
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() {
                if let Some(i) = p.path.get_ident() {
                    if let Some(n) = prim(&i.to_string()) {
                        *t = parse2(n).unwrap();
                        return;
                    }
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if segs.len() >= 2 {
            if segs[0] == "symrt" {
                return;
            }
            if let Some(n) = prim(&segs[0]) {
                if p.leading_colon.is_none() {
                    let np: syn::Path = parse2(n).unwrap();
                    replace_prefix(p, np, 1);
                    return;
                }
            }
            if segs.len() >= 3
                && (segs[0] == "std" || segs[0] == "core")
                && segs[1] == "f64"
                && segs[2] != "consts"
            {
                let np: syn::Path = parse_quote!(::symrt::R);
                replace_prefix(p, np, 2);
                return;
            }
            if let Some((m, n)) = map_prefix(&segs) {
                let ids: Vec<Ident> = m.iter().map(|s| ident(s)).collect();
                let np: syn::Path = parse_quote!(:: #(#ids)::*);
                replace_prefix(p, np, n);
            }
        }
    }
    fn visit_attribute_mut(&mut self, _a: &mut Attribute) {}
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_item_const_mut(&mut self, c: &mut ItemConst) {
        let o = std::mem::replace(&mut self.in_const, true);
        visit_mut::visit_item_const_mut(self, c);
        self.in_const = o;
    }
    fn visit_item_static_mut(&mut self, c: &mut ItemStatic) {
        let o = std::mem::replace(&mut self.in_const, true);
        visit_mut::visit_item_static_mut(self, c);
        self.in_const = o;
    }
    fn visit_impl_item_const_mut(&mut self, c: &mut ImplItemConst) {
        let o = std::mem::replace(&mut self.in_const, true);
        visit_mut::visit_impl_item_const_mut(self, c);
        self.in_const = o;
    }
    fn visit_trait_item_const_mut(&mut self, c: &mut TraitItemConst) {
        let o = std::mem::replace(&mut self.in_const, true);
        visit_mut::visit_trait_item_const_mut(self, c);
        self.in_const = o;
    }
    fn visit_variant_mut(&mut self, v: &mut Variant) {
        let o = std::mem::replace(&mut self.in_const, true);
        visit_mut::visit_variant_mut(self, v);
        self.in_const = o;
    }
    fn visit_type_array_mut(&mut self, t: &mut TypeArray) {
        self.visit_type_mut(&mut t.elem);
        let o = std::mem::replace(&mut self.in_const, true);
        self.visit_expr_mut(&mut t.len);
        self.in_const = o;
    }
    fn visit_expr_repeat_mut(&mut self, t: &mut ExprRepeat) {
        self.visit_expr_mut(&mut t.expr);
        let o = std::mem::replace(&mut self.in_const, true);
        self.visit_expr_mut(&mut t.len);
        self.in_const = o;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) => {
                *e = parse2(float(f)).unwrap();
                return;
            }
            Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => {
                match i.suffix() {
                    "f64" | "f32" => {
                        let l: TokenStream = format!("{}f64", i.base10_digits()).parse().unwrap();
                        *e = parse_quote!(::symrt::R::lit(#l));
                    }
                    "u64" => *e = parse_quote!(::symrt::U64::lit(#i)),
                    "u128" => *e = parse_quote!(::symrt::U128::lit(#i)),
                    _ => {}
                }
                return;
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    self.lit_args(&n, &mut c.args);
                }
            }
            Expr::MethodCall(c) => self.lit_args(&c.method.to_string(), &mut c.args),
            _ => {}
        }
        match e {
            Expr::Cast(c) => {
                if let Type::Path(p) = &*c.ty {
                    if let Some(i) = p.path.get_ident() {
                        if i == "f32" {
                            self.visit_expr_mut(&mut c.expr);
                            let x = &c.expr;
                            *e = parse_quote!(::symrt::R::cast32(#x));
                            return;
                        }
                        if let Some(n) = prim(&i.to_string()) {
                            self.visit_expr_mut(&mut c.expr);
                            let x = &c.expr;
                            *e = parse2(quote!(#n::cast(#x))).unwrap();
                            return;
                        }
                        let int = ["u8", "u16", "u32", "usize", "i8", "i16", "i32", "i64", "isize", "i128"];
                        if !self.in_const && int.contains(&i.to_string().as_str()) && !matches!(*c.expr, Expr::Lit(_)) {
                            self.visit_expr_mut(&mut c.expr);
                            let x = &c.expr;
                            *e = parse_quote!(::symrt::cast::<#i, _>(#x));
                            return;
                        }
                    }
                }
            }
            Expr::Path(p) if p.qself.is_none() => {
                visit_mut::visit_expr_path_mut(self, p);
                let last = p.path.segments.last().unwrap().ident.to_string();
                if self.consts.contains(&last)
                    && p.path.segments[0].ident != "symrt"
                {
                    *e = parse_quote!(#p());
                }
                return;
            }
            Expr::Path(p) => {
                visit_mut::visit_expr_path_mut(self, p);
                let last = p.path.segments.last().unwrap().ident.to_string();
                if self.consts.contains(&last) {
                    *e = parse_quote!(#p());
                }
                return;
            }
            // comparisons take references; a field of a packed struct has to be copied first
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_)) => {
                visit_mut::visit_expr_binary_mut(self, b);
                for side in [&mut b.left, &mut b.right] {
                    if let Expr::Field(ExprField { member: Member::Named(n), .. }) = &**side {
                        if self.prim_fields.contains(&n.to_string()) {
                            let x = side.clone();
                            **side = parse_quote!(::symrt::copied({ #x }));
                        }
                    }
                }
                return;
            }
            // references to constant expressions live forever (rvalue static promotion)
            Expr::Reference(r) if r.mutability.is_none() && self.promotable(&r.expr) => {
                self.visit_expr_mut(&mut r.expr);
                let x = &r.expr;
                *e = parse_quote!(::symrt::leak(#x));
                return;
            }
            Expr::MethodCall(m)
                if m.args.is_empty()
                    && (m.method == "exists" || m.method == "is_file" || m.method == "try_exists") =>
            {
                self.visit_expr_mut(&mut m.receiver);
                let r = &m.receiver;
                *e = if m.method == "try_exists" {
                    parse_quote!(::std::io::Result::Ok(::symrt::env::exists(&#r)))
                } else {
                    parse_quote!(::symrt::env::exists(&#r))
                };
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // expression list
        if let Ok(mut args) = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) {
            for a in args.iter_mut() {
                self.visit_expr_mut(a);
            }
            m.tokens = args.to_token_stream();
            return;
        }
        // `expr ; expr`
        if let Ok((mut a, mut b)) = m.parse_body_with(|s: parse::ParseStream| {
            let a: Expr = s.parse()?;
            s.parse::<Token![;]>()?;
            let b: Expr = s.parse()?;
            Ok((a, b))
        }) {
            self.visit_expr_mut(&mut a);
            self.visit_expr_mut(&mut b);
            m.tokens = quote!(#a; #b);
            return;
        }
        m.tokens = self.tokens(m.tokens.clone());
    }
}
fn replace_prefix(p: &mut syn::Path, np: syn::Path, n: usize) {
    let rest: Vec<PathSegment> = p.segments.iter().skip(n).cloned().collect();
    let lead = np.leading_colon;
    let mut segs = np.segments;
    for r in rest {
        segs.push(r);
    }
    *p = syn::Path { leading_colon: lead, segments: segs };
}

fn walk(d: &Path, out: &mut Vec<PathBuf>) {
    let mut v: Vec<_> = std::fs::read_dir(d).expect("src").map(|e| e.unwrap().path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            walk(&p, out);
        } else if p.extension().map_or(false, |e| e == "rs") {
            out.push(p);
        }
    }
}
fn write_if_changed(p: &Path, s: &str) {
    if std::fs::read_to_string(p).map_or(false, |o| o == s) {
        return;
    }
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(p, s).unwrap();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (repo, out, symrt) = (Path::new(&a[1]), Path::new(&a[2]), &a[3]);
    let src = repo.join("src");
    let mut files = vec![];
    walk(&src, &mut files);
    files.retain(|f| !f.starts_with(src.join("bin")) && *f != src.join("main.rs"));
    let mut parsed = vec![];
    for f in &files {
        let text = std::fs::read_to_string(f).unwrap();
        match parse_file(&text) {
            Ok(x) => parsed.push((f.clone(), x)),
            Err(e) => {
                eprintln!("rewriter: cannot parse {}: {}", f.display(), e);
                std::process::exit(3);
            }
        }
    }
    let mut rw = Rw { consts: HashSet::new(), u64_fields: HashSet::new(), prim_fields: HashSet::new(), u64_params: HashSet::new(), in_const: false };
    loop {
        let mut ch = false;
        for (_, x) in parsed.iter_mut() {
            let mut c = Collect { rw: &mut rw, changed: false };
            // test modules do not count
            for it in x.items.iter_mut() {
                if !is_cfg_test(item_attrs(it)) {
                    c.visit_item_mut(it);
                }
            }
            ch |= c.changed;
        }
        if !ch {
            break;
        }
    }
    let with_hooks = a.get(4).map_or(false, |x| x == "hooks");
    let (mut hidden, mut heads) = (0, 0);
    let mut keep = HashSet::new();
    for (f, mut x) in parsed {
        x.attrs.retain(|a| {
            !(a.path().is_ident("deny") || a.path().is_ident("forbid") || a.path().is_ident("warn"))
        });
        rw.items(&mut x.items, true);
        let rel = f.strip_prefix(&src).unwrap();
        hidden += hooks::hidden(&x.items);
        if with_hooks {
            let mut h = hooks::Hooks::new(rel.display().to_string());
            h.items(&mut x.items);
            heads += h.heads;
            if rel == Path::new("lib.rs") {
                x.attrs.push(parse_quote!(#![feature(specialization)]));
            }
        }
        let dst = out.join("src").join(rel);
        let text = format!(
            "// generated from {}\n{}\n",
            rel.display(),
            pretty(x.to_token_stream())
        );
        write_if_changed(&dst, &text);
        keep.insert(dst);
    }
    // remove stale files
    let mut have = vec![];
    if out.join("src").exists() {
        walk(&out.join("src"), &mut have);
    }
    for h in have {
        if !keep.contains(&h) {
            let _ = std::fs::remove_file(&h);
        }
    }
    let cargo = std::fs::read_to_string(repo.join("Cargo.toml")).unwrap();
    let edition = cargo
        .lines()
        .find(|l| l.trim_start().starts_with("edition"))
        .and_then(|l| l.split('"').nth(1))
        .unwrap_or("2018")
        .to_string();
    let toml = format!(
        "[package]\nname = \"libfranka-rs\"\nversion = \"0.0.0\"\nedition = \"{}\"\n\n[lib]\nname = \"franka\"\ndoctest = false\n\n[dependencies]\nsymrt = {{ path = \"{}\" }}\nserde = {{ version = \"1.0\", features = [\"derive\"] }}\nserde_repr = \"0.1\"\nbincode = \"1.3.1\"\nnum-derive = \"0.3.2\"\nnum-traits = \"0.2.12\"\nnalgebra = \"0.23.0\"\nthiserror = \"1.0\"\n",
        edition, symrt
    );
    write_if_changed(&out.join("Cargo.toml"), &toml);
    println!("loop heads with pictures: {}", heads);
    println!("hidden state: {}", hidden);
}

/// line breaks after `;`, `{` and `}` so that compiler messages are readable
fn pretty(ts: TokenStream) -> String {
    let mut s = String::new();
    fn go(ts: TokenStream, s: &mut String) {
        let mut prev_joint = false;
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Brace => ("{\n", "}\n"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => (" ", " "),
                    };
                    s.push_str(o);
                    go(g.stream(), s);
                    s.push_str(c);
                    prev_joint = false;
                }
                TokenTree::Punct(p) => {
                    s.push(p.as_char());
                    prev_joint = p.spacing() == proc_macro2::Spacing::Joint;
                    if !prev_joint {
                        s.push(if p.as_char() == ';' { '\n' } else { ' ' });
                    }
                }
                x => {
                    let _ = prev_joint;
                    s.push_str(&x.to_string());
                    s.push(' ');
                    prev_joint = false;
                }
            }
        }
    }
    go(ts, &mut s);
    s
}
