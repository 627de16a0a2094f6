//! Second pass, for the induction contracts: a picture of every variable in scope at each
//! `while`/`loop` head, and the code that takes pictures of the repository's types. Pictures are
//! only taken while a contract records; the pass adds no other behaviour.
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Hooks {
    pub file: String,
    fun: String,
    n: usize,
    /// variables in scope, innermost frame last
    frames: Vec<Vec<Ident>>,
    /// inside something pictures cannot be taken of
    off: usize,
    pub heads: usize,
}
fn idents(p: &Pat, out: &mut Vec<Ident>) {
    match p {
        Pat::Ident(i) => {
            let s = i.ident.to_string();
            if !s.starts_with(|c: char| c.is_uppercase()) {
                out.push(i.ident.clone());
            }
            if let Some((_, q)) = &i.subpat {
                idents(q, out);
            }
        }
        Pat::Type(t) => idents(&t.pat, out),
        Pat::Reference(t) => idents(&t.pat, out),
        Pat::Paren(t) => idents(&t.pat, out),
        Pat::Tuple(t) => t.elems.iter().for_each(|p| idents(p, out)),
        Pat::TupleStruct(t) => t.elems.iter().for_each(|p| idents(p, out)),
        Pat::Slice(t) => t.elems.iter().for_each(|p| idents(p, out)),
        Pat::Struct(t) => t.fields.iter().for_each(|f| idents(&f.pat, out)),
        // alternatives bind the same names
        Pat::Or(t) => {
            if let Some(p) = t.cases.first() {
                idents(p, out)
            }
        }
        _ => {}
    }
}
impl Hooks {
    pub fn new(file: String) -> Hooks {
        Hooks { file, fun: String::new(), n: 0, frames: vec![], off: 0, heads: 0 }
    }
    pub fn items(&mut self, items: &mut Vec<Item>) {
        let mut add = vec![];
        for it in items.iter_mut() {
            match it {
                Item::Struct(s) => add.push(snap_struct(s)),
                Item::Enum(e) => add.push(snap_enum(e)),
                Item::Mod(m) => {
                    if let Some((_, v)) = m.content.as_mut() {
                        self.items(v);
                    }
                }
                _ => self.visit_item_mut(it),
            }
        }
        items.extend(add);
    }
    fn picture(&mut self) -> TokenStream {
        let site = format!("{}#{}#{}", self.file, self.fun, self.n);
        self.n += 1;
        self.heads += 1;
        let mut seen = std::collections::HashSet::new();
        let mut v = vec![];
        for f in self.frames.iter().rev() {
            for i in f.iter().rev() {
                if seen.insert(i.to_string()) {
                    v.push(i.clone());
                }
            }
        }
        v.reverse();
        let names = v.iter().map(|i| i.to_string());
        quote!(::symrt::snap::head(#site, |__o| { #(::symrt::snap::Snap::snap(&#v, #names, __o);)* });)
    }
    fn function(&mut self, sig: &Signature, b: &mut Block) {
        if sig.constness.is_some() || sig.asyncness.is_some() || sig.unsafety.is_some() {
            return;
        }
        let frames = std::mem::take(&mut self.frames);
        let (fun, n) = (std::mem::replace(&mut self.fun, sig.ident.to_string()), self.n);
        self.n = 0;
        let mut f = vec![];
        for a in &sig.inputs {
            match a {
                FnArg::Receiver(_) => f.push(format_ident!("self")),
                FnArg::Typed(t) => idents(&t.pat, &mut f),
            }
        }
        self.frames.push(f);
        self.visit_block_mut(b);
        self.frames = frames;
        self.fun = fun;
        self.n = n;
    }
    fn with(&mut self, f: Vec<Ident>, go: impl FnOnce(&mut Self)) {
        self.frames.push(f);
        go(self);
        self.frames.pop();
    }
}
/// names bound by the `let` conditions of an expression
fn lets(e: &Expr, out: &mut Vec<Ident>) {
    match e {
        Expr::Let(l) => idents(&l.pat, out),
        Expr::Binary(b) => {
            lets(&b.left, out);
            lets(&b.right, out);
        }
        Expr::Paren(p) => lets(&p.expr, out),
        _ => {}
    }
}
impl VisitMut for Hooks {
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        let sig = f.sig.clone();
        self.function(&sig, &mut f.block);
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        let sig = f.sig.clone();
        self.function(&sig, &mut f.block);
    }
    fn visit_trait_item_fn_mut(&mut self, f: &mut TraitItemFn) {
        let sig = f.sig.clone();
        if let Some(b) = f.default.as_mut() {
            self.function(&sig, b);
        }
    }
    fn visit_item_macro_mut(&mut self, _: &mut ItemMacro) {}
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.frames.push(vec![]);
        for s in b.stmts.iter_mut() {
            self.visit_stmt_mut(s);
            if let Stmt::Local(l) = s {
                if l.init.is_some() {
                    let mut v = vec![];
                    idents(&l.pat, &mut v);
                    self.frames.last_mut().unwrap().extend(v);
                }
            }
        }
        self.frames.pop();
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        // a picture in here would change what the closure captures
        self.off += 1;
        visit_mut::visit_expr_closure_mut(self, c);
        self.off -= 1;
    }
    fn visit_expr_async_mut(&mut self, _: &mut ExprAsync) {}
    fn visit_expr_unsafe_mut(&mut self, u: &mut ExprUnsafe) {
        self.visit_block_mut(&mut u.block);
    }
    fn visit_expr_if_mut(&mut self, i: &mut ExprIf) {
        self.visit_expr_mut(&mut i.cond);
        let mut v = vec![];
        lets(&i.cond, &mut v);
        self.with(v, |s| s.visit_block_mut(&mut i.then_branch));
        if let Some((_, e)) = i.else_branch.as_mut() {
            self.visit_expr_mut(e);
        }
    }
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        self.visit_expr_mut(&mut m.expr);
        for a in m.arms.iter_mut() {
            let mut v = vec![];
            idents(&a.pat, &mut v);
            self.with(v, |s| s.visit_expr_mut(&mut a.body));
        }
    }
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        self.visit_expr_mut(&mut f.expr);
        let mut v = vec![];
        idents(&f.pat, &mut v);
        self.with(v, |s| s.visit_block_mut(&mut f.body));
    }
    fn visit_expr_while_mut(&mut self, w: &mut ExprWhile) {
        if self.off > 0 {
            return;
        }
        let p = self.picture();
        self.visit_expr_mut(&mut w.cond);
        let mut v = vec![];
        lets(&w.cond, &mut v);
        self.with(v.clone(), |s| s.visit_block_mut(&mut w.body));
        match w.cond.as_mut() {
            Expr::Let(l) => {
                let e = &l.expr;
                l.expr = Box::new(Expr::Verbatim(quote!({ #p #e })));
            }
            c => {
                let e = c.to_token_stream();
                // chains of `let` conditions are left alone
                if v.is_empty() {
                    *c = Expr::Verbatim(quote!({ #p #e }));
                }
            }
        }
    }
    fn visit_expr_loop_mut(&mut self, l: &mut ExprLoop) {
        if self.off > 0 {
            return;
        }
        let p = self.picture();
        self.visit_block_mut(&mut l.body);
        l.body.stmts.insert(0, Stmt::Expr(Expr::Verbatim(p), None));
    }
}
fn packed(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("repr") && a.to_token_stream().to_string().contains("packed"))
}
fn snap_struct(s: &ItemStruct) -> Item {
    let (ig, tg, wc) = s.generics.split_for_impl();
    let name = &s.ident;
    let pk = packed(&s.attrs);
    let body = s.fields.iter().enumerate().map(|(k, f)| {
        let (m, n) = match &f.ident {
            Some(i) => (Member::Named(i.clone()), i.to_string()),
            None => (Member::Unnamed(Index::from(k)), k.to_string()),
        };
        let val = if pk { quote!({ self.#m }) } else { quote!(self.#m) };
        quote!(::symrt::snap::Snap::snap(&#val, &format!("{}.{}", __p, #n), __o);)
    });
    Item::Verbatim(quote! {
        impl #ig ::symrt::snap::Snap for #name #tg #wc {
            fn snap(&self, __p: &str, __o: &mut ::symrt::snap::Out) { #(#body)* }
        }
    })
}
fn snap_enum(e: &ItemEnum) -> Item {
    let (ig, tg, wc) = e.generics.split_for_impl();
    let name = &e.ident;
    if e.variants.is_empty() {
        return Item::Verbatim(TokenStream::new());
    }
    let arms = e.variants.iter().map(|v| {
        let vn = &v.ident;
        let vs = vn.to_string();
        let tag = quote!(__o.push((__p.to_string(), ::symrt::snap::Leaf::Str(#vs.to_string()))););
        match &v.fields {
            Fields::Unit => quote!(#name::#vn => { #tag }),
            Fields::Named(f) => {
                let ns: Vec<_> = f.named.iter().map(|f| f.ident.clone().unwrap()).collect();
                let bs: Vec<_> = (0..ns.len()).map(|k| format_ident!("__f{}", k)).collect();
                let ss = ns.iter().map(|n| n.to_string());
                quote!(#name::#vn { #(#ns: #bs),* } => { #tag #(::symrt::snap::Snap::snap(#bs, &format!("{}.{}", __p, #ss), __o);)* })
            }
            Fields::Unnamed(f) => {
                let bs: Vec<_> = (0..f.unnamed.len()).map(|k| format_ident!("__f{}", k)).collect();
                let ss = (0..bs.len()).map(|n| n.to_string());
                quote!(#name::#vn(#(#bs),*) => { #tag #(::symrt::snap::Snap::snap(#bs, &format!("{}.{}", __p, #ss), __o);)* })
            }
        }
    });
    Item::Verbatim(quote! {
        impl #ig ::symrt::snap::Snap for #name #tg #wc {
            fn snap(&self, __p: &str, __o: &mut ::symrt::snap::Out) { match self { #(#arms)* } }
        }
    })
}
/// statics through which one iteration could influence a later one unseen
pub fn hidden(items: &[Item]) -> usize {
    let mut n = 0;
    for it in items {
        match it {
            Item::Static(s) => {
                let t = s.ty.to_token_stream().to_string();
                let mutable = !matches!(s.mutability, StaticMutability::None);
                if mutable || ["Atomic", "Cell", "Mutex", "RwLock", "Once", "Lazy"].iter().any(|x| t.contains(x)) {
                    n += 1;
                }
            }
            Item::Macro(m) => {
                let t = m.mac.to_token_stream().to_string();
                if t.contains("thread_local") || t.contains("lazy_static") {
                    n += 1;
                }
            }
            Item::Mod(m) => {
                if let Some((_, v)) = &m.content {
                    n += hidden(v);
                }
            }
            Item::Fn(f) => n += inner(&f.block),
            Item::Impl(i) => {
                for x in &i.items {
                    if let ImplItem::Fn(f) = x {
                        n += inner(&f.block);
                    }
                }
            }
            _ => {}
        }
    }
    n
}
/// statics inside a function
fn inner(b: &Block) -> usize {
    struct V(usize);
    impl<'a> visit::Visit<'a> for V {
        fn visit_item(&mut self, i: &'a Item) {
            self.0 += hidden(std::slice::from_ref(i));
        }
        fn visit_stmt_macro(&mut self, m: &'a StmtMacro) {
            if m.mac.path.to_token_stream().to_string().contains("thread_local") {
                self.0 += 1;
            }
        }
    }
    let mut v = V(0);
    visit::Visit::visit_block(&mut v, b);
    v.0
}
