//! Source transformer: merges the crate's modules into one file and replaces the floating-point type by `symrt::Sym`.
//! It is purely type-directed by syntax: `f64` paths, float literals, `as f64` casts, a few method names, and
//! `std::collections`. Everything else is emitted as written.
use proc_macro2::{Group, Ident, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::HashSet;
use std::path::{Path, PathBuf};
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Options {
    pub features: Vec<String>,
    /// route every cast to an integer through a trait (needed once a float variable itself is cast; enum casts do not build then)
    pub casts: bool,
}

/// Returns the merged source and the list of files read.
pub fn transform(root: &Path, opt: &Options) -> (String, Vec<PathBuf>) {
    let mut files = vec![];
    let mut f = load(root, &root.parent().unwrap().to_path_buf(), opt, &mut files);
    let mut consts = Consts::default();
    syn::visit::visit_file(&mut consts, &f);
    let mut x = X { consts: consts.0, f32_fn: false, features: opt.features.clone(), casts: opt.casts, konst: false };
    x.visit_file_mut(&mut f);
    f.attrs.clear();
    f.shebang = None;
    let head = prelude();
    (format!("{}\n{}", head, f.to_token_stream()), files)
}

fn prelude() -> TokenStream {
    quote! {
        #[allow(unused_imports)] use ::symrt::{GetExt as _, JsonExt as _, PutExt as _};
    }
}

#[derive(Default)]
struct Consts(HashSet<String>);
impl<'a> syn::visit::Visit<'a> for Consts {
    fn visit_item_const(&mut self, i: &'a ItemConst) {
        if mentions(i.ty.to_token_stream(), "f64") {
            self.0.insert(i.ident.to_string());
        }
        syn::visit::visit_item_const(self, i);
    }
    fn visit_item_static(&mut self, i: &'a ItemStatic) {
        if mentions(i.ty.to_token_stream(), "f64") {
            self.0.insert(i.ident.to_string());
        }
    }
    fn visit_impl_item_const(&mut self, i: &'a ImplItemConst) {
        if mentions(i.ty.to_token_stream(), "f64") {
            self.0.insert(i.ident.to_string());
        }
    }
}
fn is_f64(t: &Type) -> bool {
    matches!(t, Type::Path(p) if p.qself.is_none() && p.path.is_ident("f64"))
}

// ------------------------------------------------------------------ module loading and cfg
fn load(file: &Path, dir: &PathBuf, opt: &Options, files: &mut Vec<PathBuf>) -> File {
    let src = std::fs::read_to_string(file).unwrap_or_else(|e| panic!("{}: {}", file.display(), e));
    files.push(file.to_path_buf());
    let mut f = parse_file(&src).unwrap_or_else(|e| panic!("{}: {}", file.display(), e));
    f.items = expand(f.items, dir, opt, files);
    f
}

fn expand(items: Vec<Item>, dir: &PathBuf, opt: &Options, files: &mut Vec<PathBuf>) -> Vec<Item> {
    let mut out = vec![];
    for mut it in items {
        if !keep(attrs_of(&it), opt) {
            continue;
        }
        if let Item::Mod(m) = &mut it {
            let name = m.ident.to_string();
            let sub = dir.join(&name);
            match m.content.take() {
                Some((b, v)) => m.content = Some((b, expand(v, &sub, opt, files))),
                None => {
                    let explicit = m.attrs.iter().find_map(|a| match &a.meta {
                        Meta::NameValue(nv) if nv.path.is_ident("path") => match &nv.value {
                            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(s.value()),
                            _ => None,
                        },
                        _ => None,
                    });
                    let cand = match explicit {
                        Some(p) => dir.join(p),
                        None => {
                            let a = dir.join(format!("{}.rs", name));
                            if a.exists() {
                                a
                            } else {
                                sub.join("mod.rs")
                            }
                        }
                    };
                    m.attrs.retain(|a| !a.path().is_ident("path"));
                    let inner = load(&cand, &sub, opt, files);
                    m.content = Some((Default::default(), inner.items));
                }
            }
            m.semi = None;
            if let Some((_, v)) = &mut m.content {
                let p: File = parse2(prelude()).unwrap();
                v.splice(0..0, p.items);
            }
        }
        out.push(it);
    }
    out
}

fn attrs_of(i: &Item) -> &[Attribute] {
    match i {
        Item::Const(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::ExternCrate(x) => &x.attrs,
        Item::Fn(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Macro(x) => &x.attrs,
        Item::Mod(x) => &x.attrs,
        Item::Static(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Trait(x) => &x.attrs,
        Item::Type(x) => &x.attrs,
        Item::Use(x) => &x.attrs,
        _ => &[],
    }
}

fn keep(attrs: &[Attribute], opt: &Options) -> bool {
    attrs.iter().all(|a| {
        if a.path().is_ident("test") {
            return false;
        }
        if a.path().is_ident("cfg") {
            if let Meta::List(l) = &a.meta {
                if let Ok(m) = parse2::<Meta>(l.tokens.clone()) {
                    return cfg(&m, opt);
                }
            }
        }
        true
    })
}

fn cfg(m: &Meta, opt: &Options) -> bool {
    match m {
        Meta::Path(p) => p.is_ident("unix") || p.is_ident("panic_unwind"),
        Meta::NameValue(nv) => {
            let v = match &nv.value {
                Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
                _ => return false,
            };
            if nv.path.is_ident("feature") {
                opt.features.contains(&v)
            } else {
                (nv.path.is_ident("target_os") && v == "linux") || (nv.path.is_ident("target_pointer_width") && v == "64")
            }
        }
        Meta::List(l) => {
            let inner = Punctuated::<Meta, Token![,]>::parse_terminated.parse2(l.tokens.clone()).unwrap_or_default();
            if l.path.is_ident("not") {
                !inner.iter().all(|x| cfg(x, opt))
            } else if l.path.is_ident("any") {
                inner.iter().any(|x| cfg(x, opt))
            } else {
                inner.iter().all(|x| cfg(x, opt))
            }
        }
    }
}

// ------------------------------------------------------------------ rewriting
struct X {
    consts: HashSet<String>,
    f32_fn: bool,
    features: Vec<String>,
    casts: bool,
    konst: bool,
}

fn sym() -> TokenStream {
    quote!(::symrt::Sym)
}
/// `1.0`, `1.0_f64` and `1f64` (an integer literal to the lexer)
fn float_lit(l: &Lit) -> bool {
    match l {
        Lit::Float(l) => l.suffix() == "" || l.suffix() == "f64",
        Lit::Int(l) => l.suffix() == "f64",
        _ => false,
    }
}
fn renamed(s: &str) -> Option<&'static str> {
    Some(match s {
        "as_f64" => "as_sym",
        "put_f64" => "put_sym",
        "put_f64_le" => "put_sym_le",
        "get_f64" => "get_sym",
        "get_f64_le" => "get_sym_le",
        _ => return None,
    })
}

fn mentions(ts: TokenStream, name: &str) -> bool {
    ts.into_iter().any(|t| match t {
        TokenTree::Ident(i) => i == name,
        TokenTree::Literal(l) => {
            let s = l.to_string();
            s.ends_with(name) && s.starts_with(|c: char| c.is_ascii_digit())
        }
        TokenTree::Group(g) => mentions(g.stream(), name),
        _ => false,
    })
}

fn flatten_use(t: &UseTree, pre: &mut Vec<Ident>, out: &mut Vec<(Vec<Ident>, Option<Ident>, bool)>) {
    match t {
        UseTree::Path(p) => {
            pre.push(p.ident.clone());
            flatten_use(&p.tree, pre, out);
            pre.pop();
        }
        UseTree::Name(n) => {
            if n.ident == "self" {
                out.push((pre.clone(), None, false));
            } else {
                let mut v = pre.clone();
                v.push(n.ident.clone());
                out.push((v, None, false));
            }
        }
        UseTree::Rename(r) => {
            let mut v = pre.clone();
            if r.ident != "self" {
                v.push(r.ident.clone());
            }
            out.push((v, Some(r.rename.clone()), false));
        }
        UseTree::Glob(_) => out.push((pre.clone(), None, true)),
        UseTree::Group(g) => {
            for x in &g.items {
                flatten_use(x, pre, out);
            }
        }
    }
}

fn rewrite_uses(items: Vec<Item>) -> Vec<Item> {
    let mut out = vec![];
    for it in items {
        let Item::Use(u) = &it else {
            out.push(it);
            continue;
        };
        let mut v = vec![];
        flatten_use(&u.tree, &mut vec![], &mut v);
        let attrs: Vec<&Attribute> = u.attrs.iter().filter(|a| !a.path().is_ident("doc")).collect();
        let vis = &u.vis;
        let lead = &u.leading_colon;
        for (path, ren, glob) in v {
            let names: Vec<String> = path.iter().map(|i| i.to_string()).collect();
            let is_std = names.len() >= 2 && (names[0] == "std" || names[0] == "core" || names[0] == "alloc");
            let last = path.last().cloned();
            let (p, tail): (TokenStream, &[Ident]) = if is_std && names[1] == "f64" {
                (quote!(::symrt::f64m), &path[2..])
            } else if is_std && names[1] == "collections" {
                (quote!(::symrt::coll), &path[2..])
            } else {
                let f = &path[0];
                (quote!(#lead #f), &path[1..])
            };
            let tail = tail.iter();
            let end = if glob {
                quote!(::*)
            } else if let Some(r) = ren {
                quote!(as #r)
            } else if is_std && (names == ["std", "f64"] || names == ["core", "f64"]) {
                // the name `f64` itself is rewritten at each use
                continue;
            } else if is_std && names.len() == 2 && names[1] == "collections" {
                let l = last.unwrap();
                quote!(as #l)
            } else {
                quote!()
            };
            let it: Item = parse2(quote!(#(#attrs)* #[allow(unused_imports)] #vis use #p #(::#tail)* #end;)).unwrap();
            out.push(it);
        }
    }
    out
}

impl X {
    fn path(&mut self, p: &mut Path_) {
        let names: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let first = &names[0];
        let is_std = names.len() >= 2 && (first == "std" || first == "core");
        let set = |p: &mut Path_, drop: usize, head: &[&str]| {
            let mut segs: Punctuated<PathSegment, Token![::]> = Punctuated::new();
            for h in head {
                segs.push(PathSegment::from(Ident::new(h, Span::call_site())));
            }
            for s in p.segments.iter().skip(drop) {
                segs.push(s.clone());
            }
            p.leading_colon = Some(Default::default());
            p.segments = segs;
        };
        if first == "f64" {
            if names.len() >= 2 && names[1] == "consts" {
                set(p, 1, &["symrt", "f64m"]);
            } else {
                set(p, 1, &["symrt", "Sym"]);
            }
        } else if is_std && names[1] == "f64" {
            if names.len() == 2 {
                set(p, 2, &["symrt", "Sym"]);
            } else if names[2] == "consts" || names[2].chars().all(|c| c.is_ascii_uppercase() || c == '_') {
                set(p, 2, &["symrt", "f64m"]);
            } else {
                set(p, 2, &["symrt", "Sym"]);
            }
        } else if is_std && names[1] == "primitive" && names.get(2).map_or(false, |n| n == "f64") {
            set(p, 3, &["symrt", "Sym"]);
        } else if is_std && names[1] == "collections" {
            set(p, 2, &["symrt", "coll"]);
        }
        for s in p.segments.iter_mut() {
            if let Some(n) = renamed(&s.ident.to_string()) {
                s.ident = Ident::new(n, s.ident.span());
            }
        }
    }
    /// expression in a constant context: arithmetic stays in hardware doubles and is wrapped as a whole
    fn konst(&mut self, e: &mut Expr, fty: bool) {
        match e {
            Expr::Array(a) => a.elems.iter_mut().for_each(|x| self.konst(x, fty)),
            Expr::Reference(r) => self.konst(&mut r.expr, fty),
            Expr::Paren(p) => self.konst(&mut p.expr, fty),
            Expr::Tuple(t) => t.elems.iter_mut().for_each(|x| self.konst(x, fty)),
            Expr::Repeat(r) => self.konst(&mut r.expr, fty),
            Expr::Call(c) => {
                visit_mut::visit_expr_mut(self, &mut c.func);
                c.args.iter_mut().for_each(|x| self.konst(x, fty));
            }
            Expr::Struct(s) => {
                self.visit_path_mut(&mut s.path);
                s.fields.iter_mut().for_each(|f| self.konst(&mut f.expr, fty));
            }
            Expr::Binary(_) | Expr::Unary(_) | Expr::Lit(_) | Expr::Cast(_) if fty && has_float(e, &self.consts) => {
                let mut inner = e.clone();
                CVal(&self.consts).visit_expr_mut(&mut inner);
                let s = sym();
                *e = parse_quote!(#s::c(#inner));
            }
            _ => self.visit_expr_mut(e),
        }
    }
    fn macro_tokens(&mut self, m: &mut Macro) {
        let ts = m.tokens.clone();
        // `expr ; expr` (vec! repeat)
        let semi = |inp: parse::ParseStream| -> Result<(Expr, Expr)> {
            let a: Expr = inp.parse()?;
            inp.parse::<Token![;]>()?;
            let b: Expr = inp.parse()?;
            Ok((a, b))
        };
        let named = |inp: parse::ParseStream| -> Result<Punctuated<Arg, Token![,]>> { Punctuated::<Arg, Token![,]>::parse_terminated(inp) };
        let mpat = |inp: parse::ParseStream| -> Result<(Expr, TokenStream)> {
            let a: Expr = inp.parse()?;
            inp.parse::<Token![,]>()?;
            Ok((a, inp.parse::<TokenStream>()?))
        };
        let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if name == "matches" {
            if let Ok((mut a, rest)) = mpat.parse2(ts.clone()) {
                self.visit_expr_mut(&mut a);
                let arm = |inp: parse::ParseStream| -> Result<(Pat, Option<Expr>)> {
                    let p = Pat::parse_multi_with_leading_vert(inp)?;
                    let g = if inp.peek(Token![if]) {
                        inp.parse::<Token![if]>()?;
                        Some(inp.parse::<Expr>()?)
                    } else {
                        None
                    };
                    let _ = inp.parse::<Option<Token![,]>>()?;
                    Ok((p, g))
                };
                if let Ok((p, g)) = arm.parse2(rest.clone()) {
                    let mut arms = TokenStream::new();
                    for (mut q, mut g, _) in self.pats(&p, g) {
                        self.visit_pat_mut(&mut q);
                        g.iter_mut().for_each(|g| self.visit_expr_mut(g));
                        let g = g.map(|g| quote!(if #g));
                        arms.extend(quote!(#q #g => true,));
                    }
                    m.path = parse_quote!(::symrt::same);
                    m.tokens = quote!(match #a { #arms _ => false });
                    return;
                }
                m.tokens = quote!(#a, #rest);
                return;
            }
        }
        if let Ok(mut args) = named.parse2(ts.clone()) {
            for a in args.iter_mut() {
                self.visit_expr_mut(&mut a.1);
            }
            let v: Vec<TokenStream> = args
                .iter()
                .map(|Arg(n, e)| match n {
                    Some(n) => quote!(#n = #e),
                    None => quote!(#e),
                })
                .collect();
            m.tokens = quote!(#(#v),*);
        } else if let Ok((mut a, mut b)) = semi.parse2(ts.clone()) {
            self.visit_expr_mut(&mut a);
            self.visit_expr_mut(&mut b);
            m.tokens = quote!(#a ; #b);
        } else {
            m.tokens = tokens(ts, self.f32_fn);
        }
    }
    fn in_const(&mut self, f: impl FnOnce(&mut Self)) {
        let old = std::mem::replace(&mut self.konst, true);
        f(self);
        self.konst = old;
    }
    fn in_fn(&mut self, ts: TokenStream, f: impl FnOnce(&mut Self)) {
        let old = self.f32_fn;
        self.f32_fn = mentions(ts.clone(), "f32") && !mentions(ts, "f64");
        f(self);
        self.f32_fn = old;
    }
}
type Path_ = syn::Path;

struct Arg(Option<Ident>, Expr);
impl parse::Parse for Arg {
    fn parse(i: parse::ParseStream) -> Result<Self> {
        if i.peek(syn::Ident) && i.peek2(Token![=]) && !i.peek2(Token![==]) && !i.peek2(Token![=>]) {
            let n: Ident = i.parse()?;
            i.parse::<Token![=]>()?;
            return Ok(Arg(Some(n), i.parse()?));
        }
        Ok(Arg(None, i.parse()?))
    }
}

fn has_float(e: &Expr, consts: &HashSet<String>) -> bool {
    fn f(ts: TokenStream, c: &HashSet<String>) -> bool {
        ts.into_iter().any(|t| match t {
            TokenTree::Ident(i) => i == "f64" || c.contains(&i.to_string()),
            TokenTree::Literal(l) => matches!(parse_str::<Lit>(&l.to_string()), Ok(l) if float_lit(&l)),
            TokenTree::Group(g) => f(g.stream(), c),
            _ => false,
        })
    }
    f(e.to_token_stream(), consts)
}

struct CVal<'a>(&'a HashSet<String>);
impl<'a> VisitMut for CVal<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // an element or a field of a constant aggregate
        if matches!(e, Expr::Index(_) | Expr::Field(_)) {
            let mut r: &Expr = e;
            loop {
                r = match r {
                    Expr::Index(i) => &i.expr,
                    Expr::Field(f) => &f.base,
                    Expr::Paren(p) => &p.expr,
                    _ => break,
                };
            }
            if matches!(r, Expr::Path(p) if self.0.contains(&p.path.segments.last().unwrap().ident.to_string())) {
                let x = e.clone();
                *e = parse_quote!((#x).cval());
                return;
            }
        }
        if let Expr::Path(p) = e {
            let last = p.path.segments.last().unwrap().ident.to_string();
            let std_path = p.path.segments.len() > 1 && matches!(p.path.segments[0].ident.to_string().as_str(), "std" | "core" | "f64");
            if self.0.contains(&last) && !std_path {
                *e = parse_quote!((#p).cval());
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn tokens(ts: TokenStream, f32_fn: bool) -> TokenStream {
    let mut out: Vec<TokenTree> = vec![];
    let mut prev_dot = false;
    for t in ts {
        match &t {
            TokenTree::Ident(i) if i == "f64" => out.extend(sym()),
            TokenTree::Ident(i) if renamed(&i.to_string()).is_some() => out.push(Ident::new(renamed(&i.to_string()).unwrap(), i.span()).into()),
            TokenTree::Literal(l) if !prev_dot && !f32_fn => match parse_str::<Lit>(&l.to_string()) {
                Ok(f) if float_lit(&f) => {
                    let s = sym();
                    out.extend(quote!(#s::c(#f)))
                }
                _ => out.push(t.clone()),
            },
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), tokens(g.stream(), f32_fn));
                n.set_span(g.span());
                out.push(n.into());
            }
            _ => out.push(t.clone()),
        }
        prev_dot = matches!(&t, TokenTree::Punct(p) if p.as_char() == '.');
    }
    out.into_iter().collect()
}

impl VisitMut for X {
    fn visit_file_mut(&mut self, f: &mut File) {
        f.items = rewrite_uses(std::mem::take(&mut f.items));
        if self.casts {
            let more: Vec<Item> = f.items.iter().filter_map(enum_casts).collect();
            f.items.extend(more);
        }
        visit_mut::visit_file_mut(self, f);
    }
    fn visit_item_mod_mut(&mut self, m: &mut ItemMod) {
        if let Some((_, v)) = &mut m.content {
            *v = rewrite_uses(std::mem::take(v));
            if self.casts {
                let more: Vec<Item> = v.iter().filter_map(enum_casts).collect();
                v.extend(more);
            }
        }
        visit_mut::visit_item_mod_mut(self, m);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Item(i @ Item::Use(_)) => out.extend(rewrite_uses(vec![i]).into_iter().map(Stmt::Item)),
                Stmt::Item(i) if self.casts => {
                    let more = enum_casts(&i);
                    out.push(Stmt::Item(i));
                    out.extend(more.map(Stmt::Item));
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        let o = Options { features: self.features.clone(), casts: false };
        i.items.retain(|x| {
            keep(
                match x {
                    ImplItem::Fn(f) => &f.attrs,
                    ImplItem::Const(f) => &f.attrs,
                    ImplItem::Type(f) => &f.attrs,
                    _ => &[],
                },
                &o,
            )
        });
        visit_mut::visit_item_impl_mut(self, i);
    }
    fn visit_item_use_mut(&mut self, _: &mut ItemUse) {}
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.retain(|a| !a.path().is_ident("doc") && !a.path().is_ident("cfg"));
    }
    fn visit_path_mut(&mut self, p: &mut Path_) {
        visit_mut::visit_path_mut(self, p);
        self.path(p);
    }
    fn visit_type_array_mut(&mut self, t: &mut TypeArray) {
        self.visit_type_mut(&mut t.elem);
        self.in_const(|x| x.visit_expr_mut(&mut t.len));
    }
    fn visit_item_enum_mut(&mut self, i: &mut ItemEnum) {
        self.in_const(|x| visit_mut::visit_item_enum_mut(x, i));
    }
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        strip_const(&mut f.sig, &f.block);
        let ts = f.to_token_stream();
        let old = std::mem::replace(&mut self.konst, f.sig.constness.is_some());
        self.in_fn(ts, |s| visit_mut::visit_item_fn_mut(s, f));
        self.konst = old;
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        strip_const(&mut f.sig, &f.block);
        let ts = f.to_token_stream();
        let old = std::mem::replace(&mut self.konst, f.sig.constness.is_some());
        self.in_fn(ts, |s| visit_mut::visit_impl_item_fn_mut(s, f));
        self.konst = old;
    }
    fn visit_item_const_mut(&mut self, c: &mut ItemConst) {
        let fty = mentions(c.ty.to_token_stream(), "f64") || !mentions(c.ty.to_token_stream(), "f32");
        self.visit_attributes_mut(&mut c.attrs);
        if is_prim(&c.ty) && has_float(&c.expr, &self.consts) {
            // an integer computed from float literals
            CVal(&self.consts).visit_expr_mut(&mut c.expr);
            return;
        }
        self.visit_type_mut(&mut c.ty);
        self.in_const(|x| x.konst(&mut c.expr, fty));
    }
    fn visit_item_static_mut(&mut self, c: &mut ItemStatic) {
        self.visit_attributes_mut(&mut c.attrs);
        self.visit_type_mut(&mut c.ty);
        self.in_const(|x| x.konst(&mut c.expr, true));
    }
    fn visit_impl_item_const_mut(&mut self, c: &mut ImplItemConst) {
        self.visit_attributes_mut(&mut c.attrs);
        self.visit_type_mut(&mut c.ty);
        self.in_const(|x| x.konst(&mut c.expr, true));
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        self.macro_tokens(m);
    }
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        if let Some(n) = renamed(&m.method.to_string()) {
            m.method = Ident::new(n, m.method.span());
        }
        visit_mut::visit_expr_method_call_mut(self, m);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let s = sym();
        if let Expr::If(i) = e {
            if let Expr::Let(l) = &*i.cond {
                let ps = self.pats(&l.pat, None);
                if ps.iter().any(|p| p.2) {
                    let (x, a) = (&l.expr, &i.then_branch);
                    let b = i.else_branch.as_ref().map(|(_, b)| quote!(#b)).unwrap_or(quote!({}));
                    let arms = ps.into_iter().map(|(p, g, _)| {
                        let g = g.map(|g| quote!(if #g));
                        quote!(#p #g => #a)
                    });
                    *e = parse_quote!(match #x { #(#arms,)* _ => #b });
                }
            }
        }
        if let Expr::Match(m) = e {
            let mut out = vec![];
            let mut any = false;
            for a in std::mem::take(&mut m.arms) {
                for (p, g, hit) in self.pats(&a.pat, a.guard.as_ref().map(|g| (*g.1).clone())) {
                    let mut n = a.clone();
                    any |= hit;
                    if hit {
                        n.pat = p;
                        n.guard = g.map(|g| (Default::default(), Box::new(g)));
                    }
                    out.push(n);
                }
            }
            // the guards are opaque to the exhaustiveness check; the source was exhaustive
            if let Some(l) = out.last_mut() {
                if any && l.guard.is_some() {
                    let catch: Arm = parse_quote!(_ => unreachable!(),);
                    l.comma = Some(Default::default());
                    out.push(catch);
                }
            }
            m.arms = out;
        }
        match e {
            Expr::Lit(ExprLit { lit: l, .. }) if float_lit(l) && !self.f32_fn => {
                let l = l.clone();
                *e = parse_quote!(#s::c(#l));
            }
            Expr::Unary(ExprUnary { op: UnOp::Neg(_), expr, .. })
                if !self.f32_fn && matches!(&**expr, Expr::Lit(ExprLit { lit: l, .. }) if float_lit(l)) =>
            {
                let l = expr.clone();
                *e = parse_quote!(#s::c(-#l));
            }
            Expr::Cast(c) if is_f64(&c.ty) => {
                self.visit_expr_mut(&mut c.expr);
                let i = c.expr.clone();
                *e = parse_quote!(::symrt::to_sym(#i));
            }
            Expr::Cast(c) if !self.f32_fn && rounding(&c.expr) => {
                self.visit_expr_mut(&mut c.expr);
                let i = c.expr.clone();
                let t = c.ty.clone();
                *e = parse_quote!(<_ as ::symrt::As<#t>>::as_(#i));
            }
            Expr::Cast(c) if self.casts && !self.konst && !self.f32_fn && is_prim(&c.ty) => {
                self.visit_expr_mut(&mut c.expr);
                let i = c.expr.clone();
                let t = c.ty.clone();
                *e = parse_quote!(<_ as ::symrt::As<#t>>::as_(#i));
            }
            Expr::Repeat(r) => {
                self.visit_expr_mut(&mut r.expr);
                self.in_const(|x| x.visit_expr_mut(&mut r.len));
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

/// float literals, float ranges and float constants in a pattern become bindings compared in the guard
struct FPat<'a> {
    consts: &'a HashSet<String>,
    n: usize,
    guard: Vec<Expr>,
}
impl<'a> FPat<'a> {
    fn lit(&self, e: &Expr) -> bool {
        match e {
            Expr::Lit(l) => float_lit(&l.lit),
            Expr::Unary(u) => self.lit(&u.expr),
            Expr::Path(p) => self.name(&p.path),
            _ => false,
        }
    }
    fn name(&self, p: &syn::Path) -> bool {
        let v: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let l = v.last().unwrap();
        l.chars().any(|c| c.is_ascii_uppercase()) && (self.consts.contains(l) || (v.len() > 1 && v[v.len() - 2] == "f64") || (v.len() > 2 && v[v.len() - 2] == "consts"))
    }
    fn fresh(&mut self) -> Ident {
        self.n += 1;
        Ident::new(&format!("__fp{}", self.n), Span::call_site())
    }
}
impl<'a> VisitMut for FPat<'a> {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        let test: Expr = match p {
            Pat::Lit(l) if self.lit(&Expr::Lit(l.clone())) => {
                let v = self.fresh();
                let g = parse_quote!(::symrt::Fp::fp(&#v) == #l);
                *p = parse_quote!(#v);
                g
            }
            Pat::Range(r) if r.start.iter().chain(r.end.iter()).any(|e| self.lit(e)) => {
                let v = self.fresh();
                let mut c: Vec<Expr> = vec![];
                if let Some(a) = &r.start {
                    c.push(parse_quote!(::symrt::Fp::fp(&#v) >= #a));
                }
                if let Some(b) = &r.end {
                    c.push(if matches!(r.limits, RangeLimits::HalfOpen(_)) { parse_quote!(::symrt::Fp::fp(&#v) < #b) } else { parse_quote!(::symrt::Fp::fp(&#v) <= #b) });
                }
                *p = parse_quote!(#v);
                parse_quote!((#(#c)&&*))
            }
            Pat::Path(q) if self.name(&q.path) => {
                let v = self.fresh();
                let g = parse_quote!(::symrt::Fp::fp(&#v) == #q);
                *p = parse_quote!(#v);
                g
            }
            Pat::Ident(q) if q.subpat.is_none() && self.name(&q.ident.clone().into()) => {
                let v = self.fresh();
                let q = q.ident.clone();
                let g = parse_quote!(::symrt::Fp::fp(&#v) == #q);
                *p = parse_quote!(#v);
                g
            }
            _ => return visit_mut::visit_pat_mut(self, p),
        };
        self.guard.push(test);
    }
}
/// the enum's casts when every cast goes through the trait
fn enum_casts(i: &Item) -> Option<Item> {
    match i {
        Item::Enum(e) if e.generics.params.is_empty() && !e.variants.is_empty() && e.variants.iter().all(|v| matches!(v.fields, Fields::Unit)) => {
            let n = &e.ident;
            Some(parse_quote!(::symrt::enum_as!(#n);))
        }
        _ => None,
    }
}
impl X {
    /// `pattern if guard` without floats in the pattern; one result per top-level alternative when floats are among them
    fn pats(&mut self, p: &Pat, g: Option<Expr>) -> Vec<(Pat, Option<Expr>, bool)> {
        let strip = |p: &Pat| {
            let mut p = p.clone();
            while let Pat::Paren(q) = p {
                p = *q.pat;
            }
            p
        };
        let p = strip(p);
        let one = |p: &Pat| {
            let mut f = FPat { consts: &self.consts, n: 0, guard: vec![] };
            let mut q = p.clone();
            f.visit_pat_mut(&mut q);
            let n = f.guard.len();
            let mut c = f.guard;
            if n > 0 {
                c.extend(g.iter().map(|g| parse_quote!((#g))));
            }
            (q, if n > 0 { Some(parse_quote!(#(#c)&&*)) } else { g.clone() }, n > 0)
        };
        let whole = one(&p);
        if !whole.2 || self.f32_fn {
            let whole = (p.clone(), g.clone(), false);
            return vec![whole];
        }
        match &p {
            Pat::Or(o) => o.cases.iter().map(one).collect(),
            _ => vec![whole],
        }
    }
}

fn is_prim(t: &Type) -> bool {
    matches!(t, Type::Path(p) if p.qself.is_none() && p.path.get_ident().map_or(false, |i| matches!(i.to_string().as_str(), "u8" | "u16" | "u32" | "u64" | "u128" | "usize" | "i8" | "i16" | "i32" | "i64" | "i128" | "isize" | "f32")))
}

/// a cast whose operand is visibly a float (`x.round() as usize`)
fn rounding(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "round" | "floor" | "ceil" | "trunc" | "sqrt" | "powf" | "ln" | "log2" | "log10"),
        Expr::Paren(p) => rounding(&p.expr),
        _ => false,
    }
}

/// a `const fn` that computes with floats cannot stay const once floats are symbolic
fn strip_const(sig: &mut Signature, b: &Block) {
    if sig.constness.is_some() {
        let ts = b.to_token_stream();
        let arith = ts.clone().to_string().contains(['+', '-', '*', '/', '<', '>']);
        let float = mentions(sig.to_token_stream(), "f64") || mentions(ts, "f64");
        if arith && float {
            sig.constness = None;
        }
    }
}
