//! Re-types the code under test: every `f32`/`f64` becomes the symbolic scalar `::sym::F`.
//!
//! usage: rewrite SRC_DIR DST_DIR [raw]   (raw: leave casts to integer types alone)
use proc_macro2::{Delimiter, Group, Ident, Literal, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::path::Path as FsPath;
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct R { module: String, raw_int_casts: bool, in_trait_or_impl: Vec<String>, functions: Vec<String> }

fn is_float_ident(i: &Ident) -> bool { i == "f32" || i == "f64" }

fn seg(s: &str) -> PathSegment { PathSegment { ident: Ident::new(s, Span::call_site()), arguments: PathArguments::None } }

/// Returns the replacement for a path given its leading identifiers: (number of segments replaced, new head).
fn map_head(ids: &[String]) -> Option<(usize, Vec<&'static str>)> {
    let f = |s: &str| s == "f32" || s == "f64";
    let a = ids.first()?.as_str();
    let b = ids.get(1).map(|s| s.as_str()).unwrap_or("");
    if f(a) {
        if b == "consts" { return Some((2, vec!["sym", "f32m", "consts"])); }
        return Some((1, vec!["sym", "F"]));
    }
    if a == "std" || a == "core" {
        if f(b) { return if ids.len() >= 3 { Some((2, vec!["sym", "f32m"])) } else { None }; }
        if b == "primitive" && ids.get(2).map(|s| f(s)).unwrap_or(false) { return Some((3, vec!["sym", "F"])); }
        if b == "collections" { return Some((2, vec!["sym", "collections"])); }
    }
    None
}

fn cfg_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        if a.path().is_ident("test") { return true; }
        if !a.path().is_ident("cfg") { return false; }
        let t = a.meta.to_token_stream().to_string();
        let t: String = t.chars().filter(|c| !c.is_whitespace()).collect();
        t == "cfg(test)" || t.starts_with("cfg(all(test,") || t.starts_with("cfg(any(test")
    })
}

fn flatten_use(t: &UseTree, pre: &mut Vec<Ident>, out: &mut Vec<(Vec<Ident>, Option<Ident>, bool)>) {
    match t {
        UseTree::Path(p) => { pre.push(p.ident.clone()); flatten_use(&p.tree, pre, out); pre.pop(); }
        UseTree::Name(n) => { let mut v = pre.clone(); if n.ident != "self" || v.is_empty() { v.push(n.ident.clone()); } out.push((v, None, false)); }
        UseTree::Rename(n) => { let mut v = pre.clone(); if n.ident != "self" || v.is_empty() { v.push(n.ident.clone()); } out.push((v, Some(n.rename.clone()), false)); }
        UseTree::Glob(_) => out.push((pre.clone(), None, true)),
        UseTree::Group(g) => for x in &g.items { flatten_use(x, pre, out); },
    }
}

fn rewrite_use(u: &ItemUse) -> Vec<Item> {
    let mut leaves = vec![];
    flatten_use(&u.tree, &mut vec![], &mut leaves);
    let needs = leaves.iter().any(|(p, _, _)| map_head(&p.iter().map(|i| i.to_string()).collect::<Vec<_>>()).is_some());
    if !needs { return vec![Item::Use(u.clone())]; }
    let (attrs, vis, lead) = (&u.attrs, &u.vis, &u.leading_colon);
    leaves.into_iter().filter_map(|(p, ren, glob)| {
        let ids: Vec<String> = p.iter().map(|i| i.to_string()).collect();
        let ren = ren.map(|r| quote!(as #r));
        let g = if glob { quote!(:: *) } else { quote!() };
        let toks = match map_head(&ids) {
            Some((n, head)) => {
                if n == ids.len() && head == ["sym", "F"] { return None; }
                let h = head.iter().map(|s| Ident::new(s, Span::call_site()));
                let rest = p[n..].iter();
                quote!(#(#attrs)* #vis use :: #(#h)::* #(:: #rest)* #g #ren;)
            }
            None => quote!(#(#attrs)* #vis use #lead #(#p)::* #g #ren;),
        };
        Some(syn::parse2(toks).expect("use item"))
    }).collect()
}

/// Token-level fallback, used inside macros that are not expression lists.
fn tokens(ts: TokenStream) -> TokenStream {
    let mut out = TokenStream::new();
    let mut prev_dot = false;
    for t in ts {
        let dot = matches!(&t, TokenTree::Punct(p) if p.as_char() == '.');
        match t {
            TokenTree::Group(g) => { let mut n = Group::new(g.delimiter(), tokens(g.stream())); n.set_span(g.span()); out.extend([TokenTree::Group(n)]); }
            TokenTree::Ident(i) if is_float_ident(&i) => out.extend(quote!(::sym::F)),
            TokenTree::Literal(l) if !prev_dot && is_float_lit(&l) => { let l = strip_suffix(&l); out.extend(quote!(::sym::lit(#l))); }
            t => out.extend([t]),
        }
        prev_dot = dot;
    }
    out
}

/// `1f32` is an integer literal to the parser.
fn float_of(l: &Lit) -> Option<TokenStream> {
    match l {
        Lit::Float(f) => Some(float_tokens(f)),
        Lit::Int(i) if i.suffix() == "f32" || i.suffix() == "f64" => Some(format!("{}.0", i.base10_digits()).parse().unwrap()),
        _ => None,
    }
}
fn is_float_lit(l: &Literal) -> bool { syn::parse2::<Lit>(l.to_token_stream()).ok().and_then(|l| float_of(&l)).is_some() }
fn strip_suffix(l: &Literal) -> TokenStream {
    syn::parse2::<Lit>(l.to_token_stream()).ok().and_then(|l| float_of(&l)).unwrap_or_else(|| l.to_token_stream())
}

/// Float literals in patterns become bindings with a condition.
struct Pats { conditions: Vec<Expr>, outer: usize }
fn float_edge(e: &Expr) -> bool {
    match e {
        Expr::Lit(l) => float_of(&l.lit).is_some(),
        Expr::Unary(u) => float_edge(&u.expr),
        Expr::Path(p) => { let ids: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect(); ids.len() > 1 && map_head(&ids).map_or(false, |(_, h)| h[0] == "sym" && h[1] != "collections") }
        _ => false,
    }
}
impl Pats {
    fn bind(&mut self) -> Ident { Ident::new(&format!("__sym_p{}_{}", self.outer, self.conditions.len()), Span::call_site()) }
}
impl VisitMut for Pats {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        let new: Option<(Ident, Expr)> = match &*p {
            Pat::Lit(l) if float_edge(&Expr::Lit(l.clone())) => { let i = self.bind(); Some((i.clone(), parse_quote!(::sym::same(#i, #l)))) }
            Pat::Path(x) if float_edge(&Expr::Path(x.clone())) => { let i = self.bind(); Some((i.clone(), parse_quote!(::sym::same(#i, #x)))) }
            Pat::Range(r) if r.start.iter().chain(r.end.iter()).any(|e| float_edge(e)) => {
                let i = self.bind();
                let side = |e: &Option<Box<Expr>>| -> Expr { match e { Some(e) => parse_quote!(::std::option::Option::Some(#e)), None => parse_quote!(::std::option::Option::None) } };
                let (lo, hi, closed) = (side(&r.start), side(&r.end), matches!(r.limits, RangeLimits::Closed(_)));
                Some((i.clone(), parse_quote!(::sym::within(#i, #lo, #hi, #closed))))
            }
            _ => None,
        };
        match new {
            Some((i, e)) => { self.conditions.push(e); *p = parse_quote!(#i); }
            None => visit_mut::visit_pat_mut(self, p),
        }
    }
    fn visit_expr_mut(&mut self, _: &mut Expr) {}
}
static PATTERN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
/// The patterns a pattern stands for (more than one only if it has float literals below an `|`), each with the conditions to add.
fn plain_patterns(p: &Pat) -> Vec<(Pat, Vec<Expr>)> {
    let strip = |p: &Pat| {
        let mut p = p.clone();
        let mut v = Pats { conditions: vec![], outer: PATTERN.fetch_add(1, std::sync::atomic::Ordering::SeqCst) };
        v.visit_pat_mut(&mut p);
        (p, v.conditions)
    };
    let (q, conditions) = strip(p);
    if conditions.is_empty() { return vec![(p.clone(), vec![])]; }
    match p {
        Pat::Or(o) => o.cases.iter().flat_map(plain_patterns).collect(),
        Pat::Paren(o) => plain_patterns(&o.pat),
        _ => vec![(q, conditions)],
    }
}
fn plain_arms(arms: Vec<Arm>) -> Vec<Arm> {
    arms.into_iter().flat_map(|a| {
        plain_patterns(&a.pat).into_iter().map(|(pat, conditions)| {
            let mut b = a.clone();
            b.pat = pat;
            for c in conditions.into_iter().rev() {
                b.guard = Some(match b.guard.take() { Some((i, g)) => (i, parse_quote!(#c && (#g))), None => (Default::default(), Box::new(c)) });
            }
            if b.comma.is_none() { b.comma = Some(Default::default()); }
            b
        }).collect::<Vec<_>>()
    }).collect()
}
fn has_float_pattern(p: &Pat) -> bool { plain_patterns(p).iter().any(|(_, c)| !c.is_empty()) }
struct Matches { value: Expr, pat: Pat, guard: Option<Expr> }
impl syn::parse::Parse for Matches {
    fn parse(i: syn::parse::ParseStream) -> Result<Self> {
        let value = i.parse()?;
        let _: Token![,] = i.parse()?;
        let pat = Pat::parse_multi_with_leading_vert(i)?;
        let guard = if i.peek(Token![if]) { let _: Token![if] = i.parse()?; Some(i.parse()?) } else { None };
        let _: Option<Token![,]> = i.parse()?;
        Ok(Matches { value, pat, guard })
    }
}
fn float_tokens(f: &LitFloat) -> TokenStream {
    let mut d = f.base10_digits().to_string();
    if !d.contains('.') && !d.contains('e') && !d.contains('E') { d.push_str(".0"); }
    d.parse().unwrap()
}

fn simple_const(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Paren(p) => simple_const(&p.expr),
        Expr::Group(p) => simple_const(&p.expr),
        Expr::Array(a) => a.elems.iter().all(simple_const),
        Expr::Tuple(a) => a.elems.iter().all(simple_const),
        Expr::Reference(r) => simple_const(&r.expr),
        _ => false,
    }
}

/// Constant initialisers with arithmetic are evaluated on plain floats.
struct RawConst;
impl VisitMut for RawConst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            let first = p.path.segments[0].ident.to_string();
            if first == "std" || first == "core" || first == "f32" || first == "f64" { return; }
            let q = p.clone();
            *e = parse_quote!((#q).cval());
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn mentions_float(t: &Type) -> bool { t.to_token_stream().into_iter().any(|t| matches!(t, TokenTree::Ident(i) if is_float_ident(&i))) }

impl R {
    fn const_init(&mut self, ty: &mut Type, e: &mut Expr) {
        let scalar = matches!(&*ty, Type::Path(p) if p.path.get_ident().map(is_float_ident).unwrap_or(false));
        if scalar && !simple_const(e) {
            RawConst.visit_expr_mut(e);
            let body = e.clone();
            *e = parse_quote!(::sym::F::C({ #body }));
            self.visit_type_mut(ty);
            return;
        }
        let _ = mentions_float(ty);
        self.visit_type_mut(ty);
        if !simple_const(e) { NegLit.visit_expr_mut(e); }
        self.visit_expr_mut(e);
    }
    fn enter(&mut self, name: &Ident, constness: bool, block: &mut Block) {
        if constness { return; }
        let mut n = self.module.clone();
        if let Some(t) = self.in_trait_or_impl.last() { n.push_str("::"); n.push_str(t); }
        n.push_str("::");
        n.push_str(&name.to_string());
        self.functions.push(n.clone());
        block.stmts.insert(0, parse_quote!(::sym::enter(#n);));
    }
    fn items(&mut self, items: &mut Vec<Item>) {
        let old = std::mem::take(items);
        for it in old {
            let attrs: &[Attribute] = match &it {
                Item::Fn(x) => &x.attrs, Item::Mod(x) => &x.attrs, Item::Use(x) => &x.attrs, Item::Struct(x) => &x.attrs, Item::Enum(x) => &x.attrs,
                Item::Impl(x) => &x.attrs, Item::Const(x) => &x.attrs, Item::Static(x) => &x.attrs, Item::Trait(x) => &x.attrs, Item::Type(x) => &x.attrs,
                Item::Macro(x) => &x.attrs, Item::ExternCrate(x) => &x.attrs, _ => &[],
            };
            if cfg_test(attrs) { continue; }
            if let Item::Use(u) = &it { items.extend(rewrite_use(u)); continue; }
            items.push(it);
        }
        for it in items.iter_mut() { self.visit_item_mut(it); }
    }
}

/// Float arithmetic in constant initialisers that stay composite.
struct NegLit;
fn whole_numbers(e: &Expr) -> bool {
    e.to_token_stream().into_iter().any(|t| match t { TokenTree::Literal(l) => !is_float_lit(&l), _ => false })
}
impl VisitMut for NegLit {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let arithmetic = match &*e {
            Expr::Unary(u) => matches!(u.op, UnOp::Neg(_)),
            Expr::Binary(b) => matches!(b.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_) | BinOp::Rem(_)),
            _ => false,
        };
        if arithmetic && !whole_numbers(e) {
            RawConst.visit_expr_mut(e);
            let body = e.clone();
            *e = Expr::Verbatim(quote!(::sym::F::C({ #body })));
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
/// Whether a function computes with floats, which symbolic values cannot do at compile time.
#[derive(Default)]
struct Computes(bool);
impl<'a> syn::visit::Visit<'a> for Computes {
    fn visit_expr_binary(&mut self, b: &'a ExprBinary) { self.0 = true; syn::visit::visit_expr_binary(self, b); }
    fn visit_expr_unary(&mut self, u: &'a ExprUnary) { if let UnOp::Neg(_) = u.op { self.0 = true; } syn::visit::visit_expr_unary(self, u); }
    fn visit_expr_method_call(&mut self, u: &'a ExprMethodCall) { self.0 = true; syn::visit::visit_expr_method_call(self, u); }
    fn visit_expr_cast(&mut self, u: &'a ExprCast) { self.0 = true; syn::visit::visit_expr_cast(self, u); }
}
fn mentions(ts: TokenStream) -> bool {
    ts.into_iter().any(|t| match t { TokenTree::Ident(i) => is_float_ident(&i), TokenTree::Group(g) => mentions(g.stream()), TokenTree::Literal(l) => is_float_lit(&l), _ => false })
}
fn not_const(sig: &mut Signature, block: &Block) {
    if sig.constness.is_none() || !(mentions(sig.to_token_stream()) || mentions(block.to_token_stream())) { return; }
    let mut c = Computes::default();
    syn::visit::Visit::visit_block(&mut c, block);
    if c.0 { sig.constness = None; }
}

const PRINTS: [&str; 5] = ["println", "print", "eprintln", "eprint", "dbg"];

impl VisitMut for R {
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        match p { Pat::Lit(_) | Pat::Range(_) => {}, _ => visit_mut::visit_pat_mut(self, p) }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        let ids: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if let Some((n, head)) = map_head(&ids) {
            let rest: Vec<PathSegment> = p.segments.iter().skip(n).cloned().collect();
            let mut segs: Punctuated<PathSegment, Token![::]> = Punctuated::new();
            for h in head { segs.push(seg(h)); }
            for r in rest { segs.push(r); }
            // type arguments stay on the last segment of the replaced part
            p.leading_colon = Some(Default::default());
            p.segments = segs;
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_item_const_mut(&mut self, c: &mut ItemConst) { let mut t = (*c.ty).clone(); self.const_init(&mut t, &mut c.expr); *c.ty = t; }
    fn visit_impl_item_const_mut(&mut self, c: &mut ImplItemConst) { let mut t = c.ty.clone(); self.const_init(&mut t, &mut c.expr); c.ty = t; }
    fn visit_item_static_mut(&mut self, c: &mut ItemStatic) { let mut t = (*c.ty).clone(); self.const_init(&mut t, &mut c.expr); *c.ty = t; }
    fn visit_trait_item_const_mut(&mut self, c: &mut TraitItemConst) {
        let mut t = c.ty.clone();
        match &mut c.default { Some((_, e)) => self.const_init(&mut t, e), None => self.visit_type_mut(&mut t) }
        c.ty = t;
    }
    fn visit_item_mod_mut(&mut self, m: &mut ItemMod) {
        let old = self.module.clone();
        if let Some((_, items)) = &mut m.content {
            self.module = format!("{}::{}", old, m.ident);
            self.items(items);
        }
        self.module = old;
    }
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        not_const(&mut f.sig, &f.block);
        visit_mut::visit_item_fn_mut(self, f);
        self.enter(&f.sig.ident.clone(), f.sig.constness.is_some(), &mut f.block);
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        not_const(&mut f.sig, &f.block);
        visit_mut::visit_impl_item_fn_mut(self, f);
        self.enter(&f.sig.ident.clone(), f.sig.constness.is_some(), &mut f.block);
    }
    fn visit_trait_item_fn_mut(&mut self, f: &mut TraitItemFn) {
        visit_mut::visit_trait_item_fn_mut(self, f);
        if let Some(b) = &mut f.default { self.enter(&f.sig.ident.clone(), f.sig.constness.is_some(), b); }
    }
    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        i.items.retain(|x| match x { ImplItem::Fn(f) => !cfg_test(&f.attrs), _ => true });
        let name = i.self_ty.to_token_stream().to_string().replace(' ', "");
        self.in_trait_or_impl.push(name);
        visit_mut::visit_item_impl_mut(self, i);
        self.in_trait_or_impl.pop();
    }
    fn visit_item_trait_mut(&mut self, i: &mut ItemTrait) {
        self.in_trait_or_impl.push(i.ident.to_string());
        visit_mut::visit_item_trait_mut(self, i);
        self.in_trait_or_impl.pop();
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // local use items
        let old = std::mem::take(&mut b.stmts);
        for s in old {
            match s {
                Stmt::Item(Item::Use(u)) => b.stmts.extend(rewrite_use(&u).into_iter().map(Stmt::Item)),
                s => b.stmts.push(s),
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let name = m.mac.path.segments.last().unwrap().ident.to_string();
            if PRINTS.contains(&name.as_str()) && name != "dbg" { let e = self.print_args(&m.mac); *s = Stmt::Expr(e, Some(Default::default())); return; }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Lit(ExprLit { lit, .. }) => { if let Some(t) = float_of(lit) { *e = parse_quote!(::sym::lit(#t)); } return; }
            Expr::Match(m) => m.arms = plain_arms(std::mem::take(&mut m.arms)),
            Expr::If(x) => {
                if let Expr::Let(l) = &*x.cond {
                    if has_float_pattern(&l.pat) {
                        let (value, pat, then) = (&l.expr, &l.pat, &x.then_branch);
                        let other: Expr = match &x.else_branch { Some((_, e)) => (**e).clone(), None => parse_quote!({}) };
                        let mut m: ExprMatch = parse_quote!(match #value { #pat => #then, _ => #other, });
                        m.arms = plain_arms(std::mem::take(&mut m.arms));
                        *e = Expr::Match(m);
                    }
                }
            }
            Expr::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                if PRINTS.contains(&name.as_str()) && name != "dbg" { *e = self.print_args(&m.mac.clone()); return; }
                if name == "matches" {
                    if let Ok(x) = syn::parse2::<Matches>(m.mac.tokens.clone()) {
                        let (value, pat) = (&x.value, &x.pat);
                        let guard = x.guard.iter().map(|g| quote!(if #g));
                        let mut m: ExprMatch = parse_quote!(match #value { #pat #(#guard)* => true, _ => false, });
                        m.arms = plain_arms(std::mem::take(&mut m.arms));
                        *e = Expr::Match(m);
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Cast(c) => {
                let ty = c.ty.to_token_stream().to_string().replace(' ', "");
                let ints = ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"];
                if ty == "::sym::F" || (!self.raw_int_casts && ints.contains(&ty.as_str())) {
                    let (x, t) = (&c.expr, &c.ty);
                    *e = parse_quote!(::sym::Cast::<#t>::cast(#x));
                }
            }
            // primitive compound assignments evaluate the right side first
            Expr::Binary(b) if matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::RemAssign(_)) && !matches!(&*b.right, Expr::Lit(_)) => {
                let (l, o, r) = (&b.left, &b.op, &b.right);
                *e = parse_quote!(match #r { __sym_rhs => { #l #o __sym_rhs; } });
            }
            Expr::While(w) => w.body.stmts.insert(0, parse_quote!(::sym::tick();)),
            Expr::ForLoop(w) => w.body.stmts.insert(0, parse_quote!(::sym::tick();)),
            Expr::Loop(w) => w.body.stmts.insert(0, parse_quote!(::sym::tick();)),
            _ => {}
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        if name == "matches" || name == "macro_rules" { m.tokens = tokens(m.tokens.clone()); return; }
        if let Ok(mut args) = Punctuated::<Expr, Token![,]>::parse_terminated.parse2(m.tokens.clone()) {
            for a in args.iter_mut() {
                // named format arguments look like assignments
                if let Expr::Assign(x) = a { self.visit_expr_mut(&mut x.right); } else { self.visit_expr_mut(a); }
            }
            m.tokens = args.to_token_stream();
            return;
        }
        let rep = |input: syn::parse::ParseStream| -> Result<(Expr, Expr)> { let a: Expr = input.parse()?; let _: Token![;] = input.parse()?; let b: Expr = input.parse()?; Ok((a, b)) };
        if let Ok((mut a, mut b)) = rep.parse2(m.tokens.clone()) {
            self.visit_expr_mut(&mut a);
            self.visit_expr_mut(&mut b);
            m.tokens = quote!(#a ; #b);
            return;
        }
        m.tokens = tokens(m.tokens.clone());
    }
}

impl R {
    /// Printing is dropped, its arguments are still evaluated.
    fn print_args(&mut self, m: &Macro) -> Expr {
        match Punctuated::<Expr, Token![,]>::parse_terminated.parse2(m.tokens.clone()) {
            Ok(args) => {
                let mut v = vec![];
                for (i, mut a) in args.into_iter().enumerate() {
                    if i == 0 { continue; }
                    if let Expr::Assign(x) = a { a = *x.right; }
                    self.visit_expr_mut(&mut a);
                    v.push(a);
                }
                parse_quote!({ #( let _ = &(#v); )* })
            }
            Err(_) => parse_quote!({}),
        }
    }
}

fn walk(src: &FsPath, dst: &FsPath, rel: &str, raw: bool, functions: &mut Vec<String>) {
    std::fs::create_dir_all(dst).unwrap();
    let mut names: Vec<_> = std::fs::read_dir(src).unwrap().map(|e| e.unwrap().path()).collect();
    names.sort();
    for p in names {
        let name = p.file_name().unwrap().to_string_lossy().to_string();
        if p.is_dir() { walk(&p, &dst.join(&name), &format!("{}{}::", rel, name), raw, functions); continue; }
        if !name.ends_with(".rs") { let _ = std::fs::copy(&p, dst.join(&name)); continue; }
        let text = std::fs::read_to_string(&p).unwrap();
        let mut file = match syn::parse_file(&text) { Ok(f) => f, Err(e) => { eprintln!("{}: {}", p.display(), e); std::process::exit(2) } };
        let mut r = R { module: format!("{}{}", rel, name.trim_end_matches(".rs")), raw_int_casts: raw, in_trait_or_impl: vec![], functions: vec![] };
        r.items(&mut file.items);
        functions.append(&mut r.functions);
        let out = file.to_token_stream().to_string();
        std::fs::write(dst.join(&name), out).unwrap();
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let raw = a.get(3).map(|s| s == "raw").unwrap_or(false);
    let mut functions = vec![];
    walk(FsPath::new(&a[1]), FsPath::new(&a[2]), "", raw, &mut functions);
    std::fs::write(FsPath::new(&a[2]).join("../functions.txt"), functions.join("\n")).unwrap();
    let _ = Delimiter::None;
}
