//! Normalizations of code that the contracts were not written for: a new helper
//! without a contract is put back where it is called, a new loop over the
//! elements of a slice becomes the loop over its indices, and `continue` in a
//! `for` loop becomes the branch it stands for.  Each is a desugaring; what
//! does not fit the patterns is left alone.
use crate::load::Module;
use crate::util::*;
use quote::ToTokens;
use std::collections::{BTreeSet, HashSet};
use syn::spanned::Spanned;
use syn::visit::Visit;
use syn::*;

pub struct Normal<'c> {
    pub known: &'c dyn Fn(&str) -> bool,
    pub loops: &'c HashSet<String>,
    pub log: Vec<String>,
    /// functions whose text was changed here
    pub touched: BTreeSet<String>,
    n: usize,
    /// methods without arguments that return a slice
    slices: Option<HashSet<String>>,
}

fn squash(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
fn norm(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}
fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        _ => squash(&t.to_token_stream().to_string()),
    }
}
/// `'a` to `'_`
fn erase(s: &str) -> String {
    let b: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '\'' {
            o.push_str("'_");
            i += 1;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}
fn idents(ts: proc_macro2::TokenStream, o: &mut HashSet<String>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Ident(i) => {
                o.insert(i.to_string());
            }
            proc_macro2::TokenTree::Group(g) => idents(g.stream(), o),
            _ => (),
        }
    }
}
fn mentions(ts: proc_macro2::TokenStream, x: &str) -> bool {
    let mut s = HashSet::new();
    idents(ts, &mut s);
    s.contains(x)
}
fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        Expr::Group(p) => unparen(&p.expr),
        _ => e,
    }
}

#[derive(Clone)]
struct Helper {
    name: String,
    /// the type whose inherent function this is
    ty: Option<String>,
    recv: bool,
    params: Vec<(String, bool, Type)>,
    ret: String,
    block: Block,
    body: String,
    early: bool,
    range: (usize, usize),
}

struct Early(bool);
impl<'a> Visit<'a> for Early {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
struct Returns(bool);
impl<'a> Visit<'a> for Returns {
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        // `return Err(..)` may leave the caller as it leaves the helper
        let ok = matches!(r.expr.as_deref().map(unparen), Some(Expr::Call(c)) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Err")));
        self.0 |= !ok;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}

fn helper(src: &str, sig: &Signature, block: &Block, ty: Option<String>, range: (usize, usize)) -> Option<Helper> {
    if sig.generics.type_params().next().is_some() || sig.generics.const_params().next().is_some() || sig.generics.where_clause.is_some() {
        return None;
    }
    if sig.asyncness.is_some() || sig.unsafety.is_some() {
        return None;
    }
    let mut params = vec![];
    let mut recv = false;
    for i in &sig.inputs {
        match i {
            FnArg::Receiver(r) => {
                if r.colon_token.is_some() || (r.mutability.is_some() && r.reference.is_none()) {
                    return None;
                }
                recv = true;
            }
            FnArg::Typed(t) => match &*t.pat {
                Pat::Ident(p) if p.by_ref.is_none() && p.subpat.is_none() => {
                    if t.ty.to_token_stream().to_string().contains("impl ") {
                        return None;
                    }
                    params.push((p.ident.to_string(), p.mutability.is_some(), (*t.ty).clone()));
                }
                _ => return None,
            },
        }
    }
    let mut e = Early(false);
    e.visit_block(block);
    let ret = match &sig.output {
        ReturnType::Default => "()".to_string(),
        ReturnType::Type(_, t) => squash(&erase(&t.to_token_stream().to_string())),
    };
    let name = sig.ident.to_string();
    if mentions(block.to_token_stream(), &name) {
        return None;
    }
    Some(Helper { name, ty, recv, params, ret, block: block.clone(), body: src[block.span().byte_range()].to_string(), early: e.0, range })
}

fn err_of(ret: &str) -> Option<String> {
    let r = ret.strip_prefix("Result<")?.strip_suffix('>')?;
    let mut d = 0i32;
    for (i, c) in r.char_indices() {
        match c {
            '<' | '(' | '[' => d += 1,
            '>' | ')' | ']' => d -= 1,
            ',' if d == 0 => return Some(r[i + 1..].to_string()),
            _ => (),
        }
    }
    None
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Pos {
    Tail,
    Return,
    Try,
    Plain,
}

/// The calls of helpers in a function, with the position each stands in.
struct Calls<'h> {
    hs: &'h [Helper],
    ty: Option<String>,
    found: Vec<(usize, Pos, std::ops::Range<usize>, Vec<Expr>)>,
    /// mentions that are not calls of the handled form
    closure: usize,
}
impl<'h> Calls<'h> {
    fn call(&self, e: &Expr) -> Option<(usize, Vec<Expr>)> {
        match unparen(e) {
            Expr::MethodCall(m) => {
                let me = matches!(unparen(&m.receiver), Expr::Path(p) if p.path.is_ident("self"));
                let i = self.hs.iter().position(|h| h.recv && me && m.method == h.name && h.ty == self.ty)?;
                Some((i, m.args.iter().cloned().collect()))
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if p.qself.is_some() {
                        return None;
                    }
                    let s: Vec<String> = p.path.segments.iter().map(|x| x.ident.to_string()).collect();
                    let i = self.hs.iter().position(|h| {
                        !h.recv
                            && s.last() == Some(&h.name)
                            && match (&h.ty, s.len()) {
                                (None, 1) => true,
                                (Some(t), 2) => {
                                    (s[0] == "Self" && self.ty == h.ty) || (s[0] == *t && (self.ty == h.ty || !mentions(h.block.to_token_stream(), "Self")))
                                }
                                _ => false,
                            }
                    })?;
                    Some((i, c.args.iter().cloned().collect()))
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    fn tail(&mut self, e: &Expr) {
        if let Some((i, a)) = self.call(e) {
            self.found.push((i, Pos::Tail, e.span().byte_range(), a));
            return;
        }
        match e {
            Expr::If(x) => {
                self.visit_expr(&x.cond);
                self.tail_block(&x.then_branch);
                if let Some((_, b)) = &x.else_branch {
                    self.tail(b);
                }
            }
            Expr::Match(m) => {
                self.visit_expr(&m.expr);
                for a in &m.arms {
                    if let Some((_, g)) = &a.guard {
                        self.visit_expr(g);
                    }
                    self.tail(&a.body);
                }
            }
            Expr::Block(b) if b.label.is_none() => self.tail_block(&b.block),
            _ => self.visit_expr(e),
        }
    }
    fn tail_block(&mut self, b: &Block) {
        let n = b.stmts.len();
        for (k, s) in b.stmts.iter().enumerate() {
            match s {
                Stmt::Expr(e, None) if k + 1 == n => self.tail(e),
                _ => self.visit_stmt(s),
            }
        }
    }
}
impl<'h, 'a> Visit<'a> for Calls<'h> {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Try(t) => {
                if let Some((i, a)) = self.call(&t.expr) {
                    let pos = if self.closure > 0 { Pos::Plain } else { Pos::Try };
                    let r = if pos == Pos::Try { e.span() } else { t.expr.span() };
                    self.found.push((i, pos, r.byte_range(), a));
                    return;
                }
            }
            Expr::Return(r) if self.closure == 0 => {
                if let Some(x) = &r.expr {
                    if let Some((i, a)) = self.call(x) {
                        self.found.push((i, Pos::Return, x.span().byte_range(), a));
                        return;
                    }
                }
            }
            _ => (),
        }
        if let Some((i, a)) = self.call(e) {
            self.found.push((i, Pos::Plain, e.span().byte_range(), a));
            return;
        }
        visit::visit_expr(self, e);
    }
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
        self.closure += 1;
        visit::visit_expr_closure(self, c);
        self.closure -= 1;
    }
    fn visit_item(&mut self, _: &'a Item) {}
}

/// The text of a tail expression with its `Ok(v)` unwrapped.
fn unok(src: &str, base: usize, e: &Expr) -> Option<String> {
    let t = |sp: proc_macro2::Span| src[start(sp) - base..end(sp) - base].to_string();
    Some(match e {
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) if p.path.is_ident("Ok") && c.args.len() == 1 => t(c.args[0].span()),
            Expr::Path(p) if p.path.is_ident("Err") => format!("return {}", t(e.span())),
            _ => format!("({})?", t(e.span())),
        },
        Expr::If(x) => {
            let (_, b) = x.else_branch.as_ref()?;
            format!("if {} {} else {}", t(x.cond.span()), unok_block(src, base, &x.then_branch)?, unok_else(src, base, b)?)
        }
        Expr::Match(m) => {
            let mut s = format!("match {} {{ ", t(m.expr.span()));
            for a in &m.arms {
                let g = a.guard.as_ref().map_or(String::new(), |g| format!(" if {}", t(g.1.span())));
                s.push_str(&format!("{}{} => {{ {} }} ", t(a.pat.span()), g, unok(src, base, &a.body)?));
            }
            s + "}"
        }
        Expr::Block(b) if b.label.is_none() => unok_block(src, base, &b.block)?,
        Expr::Return(_) => t(e.span()),
        Expr::MethodCall(_) | Expr::Path(_) => format!("({})?", t(e.span())),
        _ => return None,
    })
}
/// The body of a helper with error type `from`, placed under `?` in a function
/// with error type `to`.
fn converting(src: &str, base: usize, b: &Block, ret: &str, from: &str, to: &str) -> Option<String> {
    struct V(Vec<(std::ops::Range<usize>, std::ops::Range<usize>, bool)>);
    impl<'a> Visit<'a> for V {
        fn visit_expr_return(&mut self, r: &'a ExprReturn) {
            if let Some(Expr::Call(c)) = r.expr.as_deref().map(unparen) {
                self.0.push((r.span().byte_range(), c.args[0].span().byte_range(), false));
            }
            visit::visit_expr_return(self, r);
        }
        fn visit_expr_try(&mut self, t: &'a ExprTry) {
            self.0.push((t.span().byte_range(), t.expr.span().byte_range(), true));
            visit::visit_expr_try(self, t);
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(vec![]);
    v.visit_block(b);
    v.0.sort_by_key(|x| x.0.start);
    if v.0.windows(2).any(|w| w[1].0.start < w[0].0.end) {
        return None;
    }
    if ret.contains("mut") || ret.contains("dyn") || ret.contains("impl") {
        return None;
    }
    let mut o = format!("{{ let r__: {} = ", ret);
    let mut at = base;
    for (whole, inner, q) in v.0 {
        o.push_str(&src[at - base..whole.start - base]);
        let x = &src[inner.start - base..inner.end - base];
        if q {
            o.push_str(&format!("(match {} {{ Ok(v__) => v__, Err(e__) => {{ let f__: {} = core::convert::From::from(e__); return Err(<{} as From<{}>>::from(f__)) }} }})", x, from, to, from));
        } else {
            o.push_str(&format!("return Err(<{} as From<{}>>::from({}))", to, from, x));
        }
        at = whole.end;
    }
    o.push_str(&src[at - base..]);
    Some(o + "; r__? }")
}
fn unok_else(src: &str, base: usize, e: &Expr) -> Option<String> {
    let s = unok(src, base, e)?;
    Some(if matches!(e, Expr::If(_) | Expr::Block(_)) { s } else { format!("{{ {} }}", s) })
}
fn unok_block(src: &str, base: usize, b: &Block) -> Option<String> {
    let n = b.stmts.len();
    let mut s = String::from("{ ");
    for (k, x) in b.stmts.iter().enumerate() {
        match x {
            Stmt::Expr(e, None) if k + 1 == n => s.push_str(&unok(src, base, e)?),
            _ => {
                s.push_str(&src[start(x.span()) - base..end(x.span()) - base]);
                s.push(' ');
                if k + 1 == n && !matches!(x, Stmt::Expr(Expr::Return(_), _)) {
                    return None;
                }
            }
        }
    }
    Some(s + " }")
}

/// Replace the identifier `x` (a variable) by `by` in `text`.
fn subst(text: &str, x: &str, by: &str) -> Option<String> {
    struct S<'e> {
        x: &'e str,
        by: &'e str,
        ed: Edits,
        bad: bool,
    }
    impl<'e, 'a> Visit<'a> for S<'e> {
        fn visit_expr_path(&mut self, p: &'a ExprPath) {
            if p.path.is_ident(self.x) {
                self.ed.replace(p.span(), self.by);
            }
        }
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.bad |= p.ident == self.x;
            visit::visit_pat_ident(self, p);
        }
        fn visit_field_value(&mut self, f: &'a FieldValue) {
            self.bad |= f.colon_token.is_none() && matches!(&f.expr, Expr::Path(p) if p.path.is_ident(self.x));
            visit::visit_field_value(self, f);
        }
        fn visit_macro(&mut self, m: &'a Macro) {
            self.bad |= mentions(m.tokens.clone(), self.x);
        }
    }
    let b: Block = parse_str(text).ok()?;
    let mut s = S { x, by, ed: Edits::default(), bad: false };
    s.visit_block(&b);
    if s.bad {
        return None;
    }
    Some(s.ed.apply(text))
}

impl<'c> Normal<'c> {
    pub fn new(known: &'c dyn Fn(&str) -> bool, loops: &'c HashSet<String>) -> Self {
        Normal { known, loops, log: vec![], touched: BTreeSet::new(), n: 0, slices: None }
    }

    fn slice_methods(m: &Module, yes: &mut HashSet<String>, no: &mut HashSet<String>) {
        if let Ok(f) = parse_file(&m.text) {
            for (_, _, sig, _, _, _) in Self::functions(m, &f) {
                let n = sig.ident.to_string();
                let slice = matches!(&sig.output, ReturnType::Type(_, t) if matches!(&**t, Type::Reference(r) if r.mutability.is_none() && matches!(&*r.elem, Type::Slice(_) | Type::Array(_))));
                let own = sig.inputs.len() == 1 && matches!(&sig.inputs[0], FnArg::Receiver(r) if r.reference.is_some() && r.mutability.is_none());
                if slice && own {
                    yes.insert(n);
                } else {
                    no.insert(n);
                }
            }
        }
        for c in &m.children {
            Self::slice_methods(c, yes, no);
        }
    }

    pub fn module(&mut self, m: &mut Module) {
        if self.slices.is_none() {
            let (mut y, mut n) = (HashSet::new(), HashSet::new());
            Self::slice_methods(m, &mut y, &mut n);
            self.slices = Some(y.difference(&n).cloned().collect());
        }
        for _ in 0..40 {
            let t = match self.inline_one(m) {
                Some(t) => t,
                None => break,
            };
            if parse_file(&t).is_err() {
                break;
            }
            m.text = t;
        }
        for _ in 0..40 {
            let t = match self.flat_one(m) {
                Some(t) => t,
                None => break,
            };
            if parse_file(&t).is_err() {
                break;
            }
            m.text = t;
        }
        for _ in 0..60 {
            let t = match self.loop_one(m) {
                Some(t) => t,
                None => break,
            };
            if parse_file(&t).is_err() {
                break;
            }
            m.text = t;
        }
        for c in &mut m.children {
            self.module(c);
        }
    }

    fn key(m: &Module, rest: &str) -> String {
        let mut p = m.path.join("::");
        if !p.is_empty() {
            p.push_str("::");
        }
        p + rest
    }

    /// All functions with a body: key, type, signature, block.
    fn functions<'f>(m: &Module, f: &'f File) -> Vec<(String, Option<String>, &'f Signature, &'f Block, (usize, usize), bool)> {
        let mut v = vec![];
        for i in &f.items {
            match i {
                Item::Fn(x) => v.push((Self::key(m, &x.sig.ident.to_string()), None, &x.sig, &*x.block, (start(x.span()), end(x.span())), true)),
                Item::Impl(im) => {
                    let t = ty_name(&im.self_ty);
                    for ii in &im.items {
                        if let ImplItem::Fn(x) = ii {
                            let mut k = Self::key(m, &format!("{}::{}", t, x.sig.ident));
                            if let Some((_, p, _)) = &im.trait_ {
                                let s = p.segments.last().unwrap();
                                k.push_str(&format!("@{}{}", s.ident, squash(&s.arguments.to_token_stream().to_string())));
                            }
                            v.push((k, Some(t.clone()), &x.sig, &x.block, (start(x.span()), end(x.span())), im.trait_.is_none()));
                        }
                    }
                }
                _ => (),
            }
        }
        v
    }

    fn inline_one(&mut self, m: &Module) -> Option<String> {
        let text = m.text.clone();
        let f = parse_file(&text).ok()?;
        let fns = Self::functions(m, &f);
        let hs: Vec<Helper> = fns
            .iter()
            .filter(|x| x.5 && !(self.known)(&x.0))
            .filter_map(|x| helper(&text, x.2, x.3, x.1.clone(), x.4))
            .collect();
        if hs.is_empty() {
            return None;
        }
        for (key, ty, sig, block, _, _) in &fns {
            let mut c = Calls { hs: &hs, ty: ty.clone(), found: vec![], closure: 0 };
            c.tail_block(block);
            let ret = match &sig.output {
                ReturnType::Default => "()".to_string(),
                ReturnType::Type(_, t) => squash(&erase(&t.to_token_stream().to_string())),
            };
            for (i, pos, r, args) in c.found {
                if let Some(t) = self.expand(&text, &hs[i], pos, &args, &ret) {
                    let mut o = String::new();
                    o.push_str(&text[..r.start]);
                    o.push_str(&t);
                    o.push_str(&text[r.end..]);
                    self.log.push("new helper put back in its caller".into());
                    self.touched.insert(key.clone());
                    return Some(o);
                }
            }
        }
        // a helper that is no longer mentioned goes away
        for h in &hs {
            let rest = format!("{}{}", &text[..h.range.0], &text[h.range.1..]);
            if let Ok(ts) = rest.parse::<proc_macro2::TokenStream>() {
                let public = text[h.range.0..h.range.1].trim_start().starts_with("pub ");
                if !mentions(ts, &h.name) && !public && self.log.iter().any(|l| l.contains("helper")) {
                    return Some(rest);
                }
            }
        }
        None
    }

    fn expand(&mut self, src: &str, h: &Helper, pos: Pos, args: &[Expr], ret: &str) -> Option<String> {
        if args.len() != h.params.len() {
            return None;
        }
        let base = start(h.block.span());
        let mut body = match pos {
            Pos::Tail | Pos::Return if h.early => {
                if h.ret != ret {
                    return None;
                }
                h.body.clone()
            }
            Pos::Try => {
                let mut r = Returns(false);
                r.visit_block(&h.block);
                if r.0 || err_of(&h.ret).is_none() || (h.early && err_of(ret).is_none()) {
                    return None;
                }
                if h.early && err_of(&h.ret) != err_of(ret) {
                    // what leaves the helper is converted where it leaves the caller
                    converting(&h.body, base, &h.block, &h.ret, &err_of(&h.ret)?, &err_of(ret)?)?
                } else if err_of(&h.ret) == err_of(ret) {
                    unok_block(&h.body, base, &h.block)?
                } else {
                    format!("({})?", h.body)
                }
            }
            _ if h.early => return None,
            _ => h.body.clone(),
        };
        // arguments
        let mut lets = String::new();
        let mut late = String::new();
        for (k, ((p, mutable, ty), a)) in h.params.iter().zip(args).enumerate() {
            let at = src[a.span().byte_range()].trim().to_string();
            let tt = erase(&src[ty.span().byte_range()]);
            if at == *p {
                if *mutable {
                    lets.push_str(&format!("let mut {} = {}; ", p, p));
                }
                continue;
            }
            let by_mut = matches!(ty, Type::Reference(r) if r.mutability.is_some());
            if by_mut && !*mutable {
                let by = match unparen(a) {
                    Expr::Path(_) | Expr::Field(_) => at.clone(),
                    Expr::Reference(_) => format!("({})", at),
                    _ => return None,
                };
                if body.starts_with('(') {
                    return None;
                }
                body = subst(&body, p, &by)?;
                continue;
            }
            // a variable stands for a parameter that is not written to
            if let (Expr::Path(q), false, true) = (unparen(a), *mutable, body.starts_with('{')) {
                if q.path.get_ident().is_some() && !mentions(h.block.to_token_stream(), &at) {
                    if let Some(b) = subst(&body, p, &at) {
                        body = b;
                        continue;
                    }
                }
            }
            if let (Expr::Reference(q), Type::Reference(tr), false, true) = (unparen(a), ty, *mutable, body.starts_with('{')) {
                if let (Expr::Path(v), None, None) = (&*q.expr, &q.mutability, &tr.mutability) {
                    let n = v.path.get_ident().map(|i| i.to_string());
                    if n.map_or(false, |n| n == *p || !mentions(h.block.to_token_stream(), &n)) {
                        if let Some(b) = subst(&body, p, &format!("({})", at)) {
                            body = b;
                            continue;
                        }
                    }
                }
            }
            let capture = args[k + 1..].iter().any(|b| mentions(b.to_token_stream(), p));
            let mu = if *mutable { "mut " } else { "" };
            if capture {
                self.n += 1;
                lets.push_str(&format!("let in{}__: {} = {}; ", self.n, tt, at));
                late.push_str(&format!("let {}{} = in{}__; ", mu, p, self.n));
            } else {
                lets.push_str(&format!("let {}{}: {} = {}; ", mu, p, tt, at));
            }
        }
        lets.push_str(&late);
        if lets.is_empty() && h.block.stmts.len() == 1 && body.starts_with('{') && matches!(&h.block.stmts[0], Stmt::Expr(e, None) if !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_))) {
            let inner = body[1..body.len() - 1].trim().to_string();
            return Some(if pos == Pos::Plain { format!("({})", inner) } else { inner });
        }
        Some(if lets.is_empty() {
            body
        } else if body.starts_with('{') {
            format!("{{ {}{}", lets, &body[1..])
        } else {
            format!("{{ {}{} }}", lets, body)
        })
    }

    /// `let x = { s; e };` to `s; let x = e;` where the names of `s` are its own
    fn flat_one(&mut self, m: &Module) -> Option<String> {
        let text = m.text.clone();
        let f = parse_file(&text).ok()?;
        for (key, _, sig, block, _, _) in Self::functions(m, &f) {
            if !self.touched.contains(&key) {
                continue;
            }
            let mut v = Flat { src: &text, whole: block, inputs: sig.inputs.to_token_stream(), out: None };
            v.visit_block(block);
            if let Some((r, t)) = v.out {
                return Some(format!("{}{}{}", &text[..r.start], t, &text[r.end..]));
            }
        }
        None
    }

    fn loop_one(&mut self, m: &Module) -> Option<String> {
        let text = m.text.clone();
        let f = parse_file(&text).ok()?;
        for (key, _, sig, block, _, _) in Self::functions(m, &f) {
            let mut used = HashSet::new();
            idents(block.to_token_stream(), &mut used);
            idents(sig.inputs.to_token_stream(), &mut used);
            let mut v = Loops { src: &text, known: self.loops, used: &used, n: &mut self.n, slices: self.slices.as_ref().unwrap(), out: None };
            v.visit_block(block);
            if let Some((r, t, what)) = v.out {
                self.log.push(what);
                self.touched.insert(key);
                return Some(format!("{}{}{}", &text[..r.start], t, &text[r.end..]));
            }
        }
        None
    }
}

struct Flat<'l> {
    src: &'l str,
    whole: &'l Block,
    inputs: proc_macro2::TokenStream,
    out: Option<(std::ops::Range<usize>, String)>,
}
fn count(ts: proc_macro2::TokenStream, x: &str) -> usize {
    ts.into_iter()
        .map(|t| match t {
            proc_macro2::TokenTree::Ident(i) => (i == x) as usize,
            proc_macro2::TokenTree::Group(g) => count(g.stream(), x),
            _ => 0,
        })
        .sum()
}
struct Names(Vec<String>);
impl<'a> Visit<'a> for Names {
    fn visit_pat_ident(&mut self, i: &'a PatIdent) {
        self.0.push(i.ident.to_string());
        visit::visit_pat_ident(self, i);
    }
}
impl<'l> Flat<'l> {
    fn own(&self, b: &Block) -> bool {
        let mut n = Names(vec![]);
        for s in &b.stmts {
            match s {
                Stmt::Local(l) => n.visit_pat(&l.pat),
                Stmt::Expr(..) => (),
                _ => return false,
            }
        }
        n.0.iter().all(|x| count(self.whole.to_token_stream(), x) == count(b.to_token_stream(), x) && count(self.inputs.clone(), x) == 0)
    }
    fn t(&self, e: &impl Spanned) -> String {
        self.src[e.span().byte_range()].to_string()
    }
}
impl<'l, 'a> Visit<'a> for Flat<'l> {
    fn visit_stmt(&mut self, s: &'a Stmt) {
        if self.out.is_some() {
            return;
        }
        visit::visit_stmt(self, s);
        if self.out.is_some() {
            return;
        }
        if let Stmt::Local(l) = s {
            if let Some(init) = &l.init {
                if let (Expr::Block(b), None) = (unparen(&init.expr), &init.diverge) {
                    if let (None, Some((Stmt::Expr(e, None), rest))) = (&b.label, b.block.stmts.split_last()) {
                        if self.own(&b.block) {
                            let pre: String = rest.iter().map(|s| self.t(s) + " ").collect();
                            self.out = Some((s.span().byte_range(), format!("{}let {} = {};", pre, self.t(&l.pat), self.t(e))));
                        }
                    }
                }
            }
        }
        if let Stmt::Expr(Expr::Block(b), _) = s {
            // a block that is the last statement of the function
            let last = self.whole.stmts.last().map(|x| x.span().byte_range()) == Some(s.span().byte_range());
            if b.label.is_none() && last && self.own(&b.block) {
                let t = self.t(&b.block);
                self.out = Some((s.span().byte_range(), t[1..t.len() - 1].to_string()));
            }
        }
    }
    fn visit_item(&mut self, _: &'a Item) {}
}

enum Elem {
    Leaf(String),
    Pair(Box<Elem>, Box<Elem>),
}

struct Loops<'l> {
    src: &'l str,
    known: &'l HashSet<String>,
    used: &'l HashSet<String>,
    n: &'l mut usize,
    slices: &'l HashSet<String>,
    out: Option<(std::ops::Range<usize>, String, String)>,
}

struct Seq {
    lo: String,
    hi: String,
    elem: Elem,
    pre: String,
}

fn place(e: &Expr) -> bool {
    match unparen(e) {
        Expr::Path(_) => true,
        Expr::Field(f) => place(&f.base),
        _ => false,
    }
}
fn simple(e: &Expr) -> bool {
    match unparen(e) {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => simple(&f.base),
        Expr::Cast(c) => simple(&c.expr),
        Expr::Binary(b) => simple(&b.left) && simple(&b.right),
        _ => false,
    }
}

impl<'l> Loops<'l> {
    fn t(&self, e: &impl Spanned) -> String {
        self.src[e.span().byte_range()].to_string()
    }
    fn fresh(&mut self, p: &str) -> String {
        *self.n += 1;
        format!("{}{}__", p, self.n)
    }
    /// The elements of a slice, array or sub-slice, by index `I`.
    fn source(&mut self, e: &Expr) -> Option<Seq> {
        let e = unparen(e);
        let (inner, sub) = match e {
            Expr::Reference(r) if r.mutability.is_none() => (unparen(&r.expr), true),
            _ => (e, false),
        };
        let _ = sub;
        if place(inner) {
            let s = self.t(inner);
            return Some(Seq { lo: "0".into(), hi: format!("{}.len()", s), elem: Elem::Leaf(format!("&{}[\u{1}]", s)), pre: String::new() });
        }
        if let Expr::MethodCall(mc) = inner {
            if mc.args.is_empty() && self.slices.contains(&mc.method.to_string()) {
                let v = self.fresh("s");
                let pre = format!("let {} = {}; ", v, self.t(inner));
                return Some(Seq { lo: "0".into(), hi: format!("{}.len()", v), elem: Elem::Leaf(format!("&{}[\u{1}]", v)), pre });
            }
        }
        if let Expr::Index(ix) = inner {
            if let Expr::Range(r) = unparen(&ix.index) {
                let half = matches!(r.limits, RangeLimits::HalfOpen(_));
                let ok = |x: &Option<Box<Expr>>| x.as_ref().map_or(true, |e| simple(e));
                if half && place(&ix.expr) && ok(&r.start) && ok(&r.end) {
                    let s = self.t(&*ix.expr);
                    let lo = r.start.as_ref().map_or("0".into(), |e| self.t(&**e));
                    let hi = r.end.as_ref().map_or(format!("{}.len()", s), |e| self.t(&**e));
                    // the slice is taken before the loop, and may panic there
                    let v = self.fresh("s");
                    let pre = format!("let {} = &{}; ", v, self.t(inner));
                    return Some(Seq { lo, hi, elem: Elem::Leaf(format!("&{}[\u{1}]", s)), pre });
                }
            }
            let v = self.fresh("s");
            let pre = format!("let {} = &{}; ", v, self.t(inner));
            return Some(Seq { lo: "0".into(), hi: format!("{}.len()", v), elem: Elem::Leaf(format!("&{}[\u{1}]", v)), pre });
        }
        None
    }
    fn seq(&mut self, e: &Expr) -> Option<Seq> {
        let e = unparen(e);
        if let Expr::MethodCall(mc) = e {
            let name = mc.method.to_string();
            return match (name.as_str(), mc.args.len()) {
                ("iter", 0) => match self.source(&mc.receiver) {
                    Some(s) => Some(s),
                    None => {
                        let v = self.fresh("s");
                        let pre = format!("let {} = {}; ", v, self.t(&*mc.receiver));
                        Some(Seq { lo: "0".into(), hi: format!("{}.len()", v), elem: Elem::Leaf(format!("&{}[\u{1}]", v)), pre })
                    }
                },
                ("enumerate", 0) => {
                    let s = self.seq(&mc.receiver)?;
                    let at = if s.lo == "0" { "\u{1}".to_string() } else { format!("(\u{1} - {})", s.lo) };
                    Some(Seq { elem: Elem::Pair(Box::new(Elem::Leaf(at)), Box::new(s.elem)), ..s })
                }
                ("copied", 0) | ("cloned", 0) => {
                    let s = self.seq(&mc.receiver)?;
                    match s.elem {
                        Elem::Leaf(ref l) if l.starts_with('&') => Some(Seq { elem: Elem::Leaf(l[1..].to_string()), ..s }),
                        _ => None,
                    }
                }
                ("skip", 1) => {
                    let s = self.seq(&mc.receiver)?;
                    if s.lo != "0" || !simple(&mc.args[0]) {
                        return None;
                    }
                    Some(Seq { lo: self.t(&mc.args[0]), ..s })
                }
                ("take", 1) => {
                    let s = self.seq(&mc.receiver)?;
                    if s.lo != "0" || !simple(&mc.args[0]) {
                        return None;
                    }
                    let n = self.t(&mc.args[0]);
                    Some(Seq { hi: format!("(if {} < {} {{ {} }} else {{ {} }})", n, s.hi, n, s.hi), ..s })
                }
                ("zip", 1) => {
                    let a = self.seq(&mc.receiver)?;
                    let b = self.seq(&mc.args[0])?;
                    if a.lo != "0" || b.lo != "0" {
                        return None;
                    }
                    let hi = if a.hi == b.hi { a.hi } else { format!("(if {} < {} {{ {} }} else {{ {} }})", a.hi, b.hi, a.hi, b.hi) };
                    Some(Seq { lo: a.lo, hi, elem: Elem::Pair(Box::new(a.elem), Box::new(b.elem)), pre: a.pre + &b.pre })
                }
                _ => self.source(e),
            };
        }
        match e {
            Expr::Reference(_) | Expr::Path(_) | Expr::Field(_) => self.source(e),
            _ => None,
        }
    }
    fn bind(&self, p: &Pat, e: &Elem, ix: &str, o: &mut String) -> Option<()> {
        match (p, e) {
            (Pat::Paren(p), _) => self.bind(&p.pat, e, ix, o),
            (Pat::Wild(_), _) => Some(()),
            (Pat::Tuple(t), Elem::Pair(a, b)) if t.elems.len() == 2 => {
                self.bind(&t.elems[0], a, ix, o)?;
                self.bind(&t.elems[1], b, ix, o)
            }
            (Pat::Ident(i), Elem::Leaf(l)) if i.by_ref.is_none() && i.subpat.is_none() => {
                let l = l.replace('\u{1}', ix);
                if l != i.ident.to_string() || i.mutability.is_some() {
                    o.push_str(&format!("let {} = {}; ", self.t(i), l));
                }
                Some(())
            }
            (Pat::Reference(r), Elem::Leaf(l)) if l.starts_with('&') => self.bind(&r.pat, &Elem::Leaf(l[1..].to_string()), ix, o),
            _ => None,
        }
    }
    fn index_name(p: &Pat, e: &Elem) -> Option<String> {
        match (p, e) {
            (Pat::Paren(p), _) => Self::index_name(&p.pat, e),
            (Pat::Tuple(t), Elem::Pair(a, b)) if t.elems.len() == 2 => Self::index_name(&t.elems[0], a).or_else(|| Self::index_name(&t.elems[1], b)),
            (Pat::Ident(i), Elem::Leaf(l)) if l == "\u{1}" && i.mutability.is_none() => Some(i.ident.to_string()),
            _ => None,
        }
    }
    /// The body with `continue` turned into branches; None if it has none, or
    /// some that do not fit.
    fn flat(&self, stmts: &[Stmt], depth: usize) -> Option<Option<String>> {
        let cont = |b: &Block| -> Option<String> {
            match b.stmts.split_last() {
                Some((Stmt::Expr(Expr::Continue(c), _), rest)) if c.label.is_none() => Some(rest.iter().map(|s| self.t(s) + " ").collect()),
                _ => None,
            }
        };
        let is_cont = |e: &Expr| match unparen(e) {
            Expr::Continue(c) => c.label.is_none(),
            Expr::Block(b) => cont(&b.block).map_or(false, |s| s.is_empty()),
            _ => false,
        };
        let mut o = String::new();
        for (k, s) in stmts.iter().enumerate() {
            if !mentions(s.to_token_stream(), "continue") {
                o.push_str(&self.t(s));
                o.push(' ');
                continue;
            }
            let rest = |me: &Self| -> Option<String> {
                match me.flat(&stmts[k + 1..], depth + 1) {
                    Some(Some(r)) => Some(r),
                    Some(None) => Some(stmts[k + 1..].iter().map(|s| me.t(s) + " ").collect()),
                    None => None,
                }
            };
            match s {
                Stmt::Expr(Expr::Continue(c), _) if c.label.is_none() && k + 1 == stmts.len() => return Some(Some(o)),
                Stmt::Expr(Expr::If(i), _) if i.else_branch.is_none() => {
                    let pre = cont(&i.then_branch)?;
                    if pre.contains("continue") {
                        return None;
                    }
                    let cond = self.t(&*i.cond);
                    let r = rest(self)?;
                    if pre.trim().is_empty() && !matches!(&*i.cond, Expr::Let(_)) && !cond.contains("let ") {
                        o.push_str(&format!("if !({}) {{ {} }}", cond, r));
                    } else {
                        o.push_str(&format!("if {} {{ {} }} else {{ {} }}", cond, pre, r));
                    }
                    return Some(Some(o));
                }
                Stmt::Local(l) => {
                    let init = l.init.as_ref()?;
                    if let Some((_, d)) = &init.diverge {
                        if !is_cont(d) {
                            return None;
                        }
                        let r = rest(self)?;
                        o.push_str(&format!("if let {} = {} {{ {} }}", self.t(&l.pat), self.t(&*init.expr), r));
                        return Some(Some(o));
                    }
                    if let Expr::Match(m) = unparen(&init.expr) {
                        let live: Vec<&Arm> = m.arms.iter().filter(|a| !is_cont(&a.body)).collect();
                        if live.len() != 1 || live[0].guard.is_some() || live[0].body.to_token_stream().to_string().contains("continue") {
                            return None;
                        }
                        let r = rest(self)?;
                        o.push_str(&format!("match {} {{ ", self.t(&*m.expr)));
                        for a in &m.arms {
                            if is_cont(&a.body) {
                                let g = a.guard.as_ref().map_or(String::new(), |g| format!(" if {}", self.t(&*g.1)));
                                o.push_str(&format!("{}{} => {{}} ", self.t(&a.pat), g));
                            } else {
                                let same = squash(&self.t(&*a.body)) == squash(&self.t(&l.pat));
                                let b = if same { String::new() } else { format!("let {} = {}; ", self.t(&l.pat), self.t(&*a.body)) };
                                o.push_str(&format!("{} => {{ {}{} }} ", self.t(&a.pat), b, r));
                            }
                        }
                        o.push('}');
                        return Some(Some(o));
                    }
                    return None;
                }
                _ => {
                    // a `continue` of an inner loop
                    match s {
                        Stmt::Expr(Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_), _) => {
                            o.push_str(&self.t(s));
                            o.push(' ');
                            continue;
                        }
                        _ => return None,
                    }
                }
            }
        }
        Some(None)
    }
}

impl<'l, 'a> Visit<'a> for Loops<'l> {
    fn visit_expr_for_loop(&mut self, l: &'a ExprForLoop) {
        if self.out.is_some() {
            return;
        }
        visit::visit_expr_for_loop(self, l);
        if self.out.is_some() || l.label.is_some() {
            return;
        }
        // continue
        if mentions(l.body.to_token_stream(), "continue") {
            if let Some(Some(b)) = self.flat(&l.body.stmts, 0) {
                let r = l.body.span().byte_range();
                self.out = Some((r, format!("{{ {} }}", b), "`continue` in a for loop".into()));
                return;
            }
        }
        let h = norm(&format!("for {} in {}", l.pat.to_token_stream(), l.expr.to_token_stream()));
        if self.known.is_empty() || self.known.contains(&h) {
            return;
        }
        if let Some(s) = self.seq(&l.expr) {
            let ix = match Self::index_name(&l.pat, &s.elem) {
                Some(i) => i,
                None if !self.used.contains("i") => "i".to_string(),
                // an `i` that is not seen from inside the loop may be shadowed
                None if !mentions(l.body.to_token_stream(), "i") && !mentions(l.expr.to_token_stream(), "i") => "i".to_string(),
                None => self.fresh("i"),
            };
            let mut b = String::new();
            if self.bind(&l.pat, &s.elem, &ix, &mut b).is_none() {
                return;
            }
            let body = self.t(&l.body);
            let lp = format!("for {} in {}..{} {{ {}{}", ix, s.lo, s.hi, b, &body[1..]);
            let t = if s.pre.is_empty() { lp } else { format!("{{ {}{} }}", s.pre, lp) };
            self.out = Some((l.span().byte_range(), t, "loop over elements to a loop over indices".into()));
        }
    }
    fn visit_item(&mut self, _: &'a Item) {}
}

