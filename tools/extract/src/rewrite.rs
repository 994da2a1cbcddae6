//! Semantics-preserving rewrites into the dialect Verus accepts.
use crate::util::*;
use std::collections::HashSet;
use syn::spanned::Spanned;
use syn::visit::Visit;
use syn::*;

pub struct Rw<'s> {
    pub src: &'s str,
    pub edits: Edits,
    pub ext_crates: &'s HashSet<String>,
    pub counter: usize,
    pub log: Vec<String>,
}

fn tx<'s>(src: &'s str, sp: proc_macro2::Span) -> &'s str {
    &src[sp.byte_range()]
}

/// A pattern that is a path to an associated constant (SCREAMING_CASE last
/// segment after a type), or an or-pattern of such.
fn assoc_const_pat<'a>(p: &'a Pat, out: &mut Vec<&'a Path>) -> bool {
    match p {
        Pat::Path(pp) if pp.path.segments.len() >= 2 => {
            let l = pp.path.segments.last().unwrap().ident.to_string();
            if l.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_') && l.len() > 1 {
                out.push(&pp.path);
                true
            } else {
                false
            }
        }
        Pat::Or(o) => o.cases.iter().all(|c| assoc_const_pat(c, out)),
        Pat::Paren(p) => assoc_const_pat(&p.pat, out),
        _ => false,
    }
}

fn closure1(e: &Expr) -> Option<&ExprClosure> {
    match e {
        Expr::Closure(c) => Some(c),
        Expr::Paren(p) => closure1(&p.expr),
        _ => None,
    }
}

struct BreakVal<'s> {
    src: &'s str,
    depth: usize,
    var: String,
    edits: Edits,
    found: bool,
}
impl<'s, 'a> Visit<'a> for BreakVal<'s> {
    fn visit_expr_loop(&mut self, i: &'a ExprLoop) {
        self.depth += 1;
        visit::visit_expr_loop(self, i);
        self.depth -= 1;
    }
    fn visit_expr_while(&mut self, i: &'a ExprWhile) {
        self.depth += 1;
        visit::visit_expr_while(self, i);
        self.depth -= 1;
    }
    fn visit_expr_for_loop(&mut self, i: &'a ExprForLoop) {
        self.depth += 1;
        visit::visit_expr_for_loop(self, i);
        self.depth -= 1;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_expr_break(&mut self, i: &'a ExprBreak) {
        if self.depth == 0 && i.label.is_none() {
            if let Some(e) = &i.expr {
                self.found = true;
                self.edits.replace(i.span(), format!("{{ {} = {}; break; }}", self.var, tx(self.src, e.span())));
            }
        }
    }
}

impl<'s> Rw<'s> {
    fn t(&self, sp: proc_macro2::Span) -> &'s str {
        tx(self.src, sp)
    }
    fn rename_wild(&mut self, p: &Pat) {
        match p {
            Pat::Wild(w) => {
                self.counter += 1;
                self.edits.replace(w.span(), format!("_p{}", self.counter));
            }
            Pat::Type(t) => self.rename_wild(&t.pat),
            _ => (),
        }
    }
    fn body_text(&self, c: &ExprClosure) -> String {
        self.t(c.body.span()).to_string()
    }
}

struct SelfRen<'e> {
    edits: &'e mut Edits,
}
fn ren_tokens(ts: proc_macro2::TokenStream, edits: &mut Edits) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Ident(i) if i == "self" => edits.replace(i.span(), "self__"),
            proc_macro2::TokenTree::Group(g) => ren_tokens(g.stream(), edits),
            _ => (),
        }
    }
}
impl<'e, 'a> Visit<'a> for SelfRen<'e> {
    fn visit_path(&mut self, p: &'a Path) {
        if p.is_ident("self") {
            self.edits.replace(p.span(), "self__");
        }
        visit::visit_path(self, p);
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        ren_tokens(m.tokens.clone(), self.edits);
    }
}

impl<'s, 'a> Visit<'a> for Rw<'s> {
    fn visit_impl_item_fn(&mut self, f: &'a ImplItemFn) {
        if let Some(FnArg::Receiver(r)) = f.sig.inputs.first() {
            if r.reference.is_none() && r.mutability.is_some() && r.colon_token.is_none() {
                self.edits.replace(r.span(), "self");
                self.edits.insert_p(start(f.block.span()) + 1, -30, " let mut self__ = self; ");
                SelfRen { edits: &mut self.edits }.visit_block(&f.block);
                self.log.push("mut self parameter".into());
                return;
            }
        }
        visit::visit_impl_item_fn(self, f);
    }
    fn visit_expr_repeat(&mut self, r: &'a ExprRepeat) {
        let l = self.t(r.len.span()).trim().to_string();
        if l == "1" {
            self.edits.replace(r.span(), format!("[{}]", self.t(r.expr.span())));
            return;
        }
        if let Expr::Path(p) = &*r.expr {
            let n = p.path.segments.last().unwrap().ident.to_string();
            if n.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_') {
                self.edits.replace(r.span(), format!("crate::vx::array_fill::<_, {{ {} }}>({})", l, self.t(r.expr.span())));
                self.log.push("array repeat of a constant".into());
                return;
            }
        }
        visit::visit_expr_repeat(self, r);
    }
    fn visit_expr_path(&mut self, p: &'a ExprPath) {
        let s = self.t(p.span()).replace(' ', "");
        if s == "u16::from_be_bytes" || s == "u32::from_be_bytes" {
            self.edits.replace(p.span(), format!("crate::vx::{}", s.replace("::", "_")));
            self.log.push("from_be_bytes".into());
            return;
        }
        if s == "u16::from_le_bytes" || s == "u32::from_le_bytes" {
            self.edits.replace(p.span(), format!("crate::vx::{}", s.replace("::", "_")));
            self.log.push("from_le_bytes".into());
            return;
        }
        visit::visit_expr_path(self, p);
    }
    fn visit_signature(&mut self, s: &'a Signature) {
        let mut n = 0;
        for i in &s.inputs {
            if let FnArg::Typed(t) = i {
                if let Pat::Wild(w) = &*t.pat {
                    self.edits.replace(w.span(), format!("_p{}", n));
                }
            }
            n += 1;
        }
        // `x: impl T` is the anonymous form of a generic parameter
        let mut gs: Vec<String> = vec![];
        for i in &s.inputs {
            if let FnArg::Typed(t) = i {
                if let Type::ImplTrait(it) = &*t.ty {
                    let g = format!("Gen{}__", gs.len());
                    gs.push(format!("{}: {}", g, self.t(it.bounds.span())));
                    self.edits.replace(it.span(), g);
                }
            }
        }
        if !gs.is_empty() {
            self.log.push("impl Trait argument".into());
            match (&s.generics.gt_token, s.generics.params.is_empty()) {
                (Some(gt), false) => self.edits.insert(start(gt.span()), format!(", {}", gs.join(", "))),
                _ => self.edits.insert(end(s.ident.span()), format!("<{}>", gs.join(", "))),
            }
            return;
        }
        visit::visit_signature(self, s);
    }
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
        for p in &c.inputs {
            self.rename_wild(p);
        }
        visit::visit_expr_closure(self, c);
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        let n = m.path.segments.last().unwrap().ident.to_string();
        let neg = n == "assert_ne" || n == "debug_assert_ne";
        if n == "assert_eq" || n == "debug_assert_eq" || neg {
            let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
            if let Ok(a) = args {
                if a.len() >= 2 {
                    let op = if neg { "!=" } else { "==" };
                    let s = format!("assert!(({}) {} ({}))", self.t(a[0].span()), op, self.t(a[1].span()));
                    self.edits.replace(m.span(), s);
                }
            }
        } else if n == "debug_assert" || n == "assert" {
            let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
            if let Ok(a) = args {
                if n == "debug_assert" || a.len() > 1 {
                    let s = format!("assert!({})", self.t(a[0].span()));
                    self.edits.replace(m.span(), s);
                }
            }
        } else if (n == "unreachable" || n == "unimplemented" || n == "todo" || n == "panic") && !m.tokens.is_empty() {
            self.edits.replace(m.span(), format!("{}!()", if n == "todo" { "unimplemented" } else { &n }));
        }
    }
    fn visit_arm(&mut self, a: &'a Arm) {
        let mut v = vec![];
        if assoc_const_pat(&a.pat, &mut v) {
            let cond: Vec<String> = v.iter().map(|p| format!("c__ == {}", self.t(p.span()))).collect();
            let cond = cond.join(" || ");
            let (e, cond) = match &a.guard {
                Some((_, g)) => (end(g.span()), format!("({}) && ({})", cond, self.t(g.span()))),
                None => (end(a.pat.span()), cond),
            };
            self.edits.replace_range(start(a.pat.span()), e, format!("c__ if {}", cond));
            self.log.push("assoc-const pattern".into());
        }
        visit::visit_arm(self, a);
    }
    fn visit_local(&mut self, l: &'a Local) {
        if let (Some(init), Pat::Ident(id)) = (&l.init, &l.pat) {
            if let Expr::Loop(lp) = &*init.expr {
                let mut b = BreakVal { src: self.src, depth: 0, var: id.ident.to_string(), edits: Edits::default(), found: false };
                b.visit_block(&lp.body);
                if b.found {
                    // rebuild the loop text
                    let base = start(lp.span());
                    let mut e2 = Edits::default();
                    for e in b.edits.0 {
                        e2.0.push(Edit { start: e.start - base, end: e.end - base, text: e.text, prio: 0 });
                    }
                    let body = e2.apply(self.t(lp.span()));
                    self.edits.replace(l.span(), format!("let {}; {}", self.t(l.pat.span()), body));
                    self.log.push("loop break value".into());
                    return;
                }
            }
        }
        visit::visit_local(self, l);
    }
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let (Expr::Path(p), 2) = (&*c.func, c.args.len()) {
            let s = self.t(p.span()).replace(' ', "");
            // what the functions of core::cmp are defined as
            if ["core::cmp::min", "core::cmp::max", "cmp::min", "cmp::max", "std::cmp::min", "std::cmp::max"].contains(&s.as_str()) {
                let f = s.rsplit("::").next().unwrap();
                let t = format!("({}).{}({})", self.t(c.args[0].span()), f, self.t(c.args[1].span()));
                self.edits.replace(c.span(), t);
                self.log.push("cmp::min, max".into());
                return;
            }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        let name = m.method.to_string();
        let recv = self.t(m.receiver.span());
        let r: Option<String> = match (name.as_str(), m.args.len()) {
            ("to_le_bytes", 0) => Some(format!("crate::vx::LeBytes::le_bytes({})", recv)),
            ("parse", 0) if m.turbofish.is_none() => Some(format!("core::str::FromStr::from_str({})", recv)),
            ("to_be_bytes", 0) => Some(format!("crate::vx::BeBytes::be_bytes({})", recv)),
            ("map_err", 1) => closure1(&m.args[0]).filter(|c| c.inputs.len() == 1).map(|c| {
                format!(
                    "(match {} {{ Ok(v__) => Ok(v__), Err({}) => Err({}) }})",
                    recv,
                    pat_name(self.t(c.inputs[0].span())),
                    self.body_text(c)
                )
            }),
            ("ok_or_else", 1) => closure1(&m.args[0])
                .filter(|c| c.inputs.is_empty())
                .map(|c| format!("(match {} {{ Some(v__) => Ok(v__), None => Err({}) }})", recv, self.body_text(c))),
            ("unwrap_or_else", 1) => closure1(&m.args[0]).and_then(|c| match c.inputs.len() {
                0 => Some(format!("(match {} {{ Some(v__) => v__, None => {} }})", recv, self.body_text(c))),
                1 => Some(format!(
                    "(match {} {{ Ok(v__) => v__, Err({}) => {} }})",
                    recv,
                    pat_name(self.t(c.inputs[0].span())),
                    self.body_text(c)
                )),
                _ => None,
            }),
            ("is_some_and", 1) | ("is_ok_and", 1) => closure1(&m.args[0]).filter(|c| c.inputs.len() == 1).map(|c| {
                format!(
                    "(match {} {{ {}({}) => {}, _ => false }})",
                    recv,
                    if name == "is_ok_and" { "Ok" } else { "Some" },
                    pat_name(self.t(c.inputs[0].span())),
                    self.body_text(c)
                )
            }),
            ("then", 1) => closure1(&m.args[0])
                .filter(|c| c.inputs.is_empty())
                .map(|c| format!("(if {} {{ Some({}) }} else {{ None }})", recv, self.body_text(c))),
            ("map", 1) => closure1(&m.args[0]).filter(|c| c.inputs.len() == 1).and_then(|c| {
                if recv.contains(".iter()") || recv.contains("..") {
                    None
                } else if recv.trim_end().ends_with("as_ref()") {
                    Some(format!(
                        "(match {} {{ Some({}) => Some({}), None => None }})",
                        recv,
                        pat_name(self.t(c.inputs[0].span())),
                        self.body_text(c)
                    ))
                } else {
                    Some(format!(
                        "(match {} {{ Ok({}) => Ok({}), Err(e__) => Err(e__) }})",
                        recv,
                        pat_name(self.t(c.inputs[0].span())),
                        self.body_text(c)
                    ))
                }
            }),
            ("fold", 2) => closure1(&m.args[1]).filter(|c| c.inputs.len() == 2).map(|c| {
                format!(
                    "{{ let mut {acc} = {init}; for {x} in {recv} {{ {acc} = {body}; }} {acc} }}",
                    acc = self.t(c.inputs[0].span()),
                    x = self.t(c.inputs[1].span()),
                    init = self.t(m.args[0].span()),
                    recv = recv,
                    body = self.body_text(c)
                )
            }),
            ("position", 1) | ("rposition", 1) => closure1(&m.args[0]).filter(|c| c.inputs.len() == 1).and_then(|c| {
                if name != "position" {
                    return None;
                }
                let r = recv.trim_end();
                let s = r.strip_suffix(".iter()")?;
                Some(format!(
                    "{{ let mut pos__: Option<usize> = None; let mut i__: usize = 0; while i__ < {s}.len() {{ let {x} = &{s}[i__]; if {body} {{ pos__ = Some(i__); break; }} i__ += 1; }} pos__ }}",
                    s = s,
                    x = self.t(c.inputs[0].span()),
                    body = self.body_text(c)
                ))
            }),
            _ => None,
        };
        if let Some(t) = r {
            self.edits.replace(m.span(), t);
            self.log.push(format!("closure call .{}", name));
            return;
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_path(&mut self, p: &'a Path) {
        if p.leading_colon.is_none() && p.segments.len() >= 2 {
            let f = &p.segments[0].ident;
            if self.ext_crates.contains(&f.to_string()) {
                self.edits.insert(start(f.span()), "crate::ext::");
            }
        }
        visit::visit_path(self, p);
    }
    fn visit_item_const(&mut self, c: &'a ItemConst) {
        // `const X: &[&str] = &["a", "b"]`: Verus has no array-to-slice
        // coercion in constants; the value is stated as an assumed ensures
        // generated from the literal itself.
        if let Expr::Reference(r) = &*c.expr {
            if let Expr::Array(a) = &*r.expr {
                if self.t(c.ty.span()).contains('[') {
                    let n = c.ident.to_string();
                    let mut ens = format!("{}@.len() == {}", n, a.elems.len());
                    for (i, e) in a.elems.iter().enumerate() {
                        if let Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) = e {
                            ens.push_str(&format!(", {}@[{}] == {}", n, i, self.t(e.span())));
                        }
                    }
                    let strs = a.elems.iter().all(|e| matches!(e, Expr::Lit(ExprLit { lit: Lit::Str(_), .. })));
                    let mut sp = String::new();
                    if strs {
                        ens.push_str(&format!(", {}@ == {}_spec()", n, n));
                        let l: Vec<String> = a.elems.iter().map(|e| self.t(e.span()).to_string()).collect();
                        sp = format!("pub open spec fn {}_spec() -> Seq<&'static str> {{ seq![{}] }}\n", n, l.join(", "));
                    }
                    let s = sp + &format!(
                        "#[verifier::external_body]\npub exec const {}: {}\n    ensures {}\n{{ {} }}\n",
                        n,
                        self.t(c.ty.span()),
                        ens,
                        self.t(c.expr.span())
                    );
                    self.edits.replace(c.span(), placeholder(s));
                    self.log.push("slice constant".into());
                    return;
                }
            }
        }
        visit::visit_item_const(self, c);
    }
    fn visit_item_use(&mut self, u: &'a ItemUse) {
        if let UseTree::Path(p) = &u.tree {
            if u.leading_colon.is_none() && self.ext_crates.contains(&p.ident.to_string()) {
                self.edits.insert(start(p.ident.span()), "crate::ext::");
            }
        }
    }
}

fn pat_name(p: &str) -> String {
    if p.trim() == "_" {
        "_e".into()
    } else {
        p.to_string()
    }
}
