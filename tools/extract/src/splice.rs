//! Splice contracts into the rewritten text and emit the crate as one file.
use crate::contracts::*;
use crate::derive::fn_start;
use crate::load::Module;
use crate::util::*;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit::Visit;
use syn::*;

#[derive(Clone, Debug, Default)]
pub struct FnInfo {
    pub key: String,
    pub file: String,
    pub params: Vec<String>,
    pub locals: Vec<String>,
    pub loops: Vec<String>,
    pub has_body: bool,
    pub contracted: bool,
    pub external: bool,
    pub requires: bool,
    pub trait_fn: bool,
    pub body_hash: String,
    pub skel: String,
    pub calls: BTreeSet<String>,
}

#[derive(Default, Debug, Clone)]
pub struct Base {
    pub params: Vec<String>,
    pub locals: Vec<String>,
    pub loops: Vec<String>,
}

pub struct Splicer<'c> {
    pub c: &'c Contracts,
    pub external: &'c BTreeSet<String>,
    pub base: &'c BTreeMap<String, Base>,
    pub vacuity: bool,
    /// functions that get the general facts of `vx::hint` (a retry)
    pub hint: &'c BTreeSet<String>,
    pub info: Vec<FnInfo>,
    pub used: BTreeSet<String>,
    pub lost: Vec<(String, String)>,
}

/// Baseline lines: key \t params(,) \t locals(,) \t loops(\x1f)
pub fn parse_baseline(s: &str) -> BTreeMap<String, Base> {
    let sp = |x: &str, c: char| -> Vec<String> { x.split(c).filter(|s| !s.is_empty()).map(|s| s.to_string()).collect() };
    let mut m = BTreeMap::new();
    for l in s.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        if f.len() >= 4 {
            m.insert(f[0].to_string(), Base { params: sp(f[1], ','), locals: sp(f[2], ','), loops: sp(f[3], '\u{1}') });
        }
    }
    m
}

fn norm(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}
fn squash(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

struct BodyScan<'s> {
    src: &'s str,
    locals: Vec<String>,
    // (kind/header, brace start, brace end, for-expr start)
    loops: Vec<(String, usize, usize, Option<usize>)>,
    stmts: Vec<(usize, usize, String)>,
    calls: BTreeSet<String>,
    // zero-argument `.into()`: receiver start, receiver end, call end
    intos: Vec<(usize, usize, usize)>,
    // statements, branches and calls in order, without the expressions in them
    skel: String,
}
impl<'s, 'a> Visit<'a> for BodyScan<'s> {
    fn visit_pat_ident(&mut self, i: &'a PatIdent) {
        self.locals.push(i.ident.to_string());
        visit::visit_pat_ident(self, i);
    }
    fn visit_expr_for_loop(&mut self, i: &'a ExprForLoop) {
        let h = format!("for {} in {}", i.pat.to_token_stream(), i.expr.to_token_stream());
        self.loops.push((norm(&h), start(i.body.span()), end(i.body.span()), Some(start(i.expr.span()))));
        visit::visit_expr_for_loop(self, i);
    }
    fn visit_expr_while(&mut self, i: &'a ExprWhile) {
        let h = format!("while {}", i.cond.to_token_stream());
        self.loops.push((norm(&h), start(i.body.span()), end(i.body.span()), None));
        visit::visit_expr_while(self, i);
    }
    fn visit_expr_loop(&mut self, i: &'a ExprLoop) {
        self.loops.push(("loop".into(), start(i.body.span()), end(i.body.span()), None));
        visit::visit_expr_loop(self, i);
    }
    fn visit_block(&mut self, b: &'a Block) {
        self.skel.push('{');
        visit::visit_block(self, b);
        self.skel.push('}');
    }
    fn visit_expr_if(&mut self, i: &'a ExprIf) {
        self.skel.push('I');
        visit::visit_expr_if(self, i);
    }
    fn visit_expr_match(&mut self, m: &'a ExprMatch) {
        self.skel.push_str(&format!("M{}", m.arms.len()));
        visit::visit_expr_match(self, m);
    }
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        self.skel.push('R');
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, t: &'a ExprTry) {
        visit::visit_expr_try(self, t);
        self.skel.push('?');
    }
    fn visit_stmt(&mut self, s: &'a Stmt) {
        self.skel.push(if matches!(s, Stmt::Local(_)) { 'L' } else { 'E' });
        self.stmts.push((start(s.span()), end(s.span()), squash(&self.src[s.span().byte_range()])));
        visit::visit_stmt(self, s);
    }
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func {
            let n = p.path.segments.last().unwrap().ident.to_string();
            self.skel.push_str(&format!(".{} ", n));
            self.calls.insert(n);
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'a ExprMethodCall) {
        self.calls.insert(c.method.to_string());
        self.skel.push_str(&format!(".{} ", c.method));
        if c.method == "into" && c.args.is_empty() {
            self.intos.push((start(c.receiver.span()), end(c.receiver.span()), end(c.span())));
        }
        visit::visit_expr_method_call(self, c);
    }
}

fn pure(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.segments.last().unwrap().ident.to_string().chars().next().unwrap().is_uppercase())
            && c.args.iter().all(pure),
        Expr::Struct(s) => s.rest.is_none() && s.fields.iter().all(|f| pure(&f.expr)),
        Expr::Paren(p) => pure(&p.expr),
        Expr::Tuple(t) => t.elems.iter().all(pure),
        Expr::Field(f) => pure(&f.base),
        Expr::Match(m) => pure(&m.expr) && m.arms.iter().all(|a| a.guard.is_none() && pure(&a.body)),
        Expr::Block(b) => b.block.stmts.len() == 1 && matches!(&b.block.stmts[0], Stmt::Expr(e, None) if pure(e)),
        _ => false,
    }
}

fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => {
            let s = p.path.segments.last().unwrap();
            s.ident.to_string()
        }
        _ => squash(&t.to_token_stream().to_string()),
    }
}

/// Name and right-hand side of `let x = e`.
fn binding(s: &str) -> Option<(String, String)> {
    let s = s.trim_start().strip_prefix("let ")?.trim_start();
    let s = s.strip_prefix("mut ").unwrap_or(s).trim_start();
    let n: String = s.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
    let (l, e) = s.split_once('=')?;
    if n.is_empty() || l.contains('(') || l.contains('{') || e.starts_with('=') || e.trim().len() < 4 {
        return None;
    }
    Some((n, e.to_string()))
}
/// What is lost is only a step of a proof, which may succeed without it,
/// unless it states a part of a property itself.
fn step(t: &str) -> &'static str {
    if t.contains("//@") {
        ""
    } else {
        "proof step: "
    }
}

impl<'c> Splicer<'c> {
    fn key(&self, m: &Module, rest: &str) -> String {
        let mut p = m.path.join("::");
        if !p.is_empty() {
            p.push_str("::");
        }
        p.push_str(rest);
        p
    }

    fn do_fn(&mut self, m: &Module, text: &str, ed: &mut Edits, key: String, sig: &Signature, block: Option<&Block>, in_trait_impl: bool, in_trait: bool, attr_start: usize) {
        let mut scan = BodyScan { src: text, locals: vec![], loops: vec![], stmts: vec![], calls: BTreeSet::new(), intos: vec![], skel: String::new() };
        if let Some(b) = block {
            scan.visit_block(b);
        }
        let params: Vec<String> = sig
            .inputs
            .iter()
            .map(|a| match a {
                FnArg::Receiver(_) => "self".to_string(),
                FnArg::Typed(t) => squash(&t.pat.to_token_stream().to_string()).trim_start_matches("mut").to_string(),
            })
            .collect();
        let mut info = FnInfo {
            key: key.clone(),
            file: m.file.clone(),
            params: params.clone(),
            locals: scan.locals.clone(),
            loops: scan.loops.iter().map(|l| l.0.clone()).collect(),
            has_body: block.is_some(),
            trait_fn: in_trait || in_trait_impl,
            calls: scan.calls.clone(),
            ..Default::default()
        };
        let ext = self.external.contains(&key);
        info.external = ext;
        if let Some(b) = block {
            ed.insert_p(start(b.span()) + 1, -20, format!(" /*#fn {}*/ ", key));
            ed.insert_p(end(b.span()) - 1, 20, format!(" /*#end {}*/ ", key));
            info.skel = format!("{:x}", fnv(&scan.skel));
            info.body_hash = format!("{:x}", fnv(&norm(&text[b.span().byte_range()])));
        }
        // Verus only sees the definition of a trait's spec function in an
        // inherited contract when the body mentions it
        if let (Some(b), true, false) = (block, in_trait_impl, ext) {
            if let Some((l, t)) = key.split_once('@') {
                let ik = format!("{}@{}", l.rsplit_once("::").map(|x| x.0).unwrap_or(""), t);
                if let Some(txt) = self.c.impls.get(&ik) {
                    let recv = sig.inputs.iter().any(|a| matches!(a, FnArg::Receiver(r) if r.mutability.is_none() || r.reference.is_some()));
                    let mut u = String::new();
                    for d in txt.split("spec fn ").skip(1) {
                        if let Some((n, rest)) = d.split_once('(') {
                            let args: Vec<&str> = rest.split_once(')').map_or("", |x| x.0).split(',').map(str::trim).filter(|a| !a.is_empty()).collect();
                            let own = args.first() == Some(&"&self");
                            let any = vec!["arbitrary()"; args.len() - own as usize].join(", ");
                            if !own || recv {
                                u.push_str(&format!(" let _ = {}{}({});", if own { "self." } else { "Self::" }, n.trim(), any));
                            }
                        }
                    }
                    if !u.is_empty() {
                        ed.insert_p(start(b.span()) + 1, -15, format!(" proof {{{} }} ", u));
                    }
                }
            }
        }
        if let Some(c) = self.c.fns.get(&key) {
            self.used.insert(format!("fn {}", key));
            info.contracted = true;
            // renames: parameters positionally; locals positionally against the baseline
            let mut map: BTreeMap<String, String> = BTreeMap::new();
            let base = self.base.get(&key);
            let bl = c.locals.clone().or_else(|| base.map(|b| b.locals.clone()));
            if let Some(bl) = bl {
                if bl.len() == scan.locals.len() {
                    let mut clash = false;
                    for (a, b) in bl.iter().zip(&scan.locals) {
                        if a != b {
                            if let Some(o) = map.get(a) {
                                if o != b {
                                    clash = true;
                                }
                            }
                            map.insert(a.clone(), b.clone());
                        }
                    }
                    // an old name that is still in use elsewhere makes the map ambiguous
                    for a in bl.iter().zip(&scan.locals).filter(|(a, b)| a == b).map(|x| x.0) {
                        if map.contains_key(a) {
                            clash = true;
                        }
                    }
                    if clash {
                        map.clear();
                    }
                }
            }
            let bp = c.params.clone().or_else(|| base.map(|b| b.params.clone()));
            if let Some(bp) = bp {
                if bp.len() == params.len() {
                    for (a, b) in bp.iter().zip(&params) {
                        if a != b {
                            map.insert(a.clone(), b.clone());
                        }
                    }
                } else {
                    self.lost.push((key.clone(), "parameter list changed".into()));
                }
            }
            // a `let` under another name is found by what it is bound to
            let mut moved: BTreeMap<String, (usize, String, String)> = BTreeMap::new();
            for (pat, _) in c.before.iter().chain(&c.after) {
                let p = pat.strip_prefix('#').and_then(|x| x.split_once(' ')).map_or(pat.as_str(), |x| x.1);
                let q = squash(&rename(p, &map));
                if scan.stmts.iter().any(|s| s.2.starts_with(&q)) {
                    continue;
                }
                let (old, rhs) = match binding(p) {
                    Some(x) => x,
                    None => continue,
                };
                let want = squash(&rename(&rhs, &map));
                let hits: Vec<(usize, String)> = scan
                    .stmts
                    .iter()
                    .enumerate()
                    .filter_map(|(k, s)| binding(&text[s.0..s.1]).map(|x| (k, x)))
                    .filter(|(_, x)| squash(&x.1).starts_with(&want))
                    .map(|(k, x)| (k, x.0))
                    .collect();
                if let [(k, new)] = &hits[..] {
                    moved.insert(pat.clone(), (*k, old.clone(), new.clone()));
                    if !scan.locals.contains(&old) && !map.contains_key(&old) {
                        map.insert(old, new.clone());
                    }
                }
            }
            let r = |s: &str| rename(s, &map);
            if let (Some(t), false) = (&c.into, ext) {
                // a wrong target does not compile
                for (a, b, e) in &scan.intos {
                    ed.insert_p(*a, 3, format!("{}::from(", t));
                    ed.replace_range(*b, *e, ")");
                }
            }
            info.requires = c.spec.contains("requires");
            // return binder
            if let ReturnType::Type(_, t) = &sig.output {
                let n = c.ret.clone().unwrap_or("r".into());
                if !c.spec.trim().is_empty() {
                    ed.insert_p(start(t.span()), -1, format!("({}: ", n));
                    ed.insert_p(end(t.span()), -1, ")");
                }
            }
            let spec_at = match block {
                Some(b) => start(b.span()),
                None => end(sig.span()),
            };
            if !c.spec.trim().is_empty() {
                ed.insert_p(spec_at, 0, format!("\n{}", r(&c.spec)));
            }
            let mut attrs = c.attrs.clone();
            if ext {
                attrs.push("#[verifier::external_body]".into());
            }
            if !attrs.is_empty() {
                ed.insert_p(attr_start, 0, format!("{} ", attrs.join(" ")));
            }
            if let (Some(b), true) = (block, self.external.contains(&key)) {
                // its body is not looked at, and may not even compile here
                if !sig.output.to_token_stream().to_string().contains("impl ") {
                    ed.replace_range(start(b.span()) + 1, end(b.span()) - 1, " unimplemented!() ");
                }
            }
            if let (Some(b), false) = (block, ext) {
                let bs = start(b.span()) + 1;
                if self.vacuity {
                    ed.insert_p(bs, -10, " proof { assert(false); /*#vac*/ } ");
                }
                if self.hint.contains(&key) {
                    ed.insert_p(bs, -5, " proof { crate::vx::hint(); } ");
                    for l in &scan.loops {
                        ed.insert_p(l.1 + 1, -5, " proof { crate::vx::hint(); } ");
                    }
                }
                if !self.vacuity || true {
                    if !c.body.trim().is_empty() {
                        ed.insert_p(bs, 0, proof_text(&r(&c.body)));
                    }
                    for (n, (it, inv)) in &c.loops {
                        match scan.loops.get(*n) {
                            Some(l) => {
                                if let (Some(it), Some(es)) = (it, l.3) {
                                    ed.insert_p(es, 0, format!("{}: ", it));
                                }
                                ed.insert_p(l.1, 0, format!("\n{}", r(inv)));
                            }
                            None => self.lost.push((key.clone(), format!("{}loop {} not found", step(inv), n))),
                        }
                    }
                    for (n, t) in &c.loopbody {
                        if let Some(l) = scan.loops.get(*n) {
                            ed.insert_p(l.1 + 1, 0, proof_text(&r(t)));
                        }
                    }
                    for (n, t) in &c.loopend {
                        if let Some(l) = scan.loops.get(*n) {
                            ed.insert_p(l.2 - 1, 0, proof_text(&r(t)));
                        }
                    }
                    for (list, is_before) in [(&c.before, true), (&c.after, false)] {
                        for (pat, t) in list {
                            let (nth, p) = match pat.strip_prefix('#').and_then(|x| x.split_once(' ')) {
                                Some((n, p)) => (n.parse::<usize>().unwrap_or(0), p),
                                None => (0, pat.as_str()),
                            };
                            let p = squash(&rename(p, &map));
                            match scan.stmts.iter().filter(|s| s.2.starts_with(&p)).nth(nth).or_else(|| moved.get(pat).map(|k| &scan.stmts[k.0])) {
                                Some(s) => {
                                    let at = if is_before { s.0 } else { s.1 };
                                    let mut t = r(t);
                                    if let Some((_, old, new)) = moved.get(pat) {
                                        t = rename(&t, &BTreeMap::from([(old.clone(), new.clone())]));
                                    }
                                    ed.insert_p(at, 0, proof_text(&t));
                                }
                                None => self.lost.push((key.clone(), format!("{}statement anchor `{}` not found", step(t), pat))),
                            }
                        }
                    }
                    if !c.end.trim().is_empty() {
                        let at = match (b.stmts.last(), &sig.output) {
                            (Some(Stmt::Expr(e, None)), ReturnType::Type(..)) => start(e.span()),
                            _ => end(b.span()) - 1,
                        };
                        ed.insert_p(at, 0, proof_text(&r(&c.end)));
                    }
                }
            }
            if let Some(b) = base {
                if b.loops.len() != scan.loops.len() {
                    self.lost.push((key.clone(), "proof step: number of loops changed".into()));
                }
            }
        } else if ext {
            ed.insert_p(attr_start, 0, "#[verifier::external_body] ");
            if let (Some(b), true) = (block, self.external.contains(&key)) {
                if !sig.output.to_token_stream().to_string().contains("impl ") {
                    ed.replace_range(start(b.span()) + 1, end(b.span()) - 1, " unimplemented!() ");
                }
            }
        }
        self.info.push(info);
    }

    pub fn emit(&mut self, m: &Module, o: &mut String) -> std::result::Result<(), String> {
        let name = m.path.last().cloned();
        if let Some(n) = &name {
            o.push_str(&format!("pub mod {} {{\n", n));
        }
        o.push_str(&format!("/*#m {}*/\n", m.path.join("::")));
        o.push_str("use vstd::prelude::*;\n#[allow(unused_imports)] use vstd::std_specs::convert::*;\n");
        o.push_str("verus! {\nbroadcast use crate::vx::group_vx;\n");
        let text = m.text.clone();
        let f = parse_file(&text).map_err(|e| format!("{}: splice: {}", m.file, e))?;
        let mut ed = Edits::default();
        for i in &f.items {
            let nm = match i {
                Item::Trait(t) => Some(t.ident.to_string()),
                Item::Fn(t) => Some(t.sig.ident.to_string()),
                Item::Struct(t) => Some(t.ident.to_string()),
                Item::Enum(t) => Some(t.ident.to_string()),
                Item::Impl(im) => Some(match &im.trait_ {
                    Some((_, p, _)) => {
                        let s = p.segments.last().unwrap();
                        format!("{}@{}{}", ty_name(&im.self_ty), s.ident, squash(&s.arguments.to_token_stream().to_string()))
                    }
                    None => ty_name(&im.self_ty),
                }),
                _ => None,
            };
            if let Some(n) = nm {
                let k = self.key(m, &n);
                if self.c.dropped.contains_key(&k) {
                    self.used.insert(format!("dropped {}", k));
                    ed.replace(i.span(), "");
                    continue;
                }
            }
            match i {
                Item::Fn(x) => {
                    let k = self.key(m, &x.sig.ident.to_string());
                    let at = x.vis_start();
                    self.do_fn(m, &text, &mut ed, k, &x.sig, Some(&x.block), false, false, at);
                }
                Item::Trait(t) => {
                    let tk = self.key(m, &t.ident.to_string());
                    for ti in &t.items {
                        if let TraitItem::Fn(x) = ti {
                            let k = format!("{}::{}", tk, x.sig.ident);
                            let at = start(fn_start(&x.sig));
                            self.do_fn(m, &text, &mut ed, k, &x.sig, x.default.as_ref(), false, true, at);
                        }
                    }
                    if let Some(tt) = self.c.traits.get(&tk) {
                        self.used.insert(format!("trait {}", tk));
                        ed.insert(end(t.brace_token.span.close()) - 1, format!("\n{}", tt));
                    }
                }
                Item::Impl(im) => {
                    let tn = ty_name(&im.self_ty);
                    let (suffix, targ) = match &im.trait_ {
                        Some((_, p, _)) => {
                            let s = p.segments.last().unwrap();
                            let a = squash(&s.arguments.to_token_stream().to_string());
                            (Some(format!("{}{}", s.ident, a)), Some((s.ident.to_string(), a)))
                        }
                        None => (None, None),
                    };
                    let ik = match &suffix {
                        Some(s) => self.key(m, &format!("{}@{}", tn, s)),
                        None => self.key(m, &tn),
                    };
                    if let Some((tn, a)) = &targ {
                        if tn == "PartialEq" && a.is_empty() {
                            let (ig, _, wc) = im.generics.split_for_impl();
                            let igs = ig.to_token_stream();
                            let wcs = wc.to_token_stream();
                            let st = im.self_ty.to_token_stream();
                            let ek = ik.trim_end_matches("@PartialEq").to_string();
                            let e = self.c.eqs.get(&ek);
                            if e.is_some() {
                                self.used.insert(format!("eq {}", ek));
                            }
                            let obeys = e.is_some();
                            let b = e.cloned().unwrap_or("arbitrary()".to_string());
                            ed.insert_p(start(im.span()), 0, format!("impl{igs} vstd::std_specs::cmp::PartialEqSpecImpl for {st} {wcs} {{ open spec fn obeys_eq_spec() -> bool {{ {obeys} }} open spec fn eq_spec(&self, other: &Self) -> bool {{ {b} }} }}\n"));
                        }
                    }
                    if matches!(&targ, Some((n, a)) if n == "AsRef" && !a.is_empty()) {
                        let (ig, _, wc) = im.generics.split_for_impl();
                        let igs = ig.to_token_stream();
                        let wcs = wc.to_token_stream();
                        let st = im.self_ty.to_token_stream();
                        let path = im.trait_.as_ref().unwrap().1.segments.last().unwrap().arguments.clone();
                        let args = path.to_token_stream();
                        let ty = match &path {
                            syn::PathArguments::AngleBracketed(a) => a.args.to_token_stream(),
                            _ => continue,
                        };
                        let (p, b) = match self.c.asrefs.get(&ik) {
                            Some((p, b)) => {
                                self.used.insert(format!("asref {}", ik));
                                (p.clone(), b.clone())
                            }
                            None => ("r".to_string(), "true".to_string()),
                        };
                        ed.insert_p(start(im.span()), 0, format!("impl{igs} crate::vx::AsRefSpecImpl{args} for {st} {wcs} {{ open spec fn as_ref_ok(&self, {p}: &{ty}) -> bool {{ {b} }} }}\n"));
                    }
                    let inherent = self.c.inherent.contains(&ik);
                    if inherent {
                        self.used.insert(format!("inherent {}", ik));
                        let (_, p, f) = im.trait_.as_ref().unwrap();
                        ed.replace_range(start(p.span()), end(f.span()), "");
                        if let (true, Some(ImplItem::Fn(x))) = (p.is_ident("PartialEq"), im.items.first()) {
                            // the trait itself stays available, without a specification
                            let (ig, _, wc) = im.generics.split_for_impl();
                            ed.insert_p(end(im.span()), 9, format!("\nimpl{} PartialEq for {} {} {{ #[verifier::external_body] {} {{ unimplemented!() }} }}\n", ig.to_token_stream(), im.self_ty.to_token_stream(), wc.to_token_stream(), &text[x.sig.span().byte_range()]));
                        }
                    }
                    // Verus only sees the definition of `as_ref_ok` for this type once the
                    // impl is known, so its body is verified as an inherent function with
                    // the definition as postcondition; the trait function stands for it
                    let split = self.c.asrefs.get(&ik).cloned().filter(|_| im.items.len() == 1);
                    if let Some((p, b)) = &split {
                        let (_, path, f) = im.trait_.as_ref().unwrap();
                        let head = format!("impl{} {} for {} {}", im.generics.split_for_impl().0.to_token_stream(), path.to_token_stream(), im.self_ty.to_token_stream(), im.generics.split_for_impl().2.to_token_stream());
                        let fk = format!("{}::as_ref@{}", self.key(m, &tn), suffix.as_ref().unwrap());
                        let want = squash(&format!("ensures{b},"));
                        if p != "r" || self.c.fns.get(&fk).map(|f| squash(&f.spec)) != Some(want) {
                            return Err(format!("{}: contract of as_ref is not its specification", ik));
                        }
                        ed.replace_range(start(path.span()), end(f.span()), "");
                        if let ImplItem::Fn(x) = &im.items[0] {
                            ed.insert_p(start(fn_start(&x.sig)), 1, "pub ");
                            ed.replace(x.sig.ident.span(), "as_ref__");
                            ed.insert_p(end(im.span()), 9, format!("\n{head} {{ #[verifier::external_body] {} {{ unimplemented!() }} }}\n", &text[x.sig.span().byte_range()]));
                        }
                    }
                    let conv = !inherent && matches!(&targ, Some((n, a)) if (n == "From" || n == "TryFrom") && !a.is_empty());
                    for ii in &im.items {
                        if let ImplItem::Fn(x) = ii {
                            let k = match &targ {
                                Some((_, a)) if !a.is_empty() => format!("{}::{}@{}", self.key(m, &tn), x.sig.ident, suffix.as_ref().unwrap()),
                                Some((n, _)) => format!("{}::{}@{}", self.key(m, &tn), x.sig.ident, n),
                                None => format!("{}::{}", self.key(m, &tn), x.sig.ident),
                            };
                            let at = match &x.vis {
                                Visibility::Inherited => start(fn_start(&x.sig)),
                                v => start(v.span()),
                            };
                            if inherent {
                                ed.insert_p(at, 1, "pub ");
                            }
                            // specifications that come with derived code
                            let mut given = false;
                            for at in &x.attrs {
                                if let Meta::NameValue(MetaNameValue { value: Expr::Lit(ExprLit { lit: Lit::Str(l), .. }), .. }) = &at.meta {
                                    let l = l.value();
                                    if let (Some(sp), ReturnType::Type(_, t)) = (l.strip_prefix("@ensures "), &x.sig.output) {
                                        given = true;
                                        ed.replace(at.span(), "");
                                        ed.insert_p(start(t.span()), -1, "(r: ");
                                        ed.insert_p(end(t.span()), -1, ")");
                                        ed.insert_p(start(x.block.span()), 0, format!("\n    ensures {sp},\n"));
                                    }
                                }
                            }
                            // a clone is equal to what it was made from
                            let clone = matches!(&targ, Some((n, a)) if n == "Clone" && a.is_empty()) && x.sig.ident == "clone";
                            if let (true, ReturnType::Type(_, t)) = (clone && !self.c.fns.contains_key(&k), &x.sig.output) {
                                ed.insert_p(start(t.span()), -1, "(r: ");
                                ed.insert_p(end(t.span()), -1, ")");
                                ed.insert_p(start(x.block.span()), 0, "\n    ensures r == *self,\n");
                            }
                            self.do_fn(m, &text, &mut ed, k, &x.sig, Some(&x.block), im.trait_.is_some() && !inherent && split.is_none(), false, at);
                            let inherited = targ.as_ref().map_or(false, |(n, a)| a.is_empty() && self.c.fns.keys().any(|f| f.ends_with(&format!("::{}::{}", n, x.sig.ident))));
                            if clone || given || inherited {
                                self.info.last_mut().unwrap().contracted = true;
                            }
                            if conv && (x.sig.ident == "from" || x.sig.ident == "try_from") {
                                let (tname, _) = targ.as_ref().unwrap();
                                let arg_ty = match x.sig.inputs.first() {
                                    Some(FnArg::Typed(t)) => text[t.ty.span().byte_range()].to_string(),
                                    _ => continue,
                                };
                                let arg_pat = match x.sig.inputs.first() {
                                    Some(FnArg::Typed(t)) => text[t.pat.span().byte_range()].to_string(),
                                    _ => continue,
                                };
                                let fk = ik.clone();
                                let body = if let Some((p, b)) = self.c.froms.get(&fk) {
                                    self.used.insert(format!("from {}", fk));
                                    Some((p.clone(), b.clone()))
                                } else if tname == "From"
                                    && x.block.stmts.len() == 1
                                    && matches!(&x.block.stmts[0], Stmt::Expr(e, None) if pure(e))
                                {
                                    Some((arg_pat, text[x.block.stmts[0].span().byte_range()].to_string()))
                                } else {
                                    self.c.weak.get(&fk).cloned()
                                };
                                let obeys = body.is_some();
                                self.info.last_mut().unwrap().contracted |= obeys;
                                let body = body.or(Some(("v".to_string(), "arbitrary()".to_string())));
                                if let Some((p, b)) = body {
                                    let (ig, _, wc) = im.generics.split_for_impl();
                                    let igs = ig.to_token_stream();
                                    let wcs = wc.to_token_stream();
                                    let st = im.self_ty.to_token_stream();
                                    let args = im.trait_.as_ref().unwrap().1.segments.last().unwrap().arguments.to_token_stream();
                                    let s = if tname == "From" {
                                        format!("impl{igs} vstd::std_specs::convert::FromSpecImpl{args} for {st} {wcs} {{ open spec fn obeys_from_spec() -> bool {{ {obeys} }} open spec fn from_spec({p}: {arg_ty}) -> Self {{ {b} }} }}\n")
                                    } else {
                                        format!("impl{igs} vstd::std_specs::convert::TryFromSpecImpl{args} for {st} {wcs} {{ open spec fn obeys_try_from_spec() -> bool {{ {obeys} }} open spec fn try_from_spec({p}: {arg_ty}) -> Result<Self, Self::Error> {{ {b} }} }}\n")
                                    };
                                    ed.insert_p(start(im.span()), 0, s);
                                }
                            }
                        }
                    }
                    if let Some(tt) = self.c.impls.get(&ik) {
                        if self.used.insert(format!("impl {}", ik)) {
                            ed.insert(end(im.brace_token.span.close()) - 1, format!("\n{}", tt));
                        }
                    }
                }
                _ => (),
            }
        }
        o.push_str(&ed.apply(&text));
        o.push('\n');
        let mk = m.path.join("::");
        let mk = if mk.is_empty() { "crate".to_string() } else { mk };
        if let Some(t) = self.c.mods.get(&mk) {
            self.used.insert(format!("mod {}", mk));
            o.push_str(&format!("/*#mod {}*/\n", mk));
            o.push_str(t);
        }
        o.push_str("} // verus!\n");
        for c in &m.children {
            self.emit(c, o)?;
        }
        if m.path.is_empty() {
            // extra modules supplied by contracts: `== mod +name`
            for (k, t) in &self.c.mods {
                if let Some(n) = k.strip_prefix('+') {
                    self.used.insert(format!("mod {}", k));
                    o.push_str(&format!("/*#m {}*/\npub mod {} {{\n{}\n}}\n/*#x {}*/\n", n, n, t, n));
                }
            }
        }
        o.push_str(&format!("/*#x {}*/\n", m.path.join("::")));
        if name.is_some() {
            o.push_str("}\n");
        }
        Ok(())
    }
}

trait VisStart {
    fn vis_start(&self) -> usize;
}
impl VisStart for ItemFn {
    fn vis_start(&self) -> usize {
        match &self.vis {
            Visibility::Inherited => start(fn_start(&self.sig)),
            v => start(v.span()),
        }
    }
}

fn fnv(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl<'a>(v: impl IntoIterator<Item = &'a String>) -> String {
    format!("[{}]", v.into_iter().map(|s| js(s)).collect::<Vec<_>>().join(", "))
}

pub fn json_map(sp: &Splicer, log: &BTreeMap<String, usize>, assumed: &[String], unused: &[String], missing: &[String], notes: &[String], touched: &BTreeSet<String>) -> String {
    let mut o = String::from("{\n \"functions\": [\n");
    let v: Vec<String> = sp
        .info
        .iter()
        .map(|f| {
            format!(
                "  {{\"key\": {}, \"file\": {}, \"params\": {}, \"locals\": {}, \"loops\": {}, \"has_body\": {}, \"contracted\": {}, \"external\": {}, \"requires\": {}, \"trait_fn\": {}, \"hash\": {}, \"skel\": {}, \"calls\": {}}}",
                js(&f.key), js(&f.file), jl(&f.params), jl(&f.locals), jl(&f.loops), f.has_body, f.contracted, f.external, f.requires, f.trait_fn, js(&f.body_hash), js(&f.skel), jl(&f.calls)
            )
        })
        .collect();
    o.push_str(&v.join(",\n"));
    o.push_str("\n ],\n \"rewrites\": {");
    o.push_str(&log.iter().map(|(k, n)| format!("{}: {}", js(k), n)).collect::<Vec<_>>().join(", "));
    o.push_str("},\n");
    o.push_str(&format!(" \"assumed\": {},\n", jl(assumed)));
    o.push_str(&format!(" \"contracts_without_function\": {},\n", jl(unused)));
    o.push_str(&format!(" \"missing_anchors\": {},\n", jl(missing)));
    o.push_str(&format!(" \"touched\": {},\n", jl(&touched.iter().cloned().collect::<Vec<_>>())));
    o.push_str(&format!(" \"notes\": {},\n", jl(notes)));
    o.push_str(&format!(
        " \"lost\": [{}]\n}}\n",
        sp.lost.iter().map(|(k, w)| format!("[{}, {}]", js(k), js(w))).collect::<Vec<_>>().join(", ")
    ));
    o
}

/// proof block; a line `ghost let x = e;` becomes `let ghost x = e;` before it
fn proof_text(t: &str) -> String {
    let (mut g, mut p) = (String::new(), String::new());
    for l in t.lines() {
        match l.trim_start().strip_prefix("ghost let ") {
            Some(x) => g.push_str(&format!("let ghost {}\n", x)),
            None => p.push_str(&format!("{}\n", l)),
        }
    }
    if p.trim().is_empty() {
        return format!("\n{}", g);
    }
    format!("\n{}proof {{\n{}}}\n", g, p)
}
