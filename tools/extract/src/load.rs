//! Module tree loading, cfg resolution, macro collection and expansion.
use crate::mbe;
use crate::util::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;
use syn::visit::Visit;
use syn::*;

pub struct Module {
    pub path: Vec<String>,
    pub file: String,
    pub text: String,
    pub children: Vec<Module>,
}

pub struct Cfg {
    pub features: HashSet<String>,
}

impl Cfg {
    pub fn eval(&self, m: &Meta) -> bool {
        match m {
            Meta::Path(p) => !(p.is_ident("test") || p.is_ident("kani") || p.is_ident("miri") || p.is_ident("doc")),
            Meta::NameValue(nv) => {
                if nv.path.is_ident("feature") {
                    if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &nv.value {
                        return self.features.contains(&s.value());
                    }
                }
                false
            }
            Meta::List(l) => {
                let inner = l
                    .parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated)
                    .map(|p| p.into_iter().collect::<Vec<_>>())
                    .unwrap_or_default();
                if l.path.is_ident("not") {
                    !inner.iter().any(|m| self.eval(m))
                } else if l.path.is_ident("all") {
                    inner.iter().all(|m| self.eval(m))
                } else if l.path.is_ident("any") {
                    inner.iter().any(|m| self.eval(m))
                } else {
                    false
                }
            }
        }
    }
    fn attrs_on(&self, attrs: &[Attribute]) -> bool {
        attrs.iter().all(|a| {
            if a.path().is_ident("cfg") {
                match &a.meta {
                    Meta::List(l) => l.parse_args::<Meta>().map(|m| self.eval(&m)).unwrap_or(false),
                    _ => false,
                }
            } else if a.path().is_ident("test") {
                false
            } else {
                true
            }
        })
    }
}

struct CfgPass<'c> {
    cfg: &'c Cfg,
    edits: Edits,
}
impl<'c> CfgPass<'c> {
    fn handle(&mut self, attrs: &[Attribute], sp: proc_macro2::Span) -> bool {
        if !self.cfg.attrs_on(attrs) {
            self.edits.replace(sp, "");
            return false;
        }
        true
    }
    fn strip(&mut self, attrs: &[Attribute]) {
        for a in attrs {
            let p = a.path();
            if p.is_ident("cfg")
                || p.is_ident("cfg_attr")
                || p.is_ident("doc")
                || p.is_ident("rustfmt")
                || p.segments.first().map(|s| s.ident == "rustfmt").unwrap_or(false)
                || p.is_ident("allow")
                || p.is_ident("inline")
                || p.is_ident("must_use")
                || p.is_ident("macro_export")
                || matches!(a.style, AttrStyle::Inner(_))
            {
                self.edits.replace(a.span(), "");
            }
        }
    }
}
macro_rules! item_attrs {
    ($i:expr, $($v:ident),*) => { match $i { $( Item::$v(x) => Some((&x.attrs[..], x.span())), )* _ => None } };
}
impl<'c, 'a> Visit<'a> for CfgPass<'c> {
    fn visit_item(&mut self, i: &'a Item) {
        let a = item_attrs!(i, Const, Enum, ExternCrate, Fn, ForeignMod, Impl, Macro, Mod, Static, Struct, Trait, TraitAlias, Type, Union, Use);
        if let Some((attrs, sp)) = a {
            if !self.handle(attrs, sp) {
                return;
            }
        }
        visit::visit_item(self, i);
    }
    fn visit_impl_item(&mut self, i: &'a ImplItem) {
        let a: &[Attribute] = match i {
            ImplItem::Const(x) => &x.attrs,
            ImplItem::Fn(x) => &x.attrs,
            ImplItem::Type(x) => &x.attrs,
            ImplItem::Macro(x) => &x.attrs,
            _ => &[],
        };
        if !self.handle(a, i.span()) {
            return;
        }
        visit::visit_impl_item(self, i);
    }
    fn visit_field(&mut self, i: &'a Field) {
        if self.handle(&i.attrs, i.span()) {
            visit::visit_field(self, i);
        }
    }
    fn visit_local(&mut self, i: &'a Local) {
        if self.handle(&i.attrs, i.span()) {
            visit::visit_local(self, i);
        }
    }
    fn visit_arm(&mut self, i: &'a Arm) {
        if self.handle(&i.attrs, i.span()) {
            visit::visit_arm(self, i);
        }
    }
    fn visit_attribute(&mut self, a: &'a Attribute) {
        self.strip(std::slice::from_ref(a));
    }
}

pub struct Loader {
    pub cfg: Cfg,
    pub macros: HashMap<String, mbe::Macro>,
    pub config_text: String,
    pub files: BTreeMap<String, String>,
    pub notes: Vec<String>,
}

impl Loader {
    pub fn load(&mut self, src: &Path, file: &Path, path: Vec<String>) -> std::result::Result<Module, String> {
        let raw = std::fs::read_to_string(file).map_err(|e| format!("{}: {}", file.display(), e))?;
        let mut text = strip_comments(&raw);
        // cfg
        let f = parse_file(&text).map_err(|e| format!("{}: parse: {}", file.display(), e))?;
        let mut p = CfgPass { cfg: &self.cfg, edits: Edits::default() };
        p.visit_file(&f);
        text = p.edits.apply(&text);
        let f = parse_file(&text).map_err(|e| format!("{}: parse2: {}", file.display(), e))?;
        let mut edits = Edits::default();
        let mut children = vec![];
        for i in &f.items {
            match i {
                Item::Mod(m) if m.content.is_none() => {
                    let name = m.ident.to_string();
                    edits.replace(m.span(), "");
                    let dir: PathBuf = if path.is_empty() {
                        src.to_path_buf()
                    } else {
                        let mut d = src.to_path_buf();
                        for s in &path {
                            d.push(s);
                        }
                        d
                    };
                    let c1 = dir.join(format!("{}.rs", name));
                    let c2 = dir.join(&name).join("mod.rs");
                    let c = if c1.exists() { c1 } else { c2 };
                    let mut np = path.clone();
                    np.push(name);
                    children.push(self.load(src, &c, np)?);
                }
                Item::Macro(m) if m.mac.path.is_ident("macro_rules") => {
                    let name = m.ident.as_ref().unwrap().to_string();
                    match mbe::parse_macro(m.mac.tokens.clone()) {
                        Some(mm) => {
                            self.macros.insert(name, mm);
                        }
                        None => self.notes.push(format!("macro {} not understood", name)),
                    }
                    edits.replace(m.span(), "");
                }
                _ => (),
            }
        }
        text = edits.apply(&text);
        Ok(Module { path, file: file.display().to_string(), text, children })
    }

    /// Expand crate macros, bitflags and include! in a module tree.
    pub fn expand(&mut self, m: &mut Module) -> std::result::Result<(), String> {
        for _ in 0..20 {
            let f = parse_file(&m.text).map_err(|e| format!("{}: expand: {}", m.file, e))?;
            let mut v = MacPass { l: self, edits: Edits::default(), err: None };
            v.visit_file(&f);
            if let Some(e) = v.err {
                return Err(e);
            }
            if v.edits.is_empty() {
                break;
            }
            let e = std::mem::take(&mut v.edits);
            m.text = e.apply(&m.text);
        }
        let mut ch = std::mem::take(&mut m.children);
        for c in &mut ch {
            self.expand(c)?;
        }
        m.children = ch;
        Ok(())
    }
}

struct MacPass<'l> {
    l: &'l Loader,
    edits: Edits,
    err: Option<String>,
}
impl<'l> MacPass<'l> {
    fn try_mac(&mut self, m: &Macro, sp: proc_macro2::Span) -> bool {
        let name = m.path.segments.last().unwrap().ident.to_string();
        if name == "bitflags" {
            match crate::bitflags::expand(m.tokens.clone()) {
                Ok(t) => self.edits.replace(sp, placeholder(t)),
                Err(e) => self.err = Some(format!("bitflags: {}", e)),
            }
            return true;
        }
        if name == "include" {
            self.edits.replace(sp, self.l.config_text.clone());
            return true;
        }
        if let Some(mac) = self.l.macros.get(&name) {
            match mac.expand(m.tokens.clone()) {
                Some(t) => self.edits.replace(sp, t),
                None => self.err = Some(format!("cannot expand macro {}", name)),
            }
            return true;
        }
        false
    }
}
impl<'l, 'a> Visit<'a> for MacPass<'l> {
    fn visit_item_macro(&mut self, i: &'a ItemMacro) {
        self.try_mac(&i.mac, i.span());
    }
    fn visit_stmt_macro(&mut self, i: &'a StmtMacro) {
        self.try_mac(&i.mac, i.span());
    }
    fn visit_expr_macro(&mut self, i: &'a ExprMacro) {
        self.try_mac(&i.mac, i.span());
    }
    fn visit_item_use(&mut self, i: &'a ItemUse) {
        // a `use` that only imports a macro
        let t = quote::quote!(#i).to_string();
        let t = t.trim_end_matches(|c: char| c == ';' || c == ' ');
        let last = t.rsplit("::").next().unwrap_or("").trim().to_string();
        let mut names: Vec<String> = vec![];
        grp(&i.tree, &mut names);
        if names.len() > 1 && names.iter().any(|n| self.l.macros.contains_key(n)) {
            let mut s = quote::quote!(#i).to_string();
            for n in names.iter().filter(|n| self.l.macros.contains_key(*n)) {
                s = s.replacen(&format!(" {} ,", n), " ", 1).replacen(&format!(", {} ", n), " ", 1);
            }
            self.edits.replace(i.span(), s);
            return;
        }
        if last == "bitflags" || self.l.macros.contains_key(&last) {
            self.edits.replace(i.span(), "");
        }
    }
}

fn grp(t: &UseTree, out: &mut Vec<String>) {
    match t {
        UseTree::Path(p) => grp(&p.tree, out),
        UseTree::Name(n) => out.push(n.ident.to_string()),
        UseTree::Group(g) => g.items.iter().for_each(|i| grp(i, out)),
        _ => (),
    }
}
