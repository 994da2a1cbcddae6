//! Replace derives by code or specifications Verus can use; widen visibility.
use crate::util::*;
use quote::ToTokens;
use std::collections::HashSet;
use syn::spanned::Spanned;
use syn::visit::Visit;
use syn::*;

pub struct Dv<'s> {
    pub src: &'s str,
    pub edits: Edits,
    /// types whose derived equality is not structural identity
    pub no_structural_eq: &'s HashSet<String>,
    pub narrow: &'s std::collections::HashMap<String, String>,
    pub assumed: Vec<String>,
}

fn derives(attrs: &[Attribute]) -> Vec<(String, proc_macro2::Span)> {
    let mut out = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            if let Ok(l) = a.parse_args_with(punctuated::Punctuated::<Path, Token![,]>::parse_terminated) {
                for p in l {
                    out.push((p.segments.last().unwrap().ident.to_string(), a.span()));
                }
            }
        }
    }
    out
}

fn default_expr(t: &Type) -> String {
    let s = t.to_token_stream().to_string().replace(' ', "");
    match s.as_str() {
        "u8" | "u16" | "u32" | "u64" | "usize" | "i32" => "0".into(),
        "bool" => "false".into(),
        _ => {
            if s.starts_with("Option<") {
                return "None".into();
            }
            if let Type::Array(a) = t {
                // [T; N]::default() for Copy T
                return format!("[{}; {}]", default_expr(&a.elem), a.len.to_token_stream());
            }
            "Default::default()".to_string()
        }
    }
}

fn member(fs: &Fields, k: usize) -> String {
    match &fs.iter().nth(k).unwrap().ident {
        Some(i) => i.to_string(),
        None => k.to_string(),
    }
}
/// a value or pattern of the given struct or variant
fn build(path: &str, fs: &Fields, e: &dyn Fn(usize) -> String) -> String {
    let v: Vec<String> = (0..fs.len())
        .map(|k| match fs {
            Fields::Named(_) => format!("{}: {}", member(fs, k), e(k)),
            _ => e(k),
        })
        .collect();
    match fs {
        Fields::Named(_) => format!("{} {{ {} }}", path, v.join(", ")),
        Fields::Unnamed(_) => format!("{}({})", path, v.join(", ")),
        Fields::Unit => path.to_string(),
    }
}

impl<'s> Dv<'s> {
    fn vis(&mut self, v: &Visibility, at: proc_macro2::Span) {
        match v {
            Visibility::Public(_) => (),
            Visibility::Inherited => self.edits.insert(start(at), "pub "),
            Visibility::Restricted(r) => self.edits.replace(r.span(), "pub"),
        }
    }
    fn do_derive(&mut self, ident: &Ident, g: &Generics, attrs: &[Attribute], data: Vec<(String, &Fields)>, is_enum: bool, whole: proc_macro2::Span) {
        let d = derives(attrs);
        if d.is_empty() {
            return;
        }
        let has = |n: &str| d.iter().any(|x| x.0 == n);
        let (ig, tg, wc) = g.split_for_impl();
        let (ig, tg, wc) = (ig.to_token_stream(), tg.to_token_stream(), wc.to_token_stream());
        let mut keep: Vec<String> = vec![];
        let mut add = String::new();
        let mut spec = String::new();
        let name = ident.to_string();
        let fields = if is_enum { None } else { Some(data[0].1) };
        for (n, _) in &d {
            match n.as_str() {
                "Clone" if !has("Copy") => {
                    let mut hints = String::new();
                    let arms: Vec<String> = data
                        .iter()
                        .map(|(v, fs)| {
                            let path = if v.is_empty() { name.clone() } else { format!("{}::{}", name, v) };
                            let own = |k: usize| member(fs, k);
                            let e = |k: usize| if v.is_empty() { format!("self.{}.clone()", own(k)) } else { format!("a{}__.clone()", k) };
                            if v.is_empty() {
                                for (k, f) in fs.iter().enumerate() {
                                    if f.ty.to_token_stream().to_string().contains('[') {
                                        hints.push_str(&format!("assert(r__.{0} =~= self.{0}); ", own(k)));
                                    }
                                }
                            }
                            let c = build(&path, fs, &e);
                            if v.is_empty() {
                                c
                            } else {
                                format!("{} => {}", build(&path, fs, &|k| format!("a{}__", k)), c)
                            }
                        })
                        .collect();
                    let body = if is_enum { format!("match self {{ {} }}", arms.join(", ")) } else { arms.join("") };
                    let inv = if self.narrow.contains_key(&name) { placeholder("proof { use_type_invariant(self); }".into()) } else { String::new() };
                    let hints = if hints.is_empty() { String::new() } else { placeholder(format!("proof {{ {} }}", hints)) };
                    add.push_str(&format!("\nimpl{ig} Clone for {name}{tg} {wc} {{ fn clone(&self) -> Self {{ {inv} let r__ = {body}; {hints} r__ }} }}"));
                    self.assumed.push(format!("derived Clone for {} is the clone of its fields", name));
                }
                "Default" => {
                    if let Some(fs) = fields {
                        let body: Vec<String> = fs
                            .iter()
                            .map(|f| match &f.ident {
                                Some(i) => format!("{}: {}", i, default_expr(&f.ty)),
                                None => default_expr(&f.ty),
                            })
                            .collect();
                        let body = if matches!(fs, Fields::Named(_)) {
                            format!("{} {{ {} }}", name, body.join(", "))
                        } else if body.is_empty() {
                            name.clone()
                        } else {
                            format!("{}({})", name, body.join(", "))
                        };
                        add.push_str(&format!("\nimpl{ig} Default for {name}{tg} {wc} {{ fn default() -> Self {{ {body} }} }}"));
                    }
                }
                "PartialEq" => {
                    let structural = !self.no_structural_eq.contains(&name);
                    let mut spec_arms = vec![];
                    let arms: Vec<String> = data
                        .iter()
                        .map(|(v, fs)| {
                            let path = if v.is_empty() { name.clone() } else { format!("{}::{}", name, v) };
                            let side = |k: usize, l: bool| match (v.is_empty(), l) {
                                (true, true) => format!("self.{}", member(fs, k)),
                                (true, false) => format!("o__.{}", member(fs, k)),
                                (false, true) => format!("a{}__", k),
                                (false, false) => format!("b{}__", k),
                            };
                            let st = if v.is_empty() { "" } else { "*" };
                            let mut h = String::new();
                            for (k, f) in fs.iter().enumerate() {
                                if matches!(f.ty, Type::Array(_)) && structural {
                                    let (a, b) = (side(k, true), side(k, false));
                                    h.push_str(&format!("assert((forall|i: int| 0 <= i < {a}@.len() ==> #[trigger] {a}@[i] == {b}@[i]) ==> {st}{a} =~= {st}{b}); "));
                                }
                            }
                            for (k, f) in fs.iter().enumerate() {
                                if matches!(&f.ty, Type::Reference(r) if matches!(&*r.elem, Type::Slice(_))) && structural {
                                    let (a, b) = (side(k, true), side(k, false));
                                    h.push_str(&format!("assert({a}@ == {b}@ ==> {st}{a} =~= {st}{b}); "));
                                }
                            }
                            let mut e: Vec<String> = (0..fs.len()).map(|k| format!("{st}{} == {st}{}", side(k, true), side(k, false))).collect();
                            if e.is_empty() {
                                e.push("true".into());
                            }
                            let am = if v.is_empty() { "&" } else { "" };
                            let mut se: Vec<String> = (0..fs.len()).map(|k| format!("vstd::std_specs::cmp::PartialEqSpec::eq_spec({am}{}, {am}{})", side(k, true), side(k, false))).collect();
                            if se.is_empty() {
                                se.push("true".into());
                            }
                            let h = if h.is_empty() { h } else { placeholder(format!("proof {{ {} }}", h)) };
                            let pat = if v.is_empty() {
                                String::new()
                            } else {
                                format!("({}, {}) => ", build(&path, fs, &|k| format!("a{}__", k)), build(&path, fs, &|k| format!("b{}__", k)))
                            };
                            spec_arms.push(format!("{}{}", pat, se.join(" && ")));
                            if v.is_empty() {
                                format!("{h} {}", e.join(" && "))
                            } else {
                                format!("{pat} {{ {h} {} }}", e.join(" && "))
                            }
                        })
                        .collect();
                    let rest = if data.len() > 1 { ", _ => false" } else { "" };
                    let wrap = |arms: &Vec<String>| if is_enum { format!("match (self, o__) {{ {}{rest} }}", arms.join(", ")) } else { arms.join("") };
                    let body = wrap(&arms);
                    let sp = if structural { "*self == *o__".to_string() } else { wrap(&spec_arms) };
                    // Verus cannot use `eq_spec` of a type inside its own `eq`, so the body is
                    // verified as an inherent function; the trait function stands for it
                    add.push_str(&format!("\nimpl{ig} {name}{tg} {wc} {{ #[doc = \"@ensures r == ({sp})\"] pub fn eq__(&self, o__: &Self) -> bool {{ {body} }} }}"));
                    spec.push_str(&format!(
                        "\nimpl{ig} PartialEq for {name}{tg} {wc} {{ #[verifier::external_body] fn eq(&self, o__: &Self) -> bool {{ unimplemented!() }} }}\nimpl{ig} vstd::std_specs::cmp::PartialEqSpecImpl for {name}{tg} {wc} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o__: &Self) -> bool {{ {sp} }} }}"
                    ));
                    self.assumed.push(format!("derived PartialEq for {} compares its fields", name));
                }
                "PartialOrd" => {
                    if let Some(fs @ Fields::Named(_)) = fields {
                        let mut b = String::new();
                        let mut body = "Some(core::cmp::Ordering::Equal)".to_string();
                        for f in fs {
                            let i = f.ident.as_ref().unwrap();
                            b.push_str(&format!("if self.{i} < o__.{i} {{ Some(core::cmp::Ordering::Less) }} else if self.{i} > o__.{i} {{ Some(core::cmp::Ordering::Greater) }} else "));
                        }
                        for f in fs.iter().rev() {
                            let i = f.ident.as_ref().unwrap();
                            body = format!("match self.{i}.partial_cmp(&o__.{i}) {{ Some(core::cmp::Ordering::Equal) => {body}, c__ => c__ }}");
                        }
                        b.push_str("{ Some(core::cmp::Ordering::Equal) }");
                        add.push_str(&format!("\nimpl{ig} {name}{tg} {wc} {{ #[doc = \"@ensures r == ({b})\"] pub fn partial_cmp__(&self, o__: &Self) -> Option<core::cmp::Ordering> {{ {body} }} }}"));
                        spec.push_str(&format!(
                            "\nimpl{ig} PartialOrd for {name}{tg} {wc} {{ #[verifier::external_body] fn partial_cmp(&self, o__: &Self) -> Option<core::cmp::Ordering> {{ unimplemented!() }} }}\nimpl{ig} vstd::std_specs::cmp::PartialOrdSpecImpl for {name}{tg} {wc} {{ open spec fn obeys_partial_cmp_spec() -> bool {{ true }} open spec fn partial_cmp_spec(&self, o__: &Self) -> Option<core::cmp::Ordering> {{ {b} }} }}"
                        ));
                        self.assumed.push(format!("derived PartialOrd for {} compares its fields in order", name));
                    } else {
                        keep.push(n.clone());
                    }
                }
                _ => keep.push(n.clone()),
            }
        }
        for a in attrs {
            if a.path().is_ident("derive") {
                self.edits.replace(a.span(), "");
            }
        }
        let k = if keep.is_empty() { String::new() } else { format!("#[derive({})]\n", keep.join(", ")) };
        self.edits.insert_p(start(whole), -5, k);
        if !spec.is_empty() {
            add.push_str(&placeholder(spec));
        }
        self.edits.insert_p(end(whole), 5, add);
    }
    fn fields(&mut self, f: &Fields, narrow: Option<&String>) {
        for x in f {
            if let Some(nm) = narrow {
                let nv = format!("pub(in crate::{})", nm);
                // a type invariant needs fields that are not visible crate-wide
                let at = match &x.ident {
                    Some(i) => i.span(),
                    None => x.ty.span(),
                };
                match &x.vis {
                    Visibility::Inherited => self.edits.insert(start(at), format!("{} ", nv)),
                    v => self.edits.replace(v.span(), nv.clone()),
                }
                continue;
            }
            match &x.ident {
                Some(i) => self.vis(&x.vis, i.span()),
                None => self.vis(&x.vis, x.ty.span()),
            }
        }
    }
}

impl<'s, 'a> Visit<'a> for Dv<'s> {
    fn visit_item_struct(&mut self, i: &'a ItemStruct) {
        self.do_derive(&i.ident, &i.generics, &i.attrs, vec![(String::new(), &i.fields)], false, i.span());
        self.vis(&i.vis, i.struct_token.span());
        let n = self.narrow.get(&i.ident.to_string());
        self.fields(&i.fields, n);
    }
    fn visit_item_enum(&mut self, i: &'a ItemEnum) {
        self.do_derive(&i.ident, &i.generics, &i.attrs, i.variants.iter().map(|v| (v.ident.to_string(), &v.fields)).collect(), true, i.span());
        self.vis(&i.vis, i.enum_token.span());
    }
    fn visit_item_const(&mut self, i: &'a ItemConst) {
        self.vis(&i.vis, i.const_token.span());
    }
    fn visit_item_type(&mut self, i: &'a ItemType) {
        self.vis(&i.vis, i.type_token.span());
    }
    fn visit_item_trait(&mut self, i: &'a ItemTrait) {
        self.vis(&i.vis, i.trait_token.span());
    }
    fn visit_item_use(&mut self, i: &'a ItemUse) {
        if let Visibility::Restricted(r) = &i.vis {
            self.edits.replace(r.span(), "pub");
        }
    }
    fn visit_item_fn(&mut self, i: &'a ItemFn) {
        self.vis(&i.vis, fn_start(&i.sig));
    }
    fn visit_item_impl(&mut self, i: &'a ItemImpl) {
        if i.trait_.is_none() {
            for x in &i.items {
                match x {
                    ImplItem::Fn(f) => self.vis(&f.vis, fn_start(&f.sig)),
                    ImplItem::Const(c) => self.vis(&c.vis, c.const_token.span()),
                    _ => (),
                }
            }
        }
    }
}

pub fn fn_start(s: &Signature) -> proc_macro2::Span {
    if let Some(c) = &s.constness {
        c.span()
    } else if let Some(c) = &s.unsafety {
        c.span()
    } else {
        s.fn_token.span()
    }
}
