//! Expansion of `bitflags!` into plain Rust with the semantics of bitflags 1.3.
use proc_macro2::{Delimiter, TokenStream, TokenTree};

pub fn expand(ts: TokenStream) -> Result<String, String> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    let mut out = String::new();
    while i < v.len() {
        let mut derive_default = false;
        // attributes
        while matches!(&v[i], TokenTree::Punct(p) if p.as_char()=='#') {
            if let Some(TokenTree::Group(g)) = v.get(i + 1) {
                if g.to_string().contains("Default") {
                    derive_default = true;
                }
            }
            i += 2;
        }
        // visibility
        if v[i].to_string() == "pub" {
            i += 1;
            if let TokenTree::Group(g) = &v[i] {
                if g.delimiter() == Delimiter::Parenthesis {
                    i += 1;
                }
            }
        }
        if v[i].to_string() != "struct" {
            return Err(format!("expected struct, got {}", v[i]));
        }
        let name = v[i + 1].to_string();
        if v[i + 2].to_string() != ":" {
            return Err("expected :".into());
        }
        let ty = v[i + 3].to_string();
        let body = match &v[i + 4] {
            TokenTree::Group(g) => g.stream(),
            _ => return Err("expected body".into()),
        };
        i += 5;
        // consts
        let b: Vec<TokenTree> = body.into_iter().collect();
        let mut k = 0;
        let mut consts: Vec<(String, u128)> = vec![];
        while k < b.len() {
            while matches!(&b[k], TokenTree::Punct(p) if p.as_char()=='#') {
                k += 2;
            }
            if b[k].to_string() != "const" {
                return Err(format!("expected const, got {}", b[k]));
            }
            let n = b[k + 1].to_string();
            k += 3;
            let mut e = vec![];
            while k < b.len() && b[k].to_string() != ";" {
                e.push(b[k].to_string());
                k += 1;
            }
            k += 1;
            let val = eval(&e, &consts).ok_or(format!("cannot evaluate {}", e.join(" ")))?;
            consts.push((n, val));
        }
        let all = consts.iter().fold(0, |a, c| a | c.1);
        out.push_str(&emit(&name, &ty, &consts, all, derive_default));
    }
    Ok(out)
}

fn lit(s: &str) -> Option<u128> {
    let s = s.replace('_', "");
    let s = s
        .trim_end_matches("u8")
        .trim_end_matches("u16")
        .trim_end_matches("u32")
        .trim_end_matches("u64")
        .to_string();
    if let Some(h) = s.strip_prefix("0x") {
        u128::from_str_radix(h, 16).ok()
    } else if let Some(h) = s.strip_prefix("0b") {
        u128::from_str_radix(h, 2).ok()
    } else {
        s.parse().ok()
    }
}

fn eval(e: &[String], consts: &[(String, u128)]) -> Option<u128> {
    if e.len() == 1 {
        let t = e[0].trim();
        if t.starts_with('(') {
            let ts: TokenStream = t[1..t.len() - 1].parse().ok()?;
            let v: Vec<String> = ts.into_iter().map(|t| t.to_string()).collect();
            return eval(&v, consts);
        }
        return lit(t);
    }
    // lowest precedence: |
    if let Some(p) = e.iter().position(|t| t == "|") {
        return Some(eval(&e[..p], consts)? | eval(&e[p + 1..], consts)?);
    }
    if let Some(p) = e.windows(2).position(|w| w[0] == "<" && w[1] == "<") {
        return Some(eval(&e[..p], consts)? << eval(&e[p + 2..], consts)?);
    }
    // Self::X.bits
    if e.len() >= 4 && e[0] == "Self" {
        let n = &e[3];
        return consts.iter().find(|c| c.0 == *n).map(|c| c.1);
    }
    None
}

fn emit(name: &str, ty: &str, consts: &[(String, u128)], all: u128, derive_default: bool) -> String {
    let mut s = String::new();
    s.push_str(&format!("#[derive(Debug, Copy, Clone, PartialEq, Eq, Structural)]\npub struct {name} {{ pub bits: {ty} }}\n"));
    s.push_str(&format!("impl {name} {{\n"));
    for (n, v) in consts {
        s.push_str(&format!("    pub const {n}: {name} = {name} {{ bits: {v:#x} }};\n"));
    }
    s.push_str(&format!(
        r#"    pub fn bits(&self) -> (r: {ty}) ensures r == self.bits {{ self.bits }}
    pub fn from_bits(bits: {ty}) -> (r: Option<{name}>)
        ensures (bits & !({all:#x} as {ty}) == 0) ==> r == Some({name} {{ bits }}), (bits & !({all:#x} as {ty}) != 0) ==> r is None
    {{ if bits & !({all:#x} as {ty}) == 0 {{ Some({name} {{ bits }}) }} else {{ None }} }}
    pub fn from_bits_truncate(bits: {ty}) -> (r: {name}) ensures r.bits == bits & ({all:#x} as {ty}) {{ {name} {{ bits: bits & ({all:#x} as {ty}) }} }}
    pub fn empty() -> (r: {name}) ensures r.bits == 0 {{ {name} {{ bits: 0 }} }}
    pub fn all() -> (r: {name}) ensures r.bits == {all:#x} {{ {name} {{ bits: {all:#x} }} }}
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.bits == 0) {{ self.bits == 0 }}
    pub fn contains(&self, other: {name}) -> (r: bool) ensures r == (self.bits & other.bits == other.bits) {{ self.bits & other.bits == other.bits }}
    pub fn intersects(&self, other: {name}) -> (r: bool) ensures r == (self.bits & other.bits != 0) {{ self.bits & other.bits != 0 }}
    pub fn insert(&mut self, other: {name}) ensures final(self).bits == old(self).bits | other.bits {{ self.bits = self.bits | other.bits; }}
    pub fn remove(&mut self, other: {name}) ensures final(self).bits == old(self).bits & !other.bits {{ self.bits = self.bits & !other.bits; }}
    pub open spec fn all_bits() -> {ty} {{ {all:#x} }}
    pub open spec fn valid(&self) -> bool {{ self.bits & !({all:#x} as {ty}) == 0 }}
}}
impl vstd::std_specs::ops::BitOrSpecImpl for {name} {{
    open spec fn obeys_bitor_spec() -> bool {{ true }}
    open spec fn bitor_req(self, o: {name}) -> bool {{ true }}
    open spec fn bitor_spec(self, o: {name}) -> {name} {{ {name} {{ bits: self.bits | o.bits }} }}
}}
impl core::ops::BitOr for {name} {{ type Output = {name}; fn bitor(self, o: {name}) -> (r: {name}) {{ {name} {{ bits: self.bits | o.bits }} }} }}
impl vstd::std_specs::ops::BitAndSpecImpl for {name} {{
    open spec fn obeys_bitand_spec() -> bool {{ true }}
    open spec fn bitand_req(self, o: {name}) -> bool {{ true }}
    open spec fn bitand_spec(self, o: {name}) -> {name} {{ {name} {{ bits: self.bits & o.bits }} }}
}}
impl core::ops::BitAnd for {name} {{ type Output = {name}; fn bitand(self, o: {name}) -> (r: {name}) {{ {name} {{ bits: self.bits & o.bits }} }} }}
impl vstd::std_specs::ops::BitOrAssignSpecImpl for {name} {{
    open spec fn obeys_bitor_assign_spec() -> bool {{ true }}
    open spec fn bitor_assign_req(&self, o: {name}) -> bool {{ true }}
    open spec fn bitor_assign_spec(&self, o: {name}) -> &{name} {{ &{name} {{ bits: self.bits | o.bits }} }}
}}
impl core::ops::BitOrAssign for {name} {{ fn bitor_assign(&mut self, o: {name}) {{ self.bits = self.bits | o.bits; }} }}
impl vstd::std_specs::cmp::PartialEqSpecImpl for {name} {{
    open spec fn obeys_eq_spec() -> bool {{ true }}
    open spec fn eq_spec(&self, o: &{name}) -> bool {{ *self == *o }}
}}
"#
    ));
    if derive_default {
        s.push_str(&format!(
            "impl Default for {name} {{ fn default() -> (r: {name}) ensures r.bits == 0 {{ {name} {{ bits: 0 }} }} }}\n"
        ));
    }
    s
}
