//! A small macro-by-example expander for the crate's own `macro_rules!`.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::HashMap;

#[derive(Debug, Clone)]
enum M {
    Tok(String),
    Frag(String, String),
    Group(Delimiter, Vec<M>),
    Rep(Vec<M>, Option<String>, char),
}

#[derive(Debug, Clone)]
enum B {
    Leaf(TokenStream),
    Seq(Vec<HashMap<String, B>>),
}

pub struct Rule {
    matcher: Vec<M>,
    body: TokenStream,
}

pub struct Macro {
    pub rules: Vec<Rule>,
}

pub fn parse_macro(ts: TokenStream) -> Option<Macro> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut rules = vec![];
    let mut i = 0;
    while i < v.len() {
        let m = match &v[i] {
            TokenTree::Group(g) => g.stream(),
            TokenTree::Punct(p) if p.as_char() == ';' => {
                i += 1;
                continue;
            }
            _ => return None,
        };
        // '=' '>' group
        let body = match v.get(i + 3) {
            Some(TokenTree::Group(g)) => g.stream(),
            _ => return None,
        };
        rules.push(Rule { matcher: parse_matcher(m)?, body });
        i += 4;
    }
    Some(Macro { rules })
}

fn parse_matcher(ts: TokenStream) -> Option<Vec<M>> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => match v.get(i + 1)? {
                TokenTree::Ident(name) => {
                    // $name : kind
                    let kind = match v.get(i + 3)? {
                        TokenTree::Ident(k) => k.to_string(),
                        _ => return None,
                    };
                    out.push(M::Frag(name.to_string(), kind));
                    i += 4;
                }
                TokenTree::Group(g) => {
                    let inner = parse_matcher(g.stream())?;
                    let (sep, op, adv) = rep_tail(&v, i + 2)?;
                    out.push(M::Rep(inner, sep, op));
                    i = adv;
                }
                _ => return None,
            },
            TokenTree::Group(g) => {
                out.push(M::Group(g.delimiter(), parse_matcher(g.stream())?));
                i += 1;
            }
            t => {
                out.push(M::Tok(t.to_string()));
                i += 1;
            }
        }
    }
    Some(out)
}

fn rep_tail(v: &[TokenTree], i: usize) -> Option<(Option<String>, char, usize)> {
    let t = v.get(i)?.to_string();
    if t == "*" || t == "+" || t == "?" {
        return Some((None, t.chars().next()?, i + 1));
    }
    let op = v.get(i + 1)?.to_string();
    if op == "*" || op == "+" || op == "?" {
        return Some((Some(t), op.chars().next()?, i + 2));
    }
    None
}

fn matches(ms: &[M], v: &[TokenTree], pos: &mut usize, b: &mut HashMap<String, B>) -> bool {
    for m in ms {
        match m {
            M::Tok(t) => {
                if v.get(*pos).map(|x| x.to_string()) != Some(t.clone()) {
                    return false;
                }
                *pos += 1;
            }
            M::Group(d, inner) => match v.get(*pos) {
                Some(TokenTree::Group(g)) if g.delimiter() == *d => {
                    let iv: Vec<TokenTree> = g.stream().into_iter().collect();
                    let mut p = 0;
                    if !matches(inner, &iv, &mut p, b) || p != iv.len() {
                        return false;
                    }
                    *pos += 1;
                }
                _ => return false,
            },
            M::Frag(name, kind) => {
                let s = *pos;
                match kind.as_str() {
                    "ident" | "lifetime" | "literal" | "tt" | "block" => {
                        if *pos >= v.len() {
                            return false;
                        }
                        if kind == "ident" && !matches!(v[*pos], TokenTree::Ident(_)) {
                            return false;
                        }
                        *pos += 1;
                    }
                    "vis" => {
                        if let Some(TokenTree::Ident(i)) = v.get(*pos) {
                            if i == "pub" {
                                *pos += 1;
                                if let Some(TokenTree::Group(g)) = v.get(*pos) {
                                    if g.delimiter() == Delimiter::Parenthesis {
                                        *pos += 1;
                                    }
                                }
                            }
                        }
                    }
                    _ => {
                        // ty / expr / path: up to a top-level ',' ';' or '=>'
                        let mut depth = 0i32;
                        while *pos < v.len() {
                            if let TokenTree::Punct(p) = &v[*pos] {
                                let c = p.as_char();
                                if c == '<' {
                                    depth += 1
                                }
                                if c == '>' {
                                    depth -= 1
                                }
                                if (c == ',' || c == ';') && depth <= 0 {
                                    break;
                                }
                            }
                            *pos += 1;
                        }
                        if *pos == s {
                            return false;
                        }
                    }
                }
                b.insert(name.clone(), B::Leaf(v[s..*pos].iter().cloned().collect()));
            }
            M::Rep(inner, sep, op) => {
                let mut seqs = vec![];
                loop {
                    let save = *pos;
                    let mut p = *pos;
                    if !seqs.is_empty() {
                        if let Some(s) = sep {
                            if v.get(p).map(|x| x.to_string()) != Some(s.clone()) {
                                break;
                            }
                            p += 1;
                        }
                    }
                    let mut nb = HashMap::new();
                    if p < v.len() && matches(inner, v, &mut p, &mut nb) && p > save {
                        *pos = p;
                        seqs.push(nb);
                        if *op == '?' {
                            break;
                        }
                    } else {
                        break;
                    }
                }
                if *op == '+' && seqs.is_empty() {
                    return false;
                }
                let mut names = vec![];
                collect(inner, &mut names);
                for n in names {
                    b.insert(n, B::Seq(seqs.clone()));
                }
            }
        }
    }
    true
}

fn collect(ms: &[M], out: &mut Vec<String>) {
    for m in ms {
        match m {
            M::Frag(n, _) => out.push(n.clone()),
            M::Group(_, i) => collect(i, out),
            M::Rep(i, _, _) => collect(i, out),
            _ => (),
        }
    }
}

fn transcribe(ts: TokenStream, b: &HashMap<String, B>) -> Option<TokenStream> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => match v.get(i + 1)? {
                TokenTree::Ident(n) if n == "crate" => {
                    out.push(TokenTree::Ident(proc_macro2::Ident::new("crate", n.span())));
                    i += 2;
                }
                TokenTree::Ident(n) => {
                    match b.get(&n.to_string()) {
                        Some(B::Leaf(t)) => out.extend(t.clone()),
                        _ => return None,
                    }
                    i += 2;
                }
                TokenTree::Group(g) => {
                    let (sep, _op, adv) = rep_tail(&v, i + 2)?;
                    // find a repeated variable used inside
                    let names = vars(g.stream());
                    let seqs = names.iter().find_map(|n| match b.get(n) {
                        Some(B::Seq(s)) => Some(s.clone()),
                        _ => None,
                    })?;
                    for (k, s) in seqs.iter().enumerate() {
                        let mut nb = b.clone();
                        for (a, c) in s {
                            nb.insert(a.clone(), c.clone());
                        }
                        if k > 0 {
                            if let Some(sep) = &sep {
                                out.extend(sep.parse::<TokenStream>().ok()?);
                            }
                        }
                        out.extend(transcribe(g.stream(), &nb)?);
                    }
                    i = adv;
                }
                _ => return None,
            },
            TokenTree::Group(g) => {
                out.push(TokenTree::Group(Group::new(g.delimiter(), transcribe(g.stream(), b)?)));
                i += 1;
            }
            t => {
                out.push(t.clone());
                i += 1;
            }
        }
    }
    Some(out.into_iter().collect())
}

fn vars(ts: TokenStream) -> Vec<String> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    for i in 0..v.len() {
        match &v[i] {
            TokenTree::Group(g) => out.extend(vars(g.stream())),
            TokenTree::Punct(p) if p.as_char() == '$' => {
                if let Some(TokenTree::Ident(n)) = v.get(i + 1) {
                    out.push(n.to_string())
                }
            }
            _ => (),
        }
    }
    out
}

impl Macro {
    pub fn expand(&self, args: TokenStream) -> Option<String> {
        let v: Vec<TokenTree> = args.into_iter().collect();
        for r in &self.rules {
            let mut p = 0;
            let mut b = HashMap::new();
            if matches(&r.matcher, &v, &mut p, &mut b) && p == v.len() {
                return transcribe(r.body.clone(), &b).map(|t| pretty(&t.to_string()));
            }
        }
        None
    }
}

/// Put line breaks into a token string so that diagnostics stay readable.
pub fn pretty(s: &str) -> String {
    s.replace("; ", ";\n").replace("{ ", "{\n").replace("} ", "}\n")
}
