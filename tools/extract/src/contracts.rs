//! Contract files.
use std::collections::{BTreeMap, HashSet};

#[derive(Default, Debug, Clone)]
pub struct FnContract {
    pub params: Option<Vec<String>>,
    pub locals: Option<Vec<String>>,
    pub ret: Option<String>,
    pub attrs: Vec<String>,
    pub spec: String,
    pub loops: BTreeMap<usize, (Option<String>, String)>,
    pub body: String,
    pub loopbody: BTreeMap<usize, String>,
    pub loopend: BTreeMap<usize, String>,
    pub before: Vec<(String, String)>,
    pub after: Vec<(String, String)>,
    pub end: String,
    /// target of the `.into()` calls of this function, when its `From` has a precondition
    pub into: Option<String>,
    pub src: String,
}

#[derive(Default, Debug)]
pub struct Contracts {
    pub mods: BTreeMap<String, String>,
    pub traits: BTreeMap<String, String>,
    pub impls: BTreeMap<String, String>,
    pub froms: BTreeMap<String, (String, String)>,
    /// used only where a conversion's own body is not a plain expression
    pub weak: BTreeMap<String, (String, String)>,
    pub asrefs: BTreeMap<String, (String, String)>,
    pub fns: BTreeMap<String, FnContract>,
    pub noeq: Vec<String>,
    pub eqs: BTreeMap<String, String>,
    pub narrow: Vec<String>,
    /// trait impls emitted as inherent ones, so that they can have a precondition
    pub inherent: Vec<String>,
    pub root: String,
    pub dropped: BTreeMap<String, String>,
}

enum Cur {
    None,
    Root,
    Mod(String),
    Trait(String),
    Impl(String),
    From(String),
    Weak(String),
    AsRef(String),
    Eq(String),
    Fn(String, Sec),
    Ignore,
}
#[derive(Clone)]
enum Sec {
    Head,
    Spec,
    Body,
    End,
    Loop(usize),
    LoopBody(usize),
    LoopEnd(usize),
    Before(usize),
    After(usize),
}

/// `##if FEATURE`, `##else`, `##end` select lines by the configuration extracted.
pub fn parse(text: &str, file: &str, features: &HashSet<String>, c: &mut Contracts) -> Result<(), String> {
    let mut cur = Cur::None;
    let mut on = true;
    for (ln, line) in text.lines().enumerate() {
        let err = |m: &str| format!("{}:{}: {}: {}", file, ln + 1, m, line);
        if let Some(f) = line.strip_prefix("##if ") {
            on = features.contains(f.trim());
        } else if line.trim() == "##else" {
            on = !on;
        } else if line.trim() == "##end" {
            on = true;
        }
        if line.starts_with("##") || !on {
            continue;
        }
        if let Some(rest) = line.strip_prefix("== ") {
            let rest = rest.trim();
            let (kind, arg) = match rest.split_once(' ') {
                Some((a, b)) => (a, b.trim()),
                None => (rest, ""),
            };
            cur = match kind {
                "root" => Cur::Root,
                "mod" => Cur::Mod(arg.to_string()),
                "trait" => Cur::Trait(arg.to_string()),
                "impl" => Cur::Impl(arg.to_string()),
                "narrow" => {
                    c.narrow.push(arg.to_string());
                    Cur::Ignore
                }
                "inherent" => {
                    c.inherent.push(arg.to_string());
                    Cur::Ignore
                }
                "noeq" => {
                    c.noeq.push(arg.to_string());
                    Cur::Ignore
                }
                "dropped" => {
                    let (k, why) = arg.split_once(' ').unwrap_or((arg, ""));
                    c.dropped.insert(k.to_string(), why.to_string());
                    Cur::Ignore
                }
                "eq" => {
                    c.eqs.insert(arg.to_string(), String::new());
                    Cur::Eq(arg.to_string())
                }
                "from" => {
                    let (k, p) = split_params(arg);
                    c.froms.insert(k.clone(), (p.and_then(|p| p.first().cloned()).unwrap_or("v".into()), String::new()));
                    Cur::From(k)
                }
                "fromweak" => {
                    let (k, p) = split_params(arg);
                    c.weak.insert(k.clone(), (p.and_then(|p| p.first().cloned()).unwrap_or("v".into()), String::new()));
                    Cur::Weak(k)
                }
                "asref" => {
                    let (k, p) = split_params(arg);
                    c.asrefs.insert(k.clone(), (p.and_then(|p| p.first().cloned()).unwrap_or("r".into()), String::new()));
                    Cur::AsRef(k)
                }
                "fn" => {
                    let (k, p) = split_params(arg);
                    if c.fns.contains_key(&k) {
                        return Err(err("duplicate contract"));
                    }
                    c.fns.insert(k.clone(), FnContract { params: p, src: format!("{}:{}", file, ln + 1), ..Default::default() });
                    Cur::Fn(k, Sec::Head)
                }
                _ => return Err(err("unknown section")),
            };
            continue;
        }
        if let Cur::Fn(k, sec) = &mut cur {
            let f = c.fns.get_mut(k).unwrap();
            if let Some(rest) = line.strip_prefix("-- ") {
                let rest = rest.trim();
                let (kind, arg) = match rest.split_once(' ') {
                    Some((a, b)) => (a, b.trim()),
                    None => (rest, ""),
                };
                match kind {
                    "ret" => f.ret = Some(arg.to_string()),
                    "into" => f.into = Some(arg.to_string()),
                    "attr" => f.attrs.push(arg.to_string()),
                    "spec" => *sec = Sec::Spec,
                    "body" => *sec = Sec::Body,
                    "end" => *sec = Sec::End,
                    "loop" | "loopbody" | "loopend" => {
                        let mut it = arg.split_whitespace();
                        let n: usize = it.next().and_then(|x| x.parse().ok()).ok_or(err("loop number"))?;
                        match kind {
                            "loop" => {
                                f.loops.insert(n, (it.next().map(|s| s.to_string()), String::new()));
                                *sec = Sec::Loop(n)
                            }
                            "loopbody" => *sec = Sec::LoopBody(n),
                            _ => *sec = Sec::LoopEnd(n),
                        }
                    }
                    "before" => {
                        f.before.push((arg.to_string(), String::new()));
                        *sec = Sec::Before(f.before.len() - 1)
                    }
                    "after" => {
                        f.after.push((arg.to_string(), String::new()));
                        *sec = Sec::After(f.after.len() - 1)
                    }
                    _ => return Err(err("unknown fn section")),
                }
                continue;
            }
            let tgt: &mut String = match sec {
                Sec::Head => {
                    if line.trim().is_empty() {
                        continue;
                    }
                    return Err(err("text before a section"));
                }
                Sec::Spec => &mut f.spec,
                Sec::Body => &mut f.body,
                Sec::End => &mut f.end,
                Sec::Loop(n) => &mut f.loops.get_mut(n).unwrap().1,
                Sec::LoopBody(n) => f.loopbody.entry(*n).or_default(),
                Sec::LoopEnd(n) => f.loopend.entry(*n).or_default(),
                Sec::Before(n) => &mut f.before[*n].1,
                Sec::After(n) => &mut f.after[*n].1,
            };
            tgt.push_str(line);
            tgt.push('\n');
            continue;
        }
        let tgt: &mut String = match &cur {
            Cur::None | Cur::Ignore => {
                if line.trim().is_empty() {
                    continue;
                }
                return Err(err("text outside a section"));
            }
            Cur::Root => &mut c.root,
            Cur::Mod(m) => c.mods.entry(m.clone()).or_default(),
            Cur::Trait(m) => c.traits.entry(m.clone()).or_default(),
            Cur::Impl(m) => c.impls.entry(m.clone()).or_default(),
            Cur::Weak(m) => &mut c.weak.get_mut(m).unwrap().1,
            Cur::From(m) => &mut c.froms.get_mut(m).unwrap().1,
            Cur::AsRef(m) => &mut c.asrefs.get_mut(m).unwrap().1,
            Cur::Eq(m) => c.eqs.get_mut(m).unwrap(),
            Cur::Fn(..) => unreachable!(),
        };
        tgt.push_str(line);
        tgt.push('\n');
    }
    Ok(())
}

fn split_params(s: &str) -> (String, Option<Vec<String>>) {
    match s.find('(') {
        Some(i) => {
            let k = s[..i].trim().to_string();
            let p = s[i + 1..].trim_end_matches(')').split(',').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect();
            (k, Some(p))
        }
        None => (s.trim().to_string(), None),
    }
}

/// Rename whole identifiers simultaneously.
pub fn rename(text: &str, map: &BTreeMap<String, String>) -> String {
    if map.is_empty() {
        return text.to_string();
    }
    let mut out = String::new();
    let mut cur = String::new();
    let mut prev = ' ';
    let mut pprev = ' ';
    let flush = |cur: &mut String, out: &mut String, before: char| {
        if !cur.is_empty() {
            // not a field access / method name
            match map.get(cur.as_str()) {
                Some(r) if before != '.' => out.push_str(r),
                _ => out.push_str(cur),
            }
            cur.clear();
        }
    };
    let mut before = ' ';
    for c in text.chars() {
        if c.is_alphanumeric() || c == '_' {
            if cur.is_empty() {
                before = if prev == '.' && pprev == '.' { ' ' } else { prev };
            }
            cur.push(c);
        } else {
            flush(&mut cur, &mut out, before);
            out.push(c);
        }
        pprev = prev;
        prev = c;
    }
    flush(&mut cur, &mut out, before);
    out
}
