//! extract <repo> <contracts-dir> <out.rs> <out-map.json> [--external k1,k2] [--hint k1,k2] [--baseline f] [--vacuity]
//!
//! Mechanically turns the crate in <repo>/src into one Verus file with the
//! contracts of <contracts-dir> spliced in.  Function bodies are the text of
//! the repository after the rewrites listed in DESIGN.md.
mod bitflags;
mod contracts;
mod derive;
mod load;
mod mbe;
mod normalize;
mod rewrite;
mod splice;
mod util;
use load::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::path::Path;
use syn::visit::Visit;

fn config_text(repo: &Path, toml: &str) -> Result<String, String> {
    let template = std::fs::read_to_string(repo.join("config.rs.template")).map_err(|e| e.to_string())?;
    let t = std::fs::read_to_string(repo.join(toml)).map_err(|e| e.to_string())?;
    let mut kv: HashMap<String, String> = HashMap::new();
    let mut sec = String::new();
    for l in t.lines() {
        let l = l.split('#').next().unwrap().trim();
        if l.starts_with('[') && l.ends_with(']') {
            sec = l[1..l.len() - 1].to_string();
        } else if let Some((k, v)) = l.split_once('=') {
            kv.insert(format!("{}.{}", sec, k.trim()), v.trim().to_string());
        }
    }
    let g = |k: &str| kv.get(k).cloned().ok_or(format!("config key {} missing", k));
    let list = |k: &str| -> Result<String, String> {
        let v = g(k)?;
        let items: Vec<String> =
            v.trim_matches(|c| c == '[' || c == ']').split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
        Ok(format!("[{}]", items.join(", ")))
    };
    let params = vec![
        g("cert_chains.num_slots")?,
        g("cert_chains.buf_size")?,
        g("cert_chains.max_depth")?,
        g("transcript.buf_size")?,
        g("algorithms.max_digest_size")?,
        "64".to_string(),
        g("opaque_data.max_element_data_size")?,
        g("opaque_data.max_elements")?,
        g("measurement.max_blocks")?,
        g("measurement.max_size")?,
        list(".capabilities")?,
        list("algorithms.asymmetric_signing")?,
        String::new(),
    ];
    let mut out = String::new();
    for (s, a) in template.split("{}").zip(params) {
        out.push_str(s);
        out.push_str(&a);
    }
    Ok(util::strip_comments(&out))
}

fn rewrite_mod(m: &mut Module, ext: &HashSet<String>, log: &mut BTreeMap<String, usize>, noeq: &HashSet<String>, narrow: &HashMap<String, String>, assumed: &mut Vec<String>) -> Result<(), String> {
    for _ in 0..60 {
        let f = syn::parse_file(&m.text).map_err(|e| format!("{}: rewrite: {} at {:?}", m.file, e, e.span().start()))?;
        let text = m.text.clone();
        let mut rw = rewrite::Rw { src: &text, edits: Default::default(), ext_crates: ext, counter: 0, log: vec![] };
        rw.visit_file(&f);
        for l in rw.log.drain(..) {
            *log.entry(l).or_default() += 1;
        }
        if rw.edits.is_empty() {
            break;
        }
        let n = rw.edits.apply(&text);
        if n == text {
            break;
        }
        m.text = n;
    }
    let text = m.text.clone();
    let f = syn::parse_file(&text).map_err(|e| format!("{}: derive: {}", m.file, e))?;
    let mut dv = derive::Dv { src: &text, edits: Default::default(), no_structural_eq: noeq, narrow, assumed: vec![] };
    dv.visit_file(&f);
    assumed.append(&mut dv.assumed);
    m.text = dv.edits.apply(&text);
    for c in &mut m.children {
        rewrite_mod(c, ext, log, noeq, narrow, assumed)?;
    }
    Ok(())
}

/// Types whose equality is not structural: a manual PartialEq, or a derived one
/// over a field of such a type.
fn no_structural_eq(root: &Module, set: &mut HashSet<String>) {
    fn walk(m: &Module, defs: &mut Vec<(String, HashSet<String>)>, set: &mut HashSet<String>) {
        fn idents(ts: proc_macro2::TokenStream, o: &mut HashSet<String>) {
            for t in ts {
                match t {
                    proc_macro2::TokenTree::Ident(i) => {
                        o.insert(i.to_string());
                    }
                    proc_macro2::TokenTree::Group(g) => idents(g.stream(), o),
                    _ => (),
                }
            }
        }
        if let Ok(f) = syn::parse_file(&m.text) {
            for i in &f.items {
                let (n, fields): (String, Vec<&syn::Fields>) = match i {
                    syn::Item::Struct(s) => (s.ident.to_string(), vec![&s.fields]),
                    syn::Item::Enum(e) => (e.ident.to_string(), e.variants.iter().map(|v| &v.fields).collect()),
                    syn::Item::Impl(im) => {
                        if let (Some((_, p, _)), syn::Type::Path(t)) = (&im.trait_, &*im.self_ty) {
                            if p.segments.last().unwrap().ident == "PartialEq" {
                                set.insert(t.path.segments.last().unwrap().ident.to_string());
                            }
                        }
                        continue;
                    }
                    _ => continue,
                };
                let mut ids = HashSet::new();
                for f in fields {
                    for x in f {
                        idents(quote::ToTokens::to_token_stream(&x.ty), &mut ids);
                    }
                }
                defs.push((n, ids));
            }
        }
        for c in &m.children {
            walk(c, defs, set);
        }
    }
    let mut defs = vec![];
    walk(root, &mut defs, set);
    loop {
        let n = set.len();
        for (d, ids) in &defs {
            if ids.iter().any(|i| set.contains(i)) {
                set.insert(d.clone());
            }
        }
        if set.len() == n {
            break;
        }
    }
}

fn main() {
    if let Err(e) = run() {
        eprintln!("extract: {}", e);
        std::process::exit(3);
    }
}

fn run() -> Result<(), String> {
    let args: Vec<String> = std::env::args().collect();
    let repo = Path::new(&args[1]).to_path_buf();
    let cdir = Path::new(&args[2]).to_path_buf();
    let out = &args[3];
    let map = &args[4];
    let mut external: BTreeSet<String> = BTreeSet::new();
    let mut baseline: Option<String> = None;
    let mut vacuity = false;
    let mut hint: BTreeSet<String> = BTreeSet::new();
    let mut features: HashSet<String> =
        ["crypto-ring", "crypto", "rand", "ring", "webpki", "ring-compat"].iter().map(|s| s.to_string()).collect();
    let mut config = "spdm-config-crypto.toml".to_string();
    let mut i = 5;
    while i < args.len() {
        match args[i].as_str() {
            "--external" => {
                external = args[i + 1].split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
                i += 2;
            }
            "--hint" => {
                hint = args[i + 1].split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
                i += 2;
            }
            "--baseline" => {
                baseline = std::fs::read_to_string(&args[i + 1]).ok();
                i += 2;
            }
            "--vacuity" => {
                vacuity = true;
                i += 1;
            }
            "--features" => {
                features = args[i + 1].split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
                i += 2;
            }
            "--config" => {
                config = args[i + 1].clone();
                i += 2;
            }
            x => return Err(format!("unknown argument {}", x)),
        }
    }
    let mut c = contracts::Contracts::default();
    let mut files: Vec<_> = std::fs::read_dir(&cdir)
        .map_err(|e| e.to_string())?
        .filter_map(|e| e.ok())
        .map(|e| e.path())
        .filter(|p| p.extension().map(|x| x == "vc").unwrap_or(false))
        .collect();
    files.sort();
    for f in &files {
        let t = std::fs::read_to_string(f).map_err(|e| e.to_string())?;
        contracts::parse(&t, &f.file_name().unwrap().to_string_lossy(), &features, &mut c)?;
    }
    let mut l = Loader {
        cfg: Cfg { features },
        macros: HashMap::new(),
        config_text: config_text(&repo, &config)?,
        files: BTreeMap::new(),
        notes: vec![],
    };
    let src = repo.join("src");
    let mut root = l.load(&src, &src.join("lib.rs"), vec![])?;
    l.expand(&mut root)?;
    let ext: HashSet<String> =
        ["webpki", "ring_compat", "rand", "ring", "crypto"].iter().map(|s| s.to_string()).collect();
    let mut noeq: HashSet<String> = c.noeq.iter().cloned().collect();
    no_structural_eq(&root, &mut noeq);
    let narrow: HashMap<String, String> = c
        .narrow
        .iter()
        .map(|s| match s.split_once(' ') {
            Some((a, b)) => (a.to_string(), b.trim().to_string()),
            None => (s.clone(), "msgs".to_string()),
        })
        .collect();
    let mut log: BTreeMap<String, usize> = BTreeMap::new();
    let mut assumed = vec![];
    let base = baseline.map(|b| splice::parse_baseline(&b)).unwrap_or_default();
    let headers: HashSet<String> = base.values().flat_map(|b| b.loops.iter().cloned()).collect();
    let known = |k: &str| c.fns.contains_key(k) || base.contains_key(k);
    let mut nz = normalize::Normal::new(&known, &headers);
    if !base.is_empty() {
        nz.module(&mut root);
    }
    let touched = std::mem::take(&mut nz.touched);
    for x in nz.log {
        *log.entry(x).or_default() += 1;
    }
    rewrite_mod(&mut root, &ext, &mut log, &noeq, &narrow, &mut assumed)?;
    let mut sp = splice::Splicer { c: &c, external: &external, base: &base, vacuity, hint: &hint, info: vec![], used: BTreeSet::new(), lost: vec![] };
    let mut o = String::new();
    o.push_str("#![feature(sized_hierarchy)]\n#![allow(unused)]\n");
    o.push_str(&c.root);
    sp.emit(&root, &mut o)?;
    o.push_str("\nfn main() {}\n");
    let o = util::resolve_placeholders(o);
    std::fs::write(out, &o).map_err(|e| e.to_string())?;
    // unused contracts
    let mut unused: Vec<String> = vec![];
    for k in c.fns.keys() {
        if !sp.used.contains(&format!("fn {}", k)) {
            unused.push(k.clone());
        }
    }
    let mut missing: Vec<String> = vec![];
    for k in c.traits.keys() {
        if !sp.used.contains(&format!("trait {}", k)) {
            missing.push(format!("trait {}", k));
        }
    }
    for k in c.impls.keys() {
        if !sp.used.contains(&format!("impl {}", k)) {
            missing.push(format!("impl {}", k));
        }
    }
    for k in c.froms.keys() {
        if !sp.used.contains(&format!("from {}", k)) {
            missing.push(format!("from {}", k));
        }
    }
    for k in c.asrefs.keys() {
        if !sp.used.contains(&format!("asref {}", k)) {
            missing.push(format!("asref {}", k));
        }
    }
    for k in c.eqs.keys() {
        if !sp.used.contains(&format!("eq {}", k)) {
            missing.push(format!("eq {}", k));
        }
    }
    for k in &c.inherent {
        if !sp.used.contains(&format!("inherent {}", k)) {
            missing.push(format!("inherent {}", k));
        }
    }
    for k in c.mods.keys() {
        if !sp.used.contains(&format!("mod {}", k)) {
            missing.push(format!("mod {}", k));
        }
    }
    let j = splice::json_map(&sp, &log, &assumed, &unused, &missing, &l.notes, &touched);
    std::fs::write(map, j).map_err(|e| e.to_string())?;
    Ok(())
}
