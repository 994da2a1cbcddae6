//! Text utilities: comment stripping and span-based edits.
use proc_macro2::Span;

/// Replace every comment by blanks (newlines kept), leaving strings alone.
pub fn strip_comments(src: &str) -> String {
    let b: Vec<char> = src.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    let n = b.len();
    while i < n {
        let c = b[i];
        if c == '/' && i + 1 < n && b[i + 1] == '/' {
            while i < n && b[i] != '\n' {
                i += 1;
            }
            continue;
        }
        if c == '/' && i + 1 < n && b[i + 1] == '*' {
            let mut depth = 0;
            while i < n {
                if b[i] == '/' && i + 1 < n && b[i + 1] == '*' {
                    depth += 1;
                    i += 2;
                } else if b[i] == '*' && i + 1 < n && b[i + 1] == '/' {
                    depth -= 1;
                    i += 2;
                    if depth == 0 {
                        break;
                    }
                } else {
                    if b[i] == '\n' {
                        out.push('\n');
                    }
                    i += 1;
                }
            }
            out.push(' ');
            continue;
        }
        if c == 'r' && i + 1 < n && (b[i + 1] == '"' || b[i + 1] == '#') && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_')) {
            // raw string?
            let mut j = i + 1;
            let mut hashes = 0;
            while j < n && b[j] == '#' {
                hashes += 1;
                j += 1;
            }
            if j < n && b[j] == '"' {
                let mut k = j + 1;
                'outer: while k < n {
                    if b[k] == '"' {
                        let mut h = 0;
                        while h < hashes && k + 1 + h < n && b[k + 1 + h] == '#' {
                            h += 1;
                        }
                        if h == hashes {
                            k += 1 + hashes;
                            break 'outer;
                        }
                    }
                    k += 1;
                }
                out.extend(&b[i..k.min(n)]);
                i = k;
                continue;
            }
        }
        if c == '"' {
            out.push(c);
            i += 1;
            while i < n {
                out.push(b[i]);
                if b[i] == '\\' {
                    i += 1;
                    if i < n {
                        out.push(b[i]);
                    }
                } else if b[i] == '"' {
                    i += 1;
                    break;
                }
                i += 1;
            }
            continue;
        }
        if c == '\'' {
            // char literal or lifetime
            if i + 2 < n && (b[i + 1] == '\\' || b[i + 2] == '\'') {
                let mut k = i + 1;
                while k < n {
                    if b[k] == '\\' {
                        k += 2;
                        continue;
                    }
                    if b[k] == '\'' {
                        break;
                    }
                    k += 1;
                }
                out.extend(&b[i..(k + 1).min(n)]);
                i = k + 1;
                continue;
            }
        }
        out.push(c);
        i += 1;
    }
    out
}

pub struct Edit {
    pub start: usize,
    pub end: usize,
    pub text: String,
    pub prio: i32,
}

#[derive(Default)]
pub struct Edits(pub Vec<Edit>);

impl Edits {
    pub fn replace(&mut self, sp: Span, text: impl Into<String>) {
        let r = sp.byte_range();
        self.0.push(Edit { start: r.start, end: r.end, text: text.into(), prio: 0 });
    }
    pub fn replace_range(&mut self, s: usize, e: usize, text: impl Into<String>) {
        self.0.push(Edit { start: s, end: e, text: text.into(), prio: 0 });
    }
    pub fn insert(&mut self, at: usize, text: impl Into<String>) {
        self.0.push(Edit { start: at, end: at, text: text.into(), prio: 0 });
    }
    pub fn insert_p(&mut self, at: usize, prio: i32, text: impl Into<String>) {
        self.0.push(Edit { start: at, end: at, text: text.into(), prio });
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    /// Apply; on overlap the outer/first edit wins and the inner one is dropped
    /// (callers iterate to a fixpoint).
    pub fn apply(mut self, src: &str) -> String {
        self.0.sort_by(|a, b| {
            (a.start, a.prio, std::cmp::Reverse(a.end)).cmp(&(b.start, b.prio, std::cmp::Reverse(b.end)))
        });
        let mut out = String::new();
        let mut pos = 0;
        for e in &self.0 {
            if e.start < pos {
                continue;
            }
            out.push_str(&src[pos..e.start]);
            out.push_str(&e.text);
            pos = e.end;
        }
        out.push_str(&src[pos..]);
        out
    }
}

pub fn start(s: Span) -> usize {
    s.byte_range().start
}
pub fn end(s: Span) -> usize {
    s.byte_range().end
}

use std::cell::RefCell;
thread_local! { static PH: RefCell<Vec<String>> = RefCell::new(vec![]); }
/// Verus text that syn cannot parse travels through the passes as a
/// placeholder item and is put back at the end.
pub fn placeholder(text: String) -> String {
    PH.with(|p| {
        let mut p = p.borrow_mut();
        p.push(text);
        format!("\npub type PH__{}__ = ();\n", p.len() - 1)
    })
}
pub fn resolve_placeholders(mut s: String) -> String {
    PH.with(|p| {
        for (i, t) in p.borrow().iter().enumerate() {
            s = s.replacen(&format!("pub type PH__{}__ = ();", i), t, 1);
        }
    });
    s
}
