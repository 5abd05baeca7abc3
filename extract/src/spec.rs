//! Sidecar contract files.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;

#[derive(Debug, Clone, Default)]
pub struct Entry {
    pub kind: String,
    pub pattern: String,
    pub opts: BTreeMap<String, String>,
    pub sections: BTreeMap<String, String>,
}

pub struct Specs {
    pub entries: Vec<Entry>,
    pub prelude: String,
    pub used: RefCell<BTreeSet<usize>>,
}

/// `*` matches any run of characters.
pub fn glob(p: &str, s: &str) -> bool {
    let parts: Vec<&str> = p.split('*').collect();
    if parts.len() == 1 {
        return p == s;
    }
    let mut rest = s;
    for (i, part) in parts.iter().enumerate() {
        if i == 0 {
            match rest.strip_prefix(part) {
                Some(r) => rest = r,
                None => return false,
            }
        } else if i + 1 == parts.len() {
            return rest.len() >= part.len() && rest.ends_with(part);
        } else {
            match rest.find(part) {
                Some(at) => rest = &rest[at + part.len()..],
                None => return false,
            }
        }
    }
    true
}

impl Specs {
    pub fn load(dir: &str, alloc: bool) -> Self {
        let mut names: Vec<_> = fs::read_dir(dir)
            .expect("spec dir")
            .map(|e| e.unwrap().path())
            .filter(|p| p.extension().is_some_and(|e| e == "vspec"))
            .collect();
        names.sort();
        let mut entries = Vec::new();
        for p in names {
            parse(&fs::read_to_string(&p).unwrap(), alloc, &mut entries);
        }
        let prelude = fs::read_to_string(format!("{dir}/prelude.rs"))
            .expect("prelude")
            .replace("__ALLOC__", if alloc { "true" } else { "false" });
        Specs {
            entries,
            prelude,
            used: RefCell::new(BTreeSet::new()),
        }
    }

    pub fn find(&self, kind: &str, key: &str) -> Option<&Entry> {
        for exact in [true, false] {
            for (i, e) in self.entries.iter().enumerate() {
                if e.kind == kind
                    && if exact {
                        e.pattern == key
                    } else {
                        glob(&e.pattern, key)
                    }
                {
                    self.used.borrow_mut().insert(i);
                    return Some(e);
                }
            }
        }
        None
    }

    /// Raw text of every entry of this kind that matches.
    pub fn all(&self, kind: &str, key: &str) -> String {
        let mut s = String::new();
        for (i, e) in self.entries.iter().enumerate() {
            if e.kind == kind && glob(&e.pattern, key) {
                self.used.borrow_mut().insert(i);
                s.push_str(e.sections.get("").map_or("", String::as_str));
            }
        }
        s
    }

    pub fn unused(&self) -> Vec<String> {
        let used = self.used.borrow();
        self.entries
            .iter()
            .enumerate()
            .filter(|(i, e)| !used.contains(i) && !e.opts.contains_key("optional"))
            .map(|(_, e)| format!("{} {}", e.kind, e.pattern))
            .collect()
    }
}

fn parse(text: &str, alloc: bool, entries: &mut Vec<Entry>) {
    let mut cur: Option<Entry> = None;
    let mut section = String::new();
    let mut skip = false;
    for line in text.lines() {
        if let Some(d) = line.trim_start().strip_prefix("//@") {
            let words: Vec<&str> = d.split_whitespace().collect();
            match words[0] {
                "if" => {
                    skip = (words[1] == "alloc") != alloc;
                    continue;
                }
                "endif" => {
                    skip = false;
                    continue;
                }
                _ if skip => continue,
                "mod" | "impl" | "trait" | "fn" | "const" | "drop" | "keep" | "copydefault" | "freedefault"
                | "assocbound" | "supertraits" | "external" | "private" => {
                    if let Some(e) = cur.take() {
                        entries.push(e);
                    }
                    let mut e = Entry {
                        kind: words[0].into(),
                        ..Default::default()
                    };
                    // the pattern may contain spaces ("<A as B>"); options follow `|`
                    let rest = d.trim_start()[words[0].len()..].trim();
                    let (pat, opts) = rest.split_once('|').unwrap_or((rest, ""));
                    e.pattern = pat.trim().into();
                    for o in opts.split_whitespace() {
                        let (k, v) = o.split_once('=').unwrap_or((o, ""));
                        e.opts.insert(k.into(), v.into());
                    }
                    cur = Some(e);
                    section.clear();
                }
                "spec" | "panics" | "start" | "end" | "loop" | "loopstart" | "loopend" | "loopafter" | "loophead" | "break" => {
                    section = words.join(" ");
                }
                "--" => {}
                other => panic!("unknown directive {other}"),
            }
        } else if !skip {
            if let Some(e) = &mut cur {
                let s = e.sections.entry(section.clone()).or_default();
                s.push_str(line);
                s.push('\n');
            }
        }
    }
    if let Some(e) = cur.take() {
        entries.push(e);
    }
}
