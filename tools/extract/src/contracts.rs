//! Contract files: `=== fn KEY [-> ret]`, then requires/ensures text, then optional
//! sections `--- loop N `header``, `--- pre`, `--- post`, `--- module NAME`,
//! `--- attr TEXT`.
use std::collections::BTreeMap;

#[derive(Default, Clone)]
pub struct Contract {
    pub ret: Option<String>,
    pub spec: String,
    pub loops: BTreeMap<usize, (String, String)>,
    /// invariants for the same loop written over an index range
    pub alts: BTreeMap<usize, String>,
    pub bodies: BTreeMap<usize, String>,
    pub afters: BTreeMap<usize, String>,
    pub pre: String,
    pub post: String,
    pub attr: String,
    pub module: Option<String>,
    /// parameter names the contract text uses, in order
    pub params: Vec<String>,
}

pub fn param_names(sig: &syn::Signature) -> Vec<String> {
    sig.inputs
        .iter()
        .filter_map(|a| match a {
            syn::FnArg::Typed(t) => Some(match &*t.pat {
                syn::Pat::Ident(i) => i.ident.to_string(),
                _ => "_".to_string(),
            }),
            _ => None,
        })
        .collect()
}

/// Whole-identifier substitution (not after a dot: fields keep their names).
fn subst(t: &str, m: &[(String, String)]) -> String {
    let b: Vec<char> = t.chars().collect();
    let id = |c: char| c.is_ascii_alphanumeric() || c == '_';
    let (mut o, mut i) = (String::new(), 0);
    while i < b.len() {
        if id(b[i]) && (i == 0 || !id(b[i - 1])) {
            let mut j = i;
            while j < b.len() && id(b[j]) {
                j += 1;
            }
            let w: String = b[i..j].iter().collect();
            let field = i > 0 && b[i - 1] == '.' && (i < 2 || b[i - 2] != '.');
            match m.iter().find(|(a, _)| *a == w && !field) {
                Some((_, n)) => o.push_str(n),
                None => o.push_str(&w),
            }
            i = j;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

impl Contract {
    /// The contract with its parameter names replaced by the function's current ones.
    pub fn rename(&self, sig: &syn::Signature) -> Option<Contract> {
        let now = param_names(sig);
        if self.params.len() != now.len() || self.params == now {
            return None;
        }
        let m: Vec<(String, String)> = self.params.iter().cloned().zip(now).filter(|(a, b)| a != b && b != "_").collect();
        let mut c = self.clone();
        c.spec = subst(&c.spec, &m);
        c.pre = subst(&c.pre, &m);
        c.post = subst(&c.post, &m);
        for v in c.loops.values_mut() {
            v.1 = subst(&v.1, &m);
        }
        for v in c.alts.values_mut() {
            *v = subst(v, &m);
        }
        for v in c.bodies.values_mut().chain(c.afters.values_mut()) {
            *v = subst(v, &m);
        }
        Some(c)
    }
}

pub struct Contracts(BTreeMap<String, Contract>);

impl Contracts {
    pub fn load(paths: &str) -> Contracts {
        let mut m = BTreeMap::new();
        for path in paths.split(':') {
            let s = std::fs::read_to_string(path).unwrap();
            let mut cur: Option<(String, Contract)> = None;
            let mut sec = String::new();
            for line in s.lines() {
                if let Some(h) = line.strip_prefix("=== ") {
                    if let Some((k, c)) = cur.take() {
                        m.insert(k, c);
                    }
                    let h = h.trim();
                    let (key, ret) = match h.rsplit_once(" => ") {
                        Some((a, b)) => (a.trim().to_string(), Some(b.trim().to_string())),
                        None => (h.to_string(), None),
                    };
                    let key = key.strip_prefix("fn ").unwrap_or(&key).to_string();
                    cur = Some((key, Contract { ret, ..Default::default() }));
                    sec = "spec".into();
                } else if let Some(h) = line.strip_prefix("--- ") {
                    sec = h.trim().to_string();
                    let c = &mut cur.as_mut().unwrap().1;
                    if let Some(a) = sec.strip_prefix("attr ") {
                        c.attr.push_str(a);
                        c.attr.push('\n');
                    } else if let Some(a) = sec.strip_prefix("module ") {
                        c.module = Some(a.to_string());
                    } else if let Some(a) = sec.strip_prefix("params") {
                        c.params = a.split_whitespace().map(|s| s.to_string()).collect();
                    } else if let Some(l) = sec.strip_prefix("after ") {
                        c.afters.insert(l.trim().parse().unwrap(), String::new());
                    } else if let Some(l) = sec.strip_prefix("range ") {
                        c.alts.insert(l.trim().parse().unwrap(), String::new());
                    } else if let Some(l) = sec.strip_prefix("body ") {
                        c.bodies.insert(l.trim().parse().unwrap(), String::new());
                    } else if let Some(l) = sec.strip_prefix("loop ") {
                        let (n, h) = l.split_once(' ').unwrap_or((l, ""));
                        c.loops.insert(n.parse().unwrap(), (h.trim().trim_matches('`').to_string(), String::new()));
                    }
                } else if let Some((_, c)) = cur.as_mut() {
                    let t = if sec == "spec" {
                        &mut c.spec
                    } else if sec == "pre" {
                        &mut c.pre
                    } else if sec == "post" {
                        &mut c.post
                    } else if let Some(l) = sec.strip_prefix("after ") {
                        c.afters.get_mut(&l.trim().parse().unwrap()).unwrap()
                    } else if let Some(l) = sec.strip_prefix("range ") {
                        c.alts.get_mut(&l.trim().parse().unwrap()).unwrap()
                    } else if let Some(l) = sec.strip_prefix("body ") {
                        c.bodies.get_mut(&l.trim().parse().unwrap()).unwrap()
                    } else if let Some(l) = sec.strip_prefix("loop ") {
                        let n: usize = l.split(' ').next().unwrap().parse().unwrap();
                        &mut c.loops.get_mut(&n).unwrap().1
                    } else {
                        continue;
                    };
                    t.push_str(line);
                    t.push('\n');
                }
            }
            if let Some((k, c)) = cur.take() {
                m.insert(k, c);
            }
        }
        Contracts(m)
    }
    pub fn get(&self, k: &str) -> Option<&Contract> {
        self.0.get(k)
    }
    /// names of the functions whose loops have invariants here
    pub fn loop_fns(&self) -> std::collections::BTreeSet<String> {
        self.0.iter().filter(|(_, c)| !c.loops.is_empty()).map(|(k, _)| k.rsplit("::").next().unwrap().to_string()).collect()
    }
    pub fn keys(&self) -> impl Iterator<Item = &String> {
        self.0.keys()
    }
}
