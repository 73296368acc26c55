//! Mechanical extraction of /repo's runtime (and of macro-expanded wrappers) into
//! Verus text.  The output is the source text itself, spliced: every rewrite rule
//! is listed in RULES and every application is counted in the map file.
use proc_macro2::{Span, TokenStream};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

mod contracts;
mod desugar;
mod rewrite;
use contracts::*;
use rewrite::*;

/// One named function found in the source.
pub struct FnItem<'a> {
    pub key: String,
    pub sig: &'a syn::Signature,
    pub block: &'a syn::Block,
    pub range: (usize, usize),
    pub in_trait_impl: bool,
    pub self_ty: Option<String>,
}

pub fn rng(s: Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

pub fn toks(t: &impl ToTokens) -> String {
    norm(&t.to_token_stream().to_string())
}
pub fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

#[derive(Default)]
pub struct Report {
    pub rules: BTreeMap<&'static str, usize>,
    pub dropped: Vec<String>,
    pub lost: Vec<String>,
    pub uncontracted: Vec<String>,
    pub inlined: Vec<String>,
    /// function key -> (first line, last line) in the output
    pub lines: Vec<(String, usize, usize)>,
    pub calls: BTreeMap<String, BTreeSet<String>>,
    pub hashes: BTreeMap<String, u64>,
    pub params: BTreeMap<String, String>,
}
impl Report {
    pub fn rule(&mut self, r: &'static str) {
        *self.rules.entry(r).or_default() += 1;
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args[1].as_str() {
        "runtime" => runtime(&args[2], &args[3], &args[4], &args[5]),
        "wrappers" => wrappers(&args[2], &args[3], &args[4], &args[5]),
        _ => panic!("usage"),
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn json_list<'a>(v: impl IntoIterator<Item = &'a String>) -> String {
    let v: Vec<String> = v.into_iter().map(|s| json_str(s)).collect();
    format!("[{}]", v.join(","))
}

fn write_report(rep: &Report, path: &str) {
    let mut s = String::from("{\n");
    let rules: Vec<String> = rep.rules.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect();
    let _ = writeln!(s, "\"rules\":{{{}}},", rules.join(","));
    let _ = writeln!(s, "\"dropped\":{},", json_list(&rep.dropped));
    let _ = writeln!(s, "\"lost\":{},", json_list(&rep.lost));
    let _ = writeln!(s, "\"uncontracted\":{},", json_list(&rep.uncontracted));
    let _ = writeln!(s, "\"inlined\":{},", json_list(&rep.inlined));
    let calls: Vec<String> =
        rep.calls.iter().map(|(k, v)| format!("{}:{}", json_str(k), json_list(v))).collect();
    let _ = writeln!(s, "\"calls\":{{{}}},", calls.join(",\n"));
    let hs: Vec<String> = rep.hashes.iter().map(|(k, v)| format!("{}:\"{:016x}\"", json_str(k), v)).collect();
    let _ = writeln!(s, "\"hashes\":{{{}}},", hs.join(",\n"));
    let ps: Vec<String> = rep.params.iter().map(|(k, v)| format!("{}:{}", json_str(k), json_str(v))).collect();
    let _ = writeln!(s, "\"params\":{{{}}},", ps.join(",\n"));
    let ls: Vec<String> =
        rep.lines.iter().map(|(k, a, b)| format!("[{},{},{}]", json_str(k), a, b)).collect();
    let _ = writeln!(s, "\"lines\":[{}]\n}}", ls.join(",\n"));
    std::fs::write(path, s).unwrap();
}

/// Key prefix of an impl block: `Type` or `Trait for Type`.
fn impl_key(i: &syn::ItemImpl) -> String {
    let ty = toks(&i.self_ty);
    match &i.trait_ {
        Some((_, p, _)) => {
            let seg = p.segments.last().unwrap();
            format!("{} for {}", toks(seg), ty)
        }
        None => ty,
    }
}

/// Items and functions the extraction leaves out, with the reason.
const DROP_FNS: &[(&str, &str)] = &[
    ("JitMemory::_p", "debug printing"),
    ("JitMemory::dump_code", "spawns objdump; debugging aid"),
];
const DROP_TRAITS: &[&str] = &["Display"];

pub struct Out {
    pub text: String,
    pub line: usize,
}
impl Out {
    pub fn new() -> Out {
        Out { text: String::new(), line: 1 }
    }
    pub fn put(&mut self, s: &str) {
        self.line += s.matches('\n').count();
        self.text.push_str(s);
    }
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn runtime(repo: &str, contracts: &str, out: &str, map: &str) {
    let ct = Contracts::load(contracts);
    let mut rep = Report::default();
    let mut o = Out::new();
    let mut seen: BTreeSet<String> = BTreeSet::new();
    // lib.rs and every module file it declares, except test modules (`test` holds
    // the extern "C" print helpers of the test programs)
    let (mut srcs, mut asts) = (vec![], vec![]);
    load_module(&format!("{repo}/monoasm/src/"), "lib.rs", &ct.loop_fns(), &mut rep, &mut srcs, &mut asts);
    // proc-macro2 numbers bytes over all parsed sources; rebase per file.
    let bases: Vec<usize> = asts.iter().zip(&srcs).map(|(a, s)| file_base(a, s)).collect();
    // inline modules are flattened
    for a in &mut asts {
        a.items = flatten(std::mem::take(&mut a.items));
    }

    // Pass 1: collect helper functions without a contract, candidates for inlining.
    let mut helpers: BTreeMap<String, Helper> = BTreeMap::new();
    let mut names: BTreeMap<String, usize> = BTreeMap::new();
    for (k, ast) in asts.iter().enumerate() {
        for it in &ast.items {
            let mut add = |key: String, name: String, sig: &syn::Signature, block: &syn::Block, selfty: Option<String>| {
                *names.entry(name.clone()).or_insert(0usize) += 1;
                if ct.get(&key).is_none() && !DROP_FNS.iter().any(|d| d.0 == key) {
                    if let Some(h) = Helper::new(&name, sig, block, &srcs[k], bases[k], selfty) {
                        helpers.insert(name, h);
                    }
                }
            };
            match it {
                syn::Item::Fn(f) => add(f.sig.ident.to_string(), f.sig.ident.to_string(), &f.sig, &f.block, None),
                syn::Item::Impl(i) if i.trait_.is_none() => {
                    for ii in &i.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            let key = format!("{}::{}", impl_key(i), f.sig.ident);
                            add(key, f.sig.ident.to_string(), &f.sig, &f.block, Some(toks(&i.self_ty)));
                        }
                    }
                }
                _ => {}
            }
        }
    }

    if std::env::var("NO_INLINE").is_ok() {
        helpers.clear();
    }
    helpers.retain(|n, _| names[n] == 1);
    for (k, ast) in asts.iter().enumerate() {
        let src = &srcs[k];
        let base = bases[k];
        for it in &ast.items {
            match it {
                syn::Item::Use(_) | syn::Item::ExternCrate(_) | syn::Item::Mod(_) => rep.rule("R01 drop use/mod/extern crate"),
                syn::Item::Const(c) => {
                    let r = rng(c.span());
                    let t = text(src, base, r);
                    let t = strip_vis_attrs(&t, &c.attrs, &c.vis, src, base, r);
                    o.put(&format!("pub {t}\n"));
                }
                syn::Item::Type(c) => {
                    let r = rng(c.span());
                    let t = strip_vis_attrs("", &c.attrs, &c.vis, src, base, r);
                    o.put(&format!("pub {t}\n"));
                }
                syn::Item::Struct(s) => o.put(&emit_struct(s, src, base, &mut rep)),
                syn::Item::Enum(e) => o.put(&emit_enum(e, src, base, &mut rep)),
                syn::Item::Fn(f) => {
                    let key = f.sig.ident.to_string();
                    let fi = FnItem { key: key.clone(), sig: &f.sig, block: &f.block, range: rng(f.span()), in_trait_impl: false, self_ty: None };
                    seen.insert(key);
                    emit_fn(&fi, src, base, &ct, &helpers, &mut rep, &mut o, "");
                }
                syn::Item::Impl(i) => {
                    let ik = impl_key(i);
                    if i.trait_.is_some() && DROP_TRAITS.iter().any(|t| ik == *t || ik.starts_with(&format!("{t} for"))) {
                        rep.dropped.push(format!("impl {ik}"));
                        continue;
                    }
                    if i.trait_.is_some()
                        && ct.get(&format!("impl {ik}")).is_none()
                        && !i.items.iter().any(|x| matches!(x, syn::ImplItem::Fn(f) if ct.get(&format!("{ik}::{}", f.sig.ident)).is_some()))
                        && !i.items.is_empty()
                    {
                        rep.dropped.push(format!("impl {ik} (no contract)"));
                        continue;
                    }
                    // optional extra Verus items in front of the impl block
                    if let Some(c) = ct.get(&format!("impl {ik}")) {
                        o.put(&c.spec);
                        seen.insert(format!("impl {ik}"));
                    }
                    let head = {
                        let (a, _) = rng(i.impl_token.span());
                        let (b, _) = rng(i.brace_token.span.open());
                        text(src, base, (a, b))
                    };
                    o.put(&format!("{} {{\n", rewrite_plain(&head, &mut rep)));
                    for ii in &i.items {
                        match ii {
                            syn::ImplItem::Fn(f) => {
                                let key = format!("{}::{}", ik, f.sig.ident);
                                if let Some(d) = DROP_FNS.iter().find(|d| d.0 == key) {
                                    rep.dropped.push(format!("{key} ({})", d.1));
                                    continue;
                                }
                                let fi = FnItem {
                                    key: key.clone(),
                                    sig: &f.sig,
                                    block: &f.block,
                                    range: rng(f.span()),
                                    in_trait_impl: i.trait_.is_some(),
                                    self_ty: Some(toks(&i.self_ty)),
                                };
                                if i.trait_.is_none() && ct.get(&key).is_none() && helpers.contains_key(&f.sig.ident.to_string()) {
                                    rep.inlined.push(key);
                                    continue;
                                }
                                seen.insert(key);
                                emit_fn(&fi, src, base, &ct, &helpers, &mut rep, &mut o, "    ");
                            }
                            syn::ImplItem::Type(t) => {
                                o.put(&format!("    {}\n", text(src, base, rng(t.span()))));
                            }
                            syn::ImplItem::Const(t) => {
                                let t = text(src, base, rng(t.span()));
                                o.put(&format!("    {}{}\n", if t.starts_with("pub") { "" } else { "pub " }, t));
                            }
                            _ => {}
                        }
                    }
                    o.put("}\n\n");
                }
                _ => rep.dropped.push("other item".into()),
            }
        }
    }
    for k in ct.keys() {
        if !seen.contains(k) {
            rep.lost.push(format!("contract for missing item: {k}"));
        }
    }
    std::fs::write(out, o.text.replace(rewrite::KEEP_SELF, "self")).unwrap();
    write_report(&rep, map);
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("test") || (a.path().is_ident("cfg") && toks(&a.meta).contains("test")))
}

fn load_module(dir: &str, file: &str, keep: &BTreeSet<String>, rep: &mut Report, srcs: &mut Vec<String>, asts: &mut Vec<syn::File>) {
    let Ok(src) = std::fs::read_to_string(format!("{dir}{file}")) else { return };
    let src = desugar::desugar(src, keep, rep);
    let ast = syn::parse_file(&src).unwrap_or_else(|e| panic!("{file}: {e}"));
    let mods: Vec<String> = ast
        .items
        .iter()
        .filter_map(|i| match i {
            syn::Item::Mod(m) if m.content.is_none() && !is_test(&m.attrs) && m.ident != "test" => Some(m.ident.to_string()),
            _ => None,
        })
        .collect();
    srcs.push(src);
    asts.push(ast);
    let sub = if file == "lib.rs" || file == "mod.rs" { dir.to_string() } else { format!("{dir}{}/", file.trim_end_matches(".rs")) };
    for m in mods {
        let p = format!("{sub}{m}.rs");
        if std::path::Path::new(&p).exists() {
            load_module(&sub, &format!("{m}.rs"), keep, rep, srcs, asts);
        } else {
            load_module(&format!("{sub}{m}/"), "mod.rs", keep, rep, srcs, asts);
        }
    }
}

fn flatten(items: Vec<syn::Item>) -> Vec<syn::Item> {
    let mut v = vec![];
    for i in items {
        match i {
            syn::Item::Mod(mut m) if m.content.is_some() && !is_test(&m.attrs) => v.extend(flatten(m.content.take().unwrap().1)),
            syn::Item::Fn(f) if is_test(&f.attrs) => {}
            syn::Item::Impl(f) if is_test(&f.attrs) => {}
            i => v.push(i),
        }
    }
    v
}

/// Byte offset of the start of this file in proc-macro2's source map.
pub fn file_base(ast: &syn::File, src: &str) -> usize {
    // first item's span start vs. its position in the text
    let sp = ast.items.first().map(|i| i.span()).unwrap();
    let (a, _) = rng(sp);
    let lc = sp.start();
    let mut off = 0;
    for (n, l) in src.split_inclusive('\n').enumerate() {
        if n + 1 == lc.line {
            off += l.char_indices().nth(lc.column).map(|x| x.0).unwrap_or(0);
            break;
        }
        off += l.len();
    }
    a - off
}

pub fn text(src: &str, base: usize, r: (usize, usize)) -> String {
    src[r.0 - base..r.1 - base].to_string()
}

fn strip_vis_attrs(_t: &str, attrs: &[syn::Attribute], vis: &syn::Visibility, src: &str, base: usize, r: (usize, usize)) -> String {
    let mut start = r.0;
    for a in attrs {
        start = start.max(rng(a.span()).1);
    }
    if !matches!(vis, syn::Visibility::Inherited) {
        start = start.max(rng(vis.span()).1);
    }
    text(src, base, (start, r.1)).trim_start().to_string()
}

fn derives(attrs: &[syn::Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            if let syn::Meta::List(l) = &a.meta {
                for p in l.tokens.to_string().split(',') {
                    v.push(norm(p));
                }
            }
        }
    }
    v
}

fn derive_text(name: &str, attrs: &[syn::Attribute], rep: &mut Report) -> String {
    rep.rule("R03 derive list -> verifier's derives");
    let d = derives(attrs);
    let has = |s: &str| d.iter().any(|x| x == s);
    if has("Copy") && has("PartialEq") {
        "#[derive(Copy, Clone, PartialEq, Eq, Structural)]\n".into()
    } else if has("Copy") {
        "#[derive(Copy, Clone)]\n".into()
    } else {
        let _ = name;
        String::new()
    }
}

fn emit_struct(s: &syn::ItemStruct, src: &str, base: usize, rep: &mut Report) -> String {
    rep.rule("R02 items and fields made pub");
    let name = s.ident.to_string();
    let mut o = derive_text(&name, &s.attrs, rep);
    let fields: Vec<String> = s
        .fields
        .iter()
        .map(|f| {
            let ty = rewrite_plain(&text(src, base, rng(f.ty.span())), rep);
            match &f.ident {
                Some(i) => format!("pub {i}: {ty}"),
                None => format!("pub {ty}"),
            }
        })
        .collect();
    match &s.fields {
        syn::Fields::Named(_) => {
            let mut fields = fields;
            if name == "MemPage" {
                rep.rule("R12 ghost memory field in MemPage");
                fields.push("pub mem: Ghost<Seq<u8>>".into());
            }
            let _ = write!(o, "pub struct {name} {{\n    {},\n}}\n\n", fields.join(",\n    "));
        }
        syn::Fields::Unnamed(_) => {
            let _ = write!(o, "pub struct {name}({});\n\n", fields.join(", "));
        }
        syn::Fields::Unit => {
            let _ = write!(o, "pub struct {name};\n\n");
        }
    }
    if derives(&s.attrs).iter().any(|d| d == "Default") && toks(&s.fields).contains("Vec<") {
        rep.rule("R03b derive(Default) of a Vec newtype written out");
        let _ = write!(
            o,
            "impl Default for {name} {{\n    fn default() -> (r: Self) ensures r.0@ == Seq::<LabelInfo>::empty() {{ {name}(vec![]) }}\n}}\n\n"
        );
    }
    o
}

fn emit_enum(e: &syn::ItemEnum, src: &str, base: usize, rep: &mut Report) -> String {
    rep.rule("R02 items and fields made pub");
    let mut o = derive_text(&e.ident.to_string(), &e.attrs, rep);
    let vars: Vec<String> = e
        .variants
        .iter()
        .map(|v| {
            let f = text(src, base, rng(v.fields.span()));
            if matches!(v.fields, syn::Fields::Unit) {
                v.ident.to_string()
            } else {
                format!("{}{}", v.ident, f)
            }
        })
        .collect();
    let _ = write!(o, "pub enum {} {{\n    {},\n}}\n\n", e.ident, vars.join(",\n    "));
    o
}

#[allow(clippy::too_many_arguments)]
fn emit_fn(f: &FnItem, src: &str, base: usize, ct: &Contracts, helpers: &BTreeMap<String, Helper>, rep: &mut Report, o: &mut Out, ind: &str) {
    let c = ct.get(&f.key);
    if c.is_none() {
        rep.uncontracted.push(f.key.clone());
    }
    rep.params.insert(f.key.clone(), param_names(f.sig).join(" "));
    rep.hashes.insert(f.key.clone(), fnv(&toks(f.block)));
    let mut calls = CallCollect::default();
    calls.visit_block(f.block);
    rep.calls.insert(f.key.clone(), calls.names);
    let line0 = o.line;
    let t = render_fn(f, src, base, c, helpers, rep, ind);
    o.put(&t);
    rep.lines.push((f.key.clone(), line0, o.line - 1));
}

#[derive(Default)]
struct CallCollect {
    names: BTreeSet<String>,
}
impl<'a> Visit<'a> for CallCollect {
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        self.names.insert(m.method.to_string());
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
        if p.path.segments.len() >= 1 {
            self.names.insert(toks(&p.path));
        }
    }
    fn visit_expr_index(&mut self, p: &'a syn::ExprIndex) {
        self.names.insert("[]".into());
        visit::visit_expr_index(self, p);
    }
}

/// Splice macro-expanded wrapper bodies under generated contracts.
/// `expanded`: output of rustc -Zunpretty=expanded; `contracts`: === fn sections.
fn wrappers(expanded: &str, contracts: &str, out: &str, map: &str) {
    let ct = Contracts::load(contracts);
    let src = std::fs::read_to_string(expanded).unwrap();
    let ast = syn::parse_file(&src).unwrap_or_else(|e| panic!("expanded: {e}"));
    let base = file_base(&ast, &src);
    let mut rep = Report::default();
    let mut o = Out::new();
    let mut seen = BTreeSet::new();
    let helpers = BTreeMap::new();
    fn walk(items: &[syn::Item], f: &mut dyn FnMut(&syn::ItemFn)) {
        for i in items {
            match i {
                syn::Item::Fn(x) => f(x),
                syn::Item::Mod(m) => {
                    if let Some((_, its)) = &m.content {
                        walk(its, f)
                    }
                }
                _ => {}
            }
        }
    }
    let mut fns = vec![];
    walk(&ast.items, &mut |f| fns.push(f.clone()));
    let mut cur_mod = String::new();
    for f in &fns {
        let key = f.sig.ident.to_string();
        let Some(c) = ct.get(&key) else { continue };
        seen.insert(key.clone());
        let m = c.module.clone().unwrap_or_default();
        if m != cur_mod {
            if !cur_mod.is_empty() {
                o.put("}\n");
            }
            if !m.is_empty() {
                let g = if m.ends_with("_seq") { "group_seq" } else { "group_asm" };
                o.put(&format!("pub mod {m} {{\nuse super::*;\nbroadcast use super::{g};\n"));
            }
            cur_mod = m;
        }
        let fi = FnItem { key, sig: &f.sig, block: &f.block, range: rng(f.span()), in_trait_impl: false, self_ty: None };
        emit_fn(&fi, &src, base, &ct, &helpers, &mut rep, &mut o, "");
    }
    if !cur_mod.is_empty() {
        o.put("}\n");
    }
    for k in ct.keys() {
        if !seen.contains(k) {
            rep.lost.push(format!("wrapper missing from expansion: {k}"));
        }
    }
    std::fs::write(out, o.text.replace(rewrite::KEEP_SELF, "self")).unwrap();
    write_report(&rep, map);
}

#[allow(dead_code)]
fn unused(_: TokenStream) {}
