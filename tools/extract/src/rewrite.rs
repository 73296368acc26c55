//! The rewrite rules.  Everything not named here is copied byte for byte.
use crate::contracts::Contract;
use crate::*;

pub enum Part {
    T(String),
    H((usize, usize)),
}
pub struct Edit {
    pub r: (usize, usize),
    pub parts: Vec<Part>,
}

pub fn render(src: &str, base: usize, r: (usize, usize), edits: &[Edit], skip: Option<usize>) -> String {
    // outermost edits inside r
    let mut inside: Vec<usize> = (0..edits.len())
        .filter(|&i| Some(i) != skip && edits[i].r.0 >= r.0 && edits[i].r.1 <= r.1)
        .filter(|&i| match skip {
            Some(s) => edits[i].r != edits[s].r || i > s,
            None => true,
        })
        .collect();
    // a zero-width edit in front of a replaced range is rendered with the outer text
    inside.retain(|&i| !(edits[i].r.0 == edits[i].r.1 && skip.is_some_and(|s| edits[s].r.0 == edits[i].r.0 && edits[s].r.1 > edits[s].r.0)));
    inside.sort_by_key(|&i| (edits[i].r.0, edits[i].r.0 != edits[i].r.1, usize::MAX - edits[i].r.1, i));
    let mut out = String::new();
    let mut pos = r.0;
    for i in inside {
        let e = &edits[i];
        if e.r.0 < pos {
            continue;
        }
        out.push_str(&src[pos - base..e.r.0 - base]);
        for p in &e.parts {
            match p {
                Part::T(t) => out.push_str(t),
                Part::H(h) => out.push_str(&render(src, base, *h, edits, Some(i))),
            }
        }
        pos = e.r.1;
    }
    out.push_str(&src[pos - base..r.1 - base]);
    out
}

/// Type-level rewriting of text outside function bodies.
pub fn rewrite_plain(s: &str, rep: &mut Report) -> String {
    let mut t = s.to_string();
    for (a, b, rule) in [
        ("*mut u8", "usize", "R04 raw pointer -> address (usize)"),
        ("std::num::NonZero<", "NonZero<", "R20 std::num::NonZero -> specified NonZero"),
    ] {
        if t.contains(a) {
            rep.rule(rule);
            t = t.replace(a, b);
        }
    }
    t
}

#[derive(Clone)]
pub struct Helper {
    pub name: String,
    pub params: Vec<(String, String)>,
    pub has_self: bool,
    pub self_mut: bool,
    pub block: syn::Block,
    pub src: String,
    pub base: usize,
    pub self_ty: Option<String>,
    pub ret: bool,
}
struct Scan {
    bad: bool,
    name: String,
}
impl<'a> Visit<'a> for Scan {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.bad = true;
    }
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
        self.bad = true;
    }
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        if m.method == self.name {
            self.bad = true;
        }
        visit::visit_expr_method_call(self, m);
    }
}
impl Helper {
    pub fn new(name: &str, sig: &syn::Signature, block: &syn::Block, src: &str, base: usize, self_ty: Option<String>) -> Option<Helper> {
        if !sig.generics.params.is_empty() {
            return None;
        }
        let mut sc = Scan { bad: false, name: name.to_string() };
        sc.visit_block(block);
        if sc.bad {
            return None;
        }
        let mut params = vec![];
        let mut has_self = false;
        let mut self_mut = false;
        for i in &sig.inputs {
            match i {
                syn::FnArg::Receiver(r) => {
                    has_self = true;
                    self_mut = r.mutability.is_some();
                }
                syn::FnArg::Typed(t) => {
                    if toks(&t.ty).contains("impl") {
                        return None;
                    }
                    params.push((text(src, base, rng(t.pat.span())), text(src, base, rng(t.ty.span()))));
                }
            }
        }
        Some(Helper {
            name: name.to_string(),
            params,
            has_self,
            self_mut,
            block: block.clone(),
            src: src.to_string(),
            base,
            self_ty,
            ret: !matches!(sig.output, syn::ReturnType::Default),
        })
    }
    /// The helper's body, rewritten; loops in it continue the caller's loop numbering.
    fn body(&self, helpers: &BTreeMap<String, Helper>, rep: &mut Report, depth: usize, ct: Option<&Contract>, loops: &mut usize, lost: &mut Vec<String>) -> String {
        let mut rw = Rw::new(&self.src, self.base, ct, helpers, rep, depth + 1);
        rw.loops = *loops;
        rw.visit_block(&self.block);
        *loops = rw.loops;
        lost.append(&mut rw.lost);
        let edits = std::mem::take(&mut rw.edits);
        let (a, b) = rng(self.block.span());
        render(&self.src, self.base, (a + 1, b - 1), &edits, None)
    }
}

pub const KEEP_SELF: &str = "\u{17f}elf";
/// A place expression without effects: the helper's self may be replaced by its text.
fn pure_place(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Path(_) | syn::Expr::Lit(_) => true,
        syn::Expr::Field(f) => pure_place(&f.base),
        syn::Expr::Index(i) => pure_place(&i.expr) && pure_place(&i.index),
        syn::Expr::Paren(p) => pure_place(&p.expr),
        syn::Expr::Call(c) => toks(&c.func) == "Page" && c.args.iter().all(pure_place),
        _ => false,
    }
}
/// value and type suffix of an expression over integer literals
pub fn konst(e: &syn::Expr) -> Option<(u128, String)> {
    match e {
        syn::Expr::Lit(l) => match &l.lit {
            syn::Lit::Int(i) => Some((i.base10_parse().ok()?, i.suffix().to_string())),
            _ => None,
        },
        syn::Expr::Paren(p) => konst(&p.expr),
        syn::Expr::Group(g) => konst(&g.expr),
        syn::Expr::Cast(c) => {
            let (v, _) = konst(&c.expr)?;
            let t = toks(&c.ty);
            (v <= max_of(&t)).then_some((v, t))
        }
        syn::Expr::Binary(b) => {
            let ((x, s), (y, t)) = (konst(&b.left)?, konst(&b.right)?);
            use syn::BinOp::*;
            let v = match b.op {
                BitOr(_) => x | y,
                BitAnd(_) => x & y,
                BitXor(_) => x ^ y,
                Add(_) => x.checked_add(y)?,
                Mul(_) => x.checked_mul(y)?,
                Sub(_) => x.checked_sub(y)?,
                Shl(_) if y < 64 => x.checked_mul(1 << y)?,
                Shr(_) if y < 64 => x >> y,
                _ => return None,
            };
            let s = if s.is_empty() && !matches!(b.op, Shl(_) | Shr(_)) { t } else { s };
            (v <= max_of(&s)).then_some((v, s))
        }
        _ => None,
    }
}
fn max_of(t: &str) -> u128 {
    match t {
        "u8" => 0xff,
        "u16" => 0xffff,
        "u32" => 0xffff_ffff,
        "u64" | "usize" => u64::MAX as u128,
        "i16" => 0x7fff,
        "i32" => 0x7fff_ffff,
        "i64" | "isize" => i64::MAX as u128,
        _ => 0x7f,
    }
}
fn replace_self(t: &str, with: &str) -> String {
    let b = t.as_bytes();
    let mut o = String::new();
    let mut i = 0;
    let id = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    while i < b.len() {
        if t[i..].starts_with("self") && (i == 0 || !id(b[i - 1])) && (i + 4 >= b.len() || !id(b[i + 4])) {
            o.push_str(with);
            i += 4;
        } else {
            let c = t[i..].chars().next().unwrap();
            o.push(c);
            i += c.len_utf8();
        }
    }
    o
}

/// `self` used as a whole, other than through a field, an index or a method
fn bare_self(t: &str) -> bool {
    let id = |c: char| c.is_ascii_alphanumeric() || c == '_';
    t.match_indices("self").any(|(i, _)| {
        let before = t[..i].chars().last();
        let after = t[i + 4..].trim_start().chars().next();
        let whole = !before.is_some_and(id) && !t[i + 4..].chars().next().is_some_and(id);
        whole && !matches!(after, Some('.') | Some('['))
    })
}

pub struct Rw<'a> {
    pub src: &'a str,
    pub base: usize,
    pub edits: Vec<Edit>,
    pub ct: Option<&'a Contract>,
    pub helpers: &'a BTreeMap<String, Helper>,
    pub rep: &'a mut Report,
    unsafe_depth: usize,
    loops: usize,
    lost: Vec<String>,
    fnptrs: BTreeMap<String, Vec<String>>,
    depth: usize,
    pub os: bool,
    pub in_deref: bool,
    /// closures that a rule has turned into plain code
    done: Vec<(usize, usize)>,
    /// locals bound to a pointer cast, with the pointer type
    ptrs: BTreeMap<String, String>,
    /// the signature has a parameter of type `impl Into<Rm>`
    into_rm: bool,
}

/// `[a, b, ..].iter()` / `.into_iter()` over effect-free elements: the elements, and
/// whether they are handed out by reference.
fn array_iter(e: &syn::Expr) -> Option<(Vec<&syn::Expr>, bool)> {
    let syn::Expr::MethodCall(m) = e else { return None };
    let by_ref = match m.method.to_string().as_str() {
        "iter" => true,
        "into_iter" => false,
        _ => return None,
    };
    let mut r = &*m.receiver;
    while let syn::Expr::Paren(p) = r {
        r = &p.expr;
    }
    let syn::Expr::Array(a) = r else { return None };
    let v: Vec<&syn::Expr> = a.elems.iter().collect();
    if v.is_empty() || v.len() > 16 || !v.iter().all(|x| pure_place(x)) {
        return None;
    }
    Some((v, by_ref))
}
fn is_panic_expr(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Macro(m) => matches!(m.mac.path.segments.last().unwrap().ident.to_string().as_str(), "panic" | "unreachable" | "unimplemented" | "todo"),
        syn::Expr::Call(c) => matches!(&*c.func, syn::Expr::Path(p) if is_core_panic(&p.path)),
        syn::Expr::Block(b) => match b.block.stmts.as_slice() {
            [syn::Stmt::Expr(e, _)] => is_panic_expr(e),
            [syn::Stmt::Macro(m)] => matches!(m.mac.path.segments.last().unwrap().ident.to_string().as_str(), "panic" | "unreachable" | "unimplemented" | "todo"),
            _ => false,
        },
        _ => false,
    }
}

impl<'a> Rw<'a> {
    pub fn new(src: &'a str, base: usize, ct: Option<&'a Contract>, helpers: &'a BTreeMap<String, Helper>, rep: &'a mut Report, depth: usize) -> Rw<'a> {
        Rw { src, base, edits: vec![], ct, helpers, rep, unsafe_depth: 0, loops: 0, lost: vec![], fnptrs: BTreeMap::new(), depth, os: false, in_deref: false, done: vec![], ptrs: BTreeMap::new(), into_rm: false }
    }
    fn edit(&mut self, rule: &'static str, r: (usize, usize), parts: Vec<Part>) {
        self.rep.rule(rule);
        self.edits.push(Edit { r, parts });
    }
    fn mac(&mut self, m: &syn::Macro, whole: (usize, usize), stmt: bool) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        match name.as_str() {
            "panic" | "unimplemented" | "unreachable" | "todo" => {
                self.edit("R07 panic!/unreachable!/.. -> vpanic()", whole, vec![Part::T("vpanic()".into())]);
            }
            "assert" | "debug_assert" | "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
                let args = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated);
                if let Ok(args) = args {
                    let args: Vec<syn::Expr> = args.into_iter().collect();
                    for a in &args {
                        // the AST is a copy, spans are the original ones
                        let a: &syn::Expr = a;
                        self.visit_expr(unsafe { &*(a as *const syn::Expr) });
                    }
                    let mut parts = vec![Part::T("if !(".into()), Part::H(rng(args[0].span()))];
                    if name.ends_with("_eq") || name.ends_with("_ne") {
                        parts.push(Part::T(if name.ends_with("_eq") { " == ".into() } else { " != ".into() }));
                        parts.push(Part::H(rng(args[1].span())));
                    }
                    parts.push(Part::T(if stmt { ") { vpanic() }".into() } else { ") { vpanic() }".into() }));
                    self.edit("R07b assert! -> if !c { vpanic() }", whole, parts);
                }
            }
            _ => {}
        }
    }
    fn loop_contract(&mut self, iter: Option<&syn::Expr>, pat: Option<&syn::Pat>, for_tok: (usize, usize), body: (usize, usize)) {
        let n = self.loops;
        self.loops += 1;
        let Some(c) = self.ct else { return };
        let Some((hdr, inv)) = c.loops.get(&n) else {
            self.lost.push(format!("loop {n} has no invariant"));
            return;
        };
        let kind = if iter.is_some() { "for" } else { "while" };
        let it = iter.map(|e| toks(e)).unwrap_or_default();
        let want = norm(hdr);
        let ok = if want.is_empty() { kind == "for" } else if let Some(w) = want.strip_prefix("while") { kind == "while" && w == it } else { kind == "for" && (want == "*" || want == it) };
        if !ok {
            self.lost.push(format!("loop {n}: expected `{hdr}`, found {kind} `{it}`"));
            return;
        }
        let mut inv = match (iter, c.alts.get(&n)) {
            (Some(syn::Expr::Range(_)), Some(a)) => a.clone(),
            _ => inv.clone(),
        };
        if let Some(p) = pat {
            let mut ids = PatIds(vec![]);
            ids.visit_pat(p);
            for (i, id) in ids.0.iter().enumerate() {
                inv = inv.replace(&format!("$p{i}"), id);
            }
        }
        if let Some(e) = iter {
            let r = rng(e.span());
            self.edits.push(Edit { r: (r.0, r.0), parts: vec![Part::T(format!("__it{n}: "))] });
        }
        let _ = for_tok;
        // annotations speak about the caller's self, also inside an inlined helper
        let keep = |t: &str| replace_self(t, KEEP_SELF);
        self.edits.push(Edit { r: (body.0, body.0), parts: vec![Part::T(format!("\n{}\n", keep(&inv)))] });
        if let Some(b) = c.bodies.get(&n) {
            self.edits.push(Edit { r: (body.0 + 1, body.0 + 1), parts: vec![Part::T(format!("\n{}\n", keep(b)))] });
        }
        if let Some(b) = c.afters.get(&n) {
            self.edits.push(Edit { r: (body.1, body.1), parts: vec![Part::T(format!("\n{}\n", keep(b)))] });
        }
        self.rep.rule("A2 loop invariant inserted");
    }
    /// the pointed-to type of a pointer expression, if it is a 4-byte one
    fn word_ptr(&self, e: &syn::Expr) -> Option<String> {
        let t = match e {
            syn::Expr::Paren(p) => return self.word_ptr(&p.expr),
            syn::Expr::Cast(c) => toks(&c.ty),
            syn::Expr::MethodCall(m) if m.method == "cast" => {
                let a = m.turbofish.as_ref()?;
                format!("*mut{}", toks(&a.args))
            }
            syn::Expr::Path(p) => self.ptrs.get(&toks(&p.path))?.clone(),
            _ => return None,
        };
        matches!(t.as_str(), "*mut[u8;4]" | "*muti32" | "*mutu32").then_some(t)
    }
    fn word_value(&self, ptr: &syn::Expr, v: &syn::Expr) -> Vec<Part> {
        let h = Part::H(rng(v.span()));
        if self.word_ptr(ptr).as_deref() == Some("*mut[u8;4]") {
            vec![h]
        } else {
            vec![Part::T("(".into()), h, Part::T(").host_bytes()".into())]
        }
    }
    fn store4(&mut self, whole: (usize, usize), ptr: &syn::Expr, v: Vec<Part>) {
        let mut parts = vec![Part::T("raw_store4(self, ".into()), Part::H(rng(ptr.span())), Part::T(", ".into())];
        parts.extend(v);
        parts.push(Part::T(")".into()));
        self.edit("R16 four bytes stored through a pointer -> raw_store4(self, addr, b)", whole, parts);
    }
    fn inline(&mut self, h: &Helper, recv: Option<&syn::Expr>, args: &[&syn::Expr], whole: (usize, usize)) {
        let h = h.clone();
        let mut body = h.body(self.helpers, self.rep, self.depth, self.ct, &mut self.loops, &mut self.lost);
        if let Some(st) = &h.self_ty {
            body = body.replace("Self::", &format!("{st}::"));
        }
        let mut parts = vec![Part::T("{ ".into())];
        for (i, a) in args.iter().enumerate() {
            parts.push(Part::T(format!("let __inl{}_{i}: {} = ", self.depth, rewrite_plain(&h.params[i].1, self.rep))));
            parts.push(Part::H(rng(a.span())));
            parts.push(Part::T("; ".into()));
        }
        for (i, p) in h.params.iter().enumerate() {
            parts.push(Part::T(format!("let {} = __inl{}_{i}; ", p.0, self.depth)));
        }
        if let Some(rv) = recv {
            if toks(rv) != "self" {
                let mut ids = PatIds(h.params.iter().map(|p| p.0.clone()).collect());
                ids.visit_block(&h.block);
                let mut used = Names(vec![]);
                used.visit_expr(rv);
                if pure_place(rv) && !bare_self(&body) && !used.0.iter().any(|n| ids.0.contains(n)) {
                    // a local or a place expression: the place itself serves
                    let t = text(self.src, self.base, rng(rv.span()));
                    body = replace_self(&body, &t);
                } else {
                    parts.push(Part::T(if h.self_mut { "let __recv = &mut " } else { "let __recv = &" }.into()));
                    parts.push(Part::H(rng(rv.span())));
                    parts.push(Part::T("; ".into()));
                    body = replace_self(&body, "__recv");
                }
            }
        }
        parts.push(Part::T(body));
        parts.push(Part::T(" }".into()));
        self.edit("R30 call of an uncontracted helper inlined", whole, parts);
    }
}

/// `b` in `b.as_ptr()`
fn as_ptr_of(e: &syn::Expr) -> Option<&syn::Expr> {
    match e {
        syn::Expr::MethodCall(m) if m.method == "as_ptr" && m.args.is_empty() => Some(&m.receiver),
        _ => None,
    }
}
/// the address under a pointer cast
fn strip_ptr_cast(e: &syn::Expr) -> &syn::Expr {
    match e {
        syn::Expr::Paren(p) => strip_ptr_cast(&p.expr),
        syn::Expr::Cast(c) if matches!(&*c.ty, syn::Type::Ptr(_)) => strip_ptr_cast(&c.expr),
        syn::Expr::MethodCall(m) if m.method == "cast" => strip_ptr_cast(&m.receiver),
        e => e,
    }
}

struct PatIds(Vec<String>);
impl<'a> Visit<'a> for PatIds {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.0.push(p.ident.to_string());
    }
}

struct Names(Vec<String>);
impl<'a> Visit<'a> for Names {
    fn visit_ident(&mut self, i: &'a proc_macro2::Ident) {
        self.0.push(i.to_string());
    }
}

fn is_core_panic(p: &syn::Path) -> bool {
    let t = toks(p);
    let t = t.trim_start_matches("::");
    t.starts_with("core::panicking::") || t.starts_with("std::rt::panic") || t.starts_with("std::rt::begin_panic")
}

impl<'a, 'b> Visit<'b> for Rw<'a> {
    fn visit_expr_binary(&mut self, e: &'b syn::ExprBinary) {
        use syn::BinOp::*;
        if matches!(e.op, BitOr(_) | BitAnd(_) | BitXor(_) | Shl(_) | Shr(_)) {
            if let Some((v, s)) = konst(&syn::Expr::Binary(e.clone())) {
                self.edit("R32 bit operation on integer literals evaluated", rng(e.span()), vec![Part::T(format!("{v}{s}"))]);
                return;
            }
        }
        if matches!(e.op, Shl(_) | Shr(_)) && !matches!(&*e.right, syn::Expr::Lit(_)) {
            if let Some((v, s)) = konst(&e.right) {
                let l = rng(e.left.span());
                let rule = "R32 bit operation on integer literals evaluated";
                if v == 0 {
                    self.edit(rule, rng(e.span()), vec![Part::T("(".into()), Part::H(l), Part::T(")".into())]);
                } else {
                    self.edit(rule, rng(e.right.span()), vec![Part::T(format!("{v}{s}"))]);
                }
                self.visit_expr(&e.left);
                return;
            }
        }
        visit::visit_expr_binary(self, e);
    }
    fn visit_expr_unsafe(&mut self, u: &'b syn::ExprUnsafe) {
        let r = rng(u.unsafe_token.span());
        self.edit("R05 unsafe block -> plain block", r, vec![]);
        self.unsafe_depth += 1;
        visit::visit_expr_unsafe(self, u);
        self.unsafe_depth -= 1;
    }
    fn visit_type_ptr(&mut self, t: &'b syn::TypePtr) {
        self.edit("R04 raw pointer -> address (usize)", rng(t.span()), vec![Part::T("usize".into())]);
    }
    fn visit_type_bare_fn(&mut self, t: &'b syn::TypeBareFn) {
        self.edit("R14 fn-pointer type -> address (usize)", rng(t.span()), vec![Part::T("usize".into())]);
    }
    fn visit_type_impl_trait(&mut self, t: &'b syn::TypeImplTrait) {
        if toks(t) == "implInto<Rm>" {
            self.into_rm = true;
            self.edit("R13 impl Into<Rm> -> impl IntoRm", rng(t.span()), vec![Part::T("impl IntoRm".into())]);
        }
    }
    fn visit_path(&mut self, p: &'b syn::Path) {
        let t = toks(p);
        if t.starts_with("std::num::NonZero") {
            let segs: Vec<_> = p.segments.iter().collect();
            let a = rng(p.span()).0;
            let b = rng(segs[2].ident.span()).0;
            self.edit("R20 std::num::NonZero -> specified NonZero", (a, b), vec![]);
        }
        visit::visit_path(self, p);
    }
    fn visit_expr_reference(&mut self, e: &'b syn::ExprReference) {
        if self.unsafe_depth > 0 {
            if let syn::Expr::Unary(u) = &*e.expr {
                if matches!(u.op, syn::UnOp::Deref(_)) {
                    let f = if e.mutability.is_some() { "raw_byte_mut" } else { "raw_byte" };
                    self.edit(
                        "R06 &[mut] *ptr -> raw_byte[_mut](self, addr)",
                        rng(e.span()),
                        vec![Part::T("{ let __p = ".into()), Part::H(rng(u.expr.span())), Part::T(format!("; {f}(self, __p) }}"))],
                    );
                }
            }
        }
        visit::visit_expr_reference(self, e);
    }
    fn visit_expr_assign(&mut self, e: &'b syn::ExprAssign) {
        if self.unsafe_depth > 0 {
            if let syn::Expr::Unary(u) = &*e.left {
                if matches!(u.op, syn::UnOp::Deref(_)) && self.word_ptr(&u.expr).as_deref() == Some("*mut[u8;4]") {
                    let v = self.word_value(&u.expr, &e.right);
                    self.store4(rng(e.span()), strip_ptr_cast(&u.expr), v);
                }
            }
        }
        visit::visit_expr_assign(self, e);
    }
    fn visit_expr_macro(&mut self, m: &'b syn::ExprMacro) {
        self.mac(&m.mac, rng(m.span()), false);
    }
    fn visit_stmt_macro(&mut self, m: &'b syn::StmtMacro) {
        self.mac(&m.mac, rng(m.mac.span()), true);
    }
    fn visit_local(&mut self, l: &'b syn::Local) {
        // R10: let f = match e { P => PATH, .. } over function paths
        if let (syn::Pat::Ident(id), Some(init)) = (&l.pat, &l.init) {
            let e = match &*init.expr {
                syn::Expr::Unsafe(u) => match u.block.stmts.as_slice() {
                    [syn::Stmt::Expr(e, None)] => e,
                    _ => &*init.expr,
                },
                e => e,
            };
            if let Some(t) = self.word_ptr(e) {
                self.ptrs.insert(id.ident.to_string(), t);
            }
        }
        let (pat, fn_ty) = match &l.pat {
            syn::Pat::Type(t) if matches!(&*t.ty, syn::Type::BareFn(_)) => (&*t.pat, Some((rng(t.pat.span()).1, rng(t.ty.span()).1))),
            p => (p, None),
        };
        if let (syn::Pat::Ident(id), Some(init)) = (pat, &l.init) {
            if let syn::Expr::Match(m) = &*init.expr {
                let all = m.arms.iter().all(|a| {
                    matches!(&*a.body, syn::Expr::Path(p) if p.path.segments.len() == 2
                        && p.path.segments[1].ident.to_string().chars().next().unwrap().is_lowercase())
                });
                if all && !m.arms.is_empty() {
                    let mut names: Vec<String> = vec![];
                    for a in &m.arms {
                        let n = toks(&a.body);
                        let k = names.iter().position(|x| *x == n).unwrap_or_else(|| {
                            names.push(n);
                            names.len() - 1
                        });
                        self.edit("R10 function pointers defunctionalised", rng(a.body.span()), vec![Part::T(format!("FnSel::F{k}"))]);
                    }
                    self.fnptrs.insert(id.ident.to_string(), names);
                    if let Some(r) = fn_ty {
                        self.edit("R10 function pointers defunctionalised", r, vec![]);
                    }
                    self.visit_expr(&m.expr);
                    return;
                }
            }
        }
        visit::visit_local(self, l);
    }
    fn visit_expr_call(&mut self, c: &'b syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            let t = toks(&p.path);
            let whole = rng(c.span());
            if is_core_panic(&p.path) {
                self.edit("R07 panic!/unreachable!/.. -> vpanic()", whole, vec![Part::T("vpanic()".into())]);
                return;
            }
            if let Some(names) = self.fnptrs.get(&t).cloned() {
                let args: Vec<(usize, usize)> = c.args.iter().map(|a| rng(a.span())).collect();
                let mut parts = vec![Part::T(format!("match {t} {{ "))];
                for (k, n) in names.iter().enumerate() {
                    parts.push(Part::T(format!("{} => {n}(", if k + 1 == names.len() { "_".into() } else { format!("FnSel::F{k}") })));
                    for (j, a) in args.iter().enumerate() {
                        if j > 0 {
                            parts.push(Part::T(", ".into()));
                        }
                        parts.push(Part::H(*a));
                    }
                    parts.push(Part::T("), ".into()));
                }
                parts.push(Part::T("}".into()));
                self.edit("R10 function pointers defunctionalised", whole, parts);
            } else if t.ends_with("mem::transmute") || t == "transmute" {
                let a = rng(c.args[0].span());
                self.edit("R14b mem::transmute(p) -> p", whole, vec![Part::H(a)]);
            } else if matches!(t.rsplit("::").next().unwrap(), "alloc" | "protect") && self.unsafe_depth > 0 {
                let f = rng(c.func.span());
                self.os = true;
                self.edit("R21 alloc/protect -> logged alloc/protect", f, vec![Part::T(format!("__os.{}", t.rsplit("::").next().unwrap()))]);
            } else if t == "u64::from_ne_bytes" || t == "u64::from_le_bytes" {
                let f = rng(c.func.span());
                self.edit("R22 to/from_{ne,le}_bytes -> specified host_bytes", f, vec![Part::T("u64_from_host".into())]);
            } else if t.ends_with("ptr::copy_nonoverlapping") && c.args.len() == 3 && self.unsafe_depth > 0 && matches!(konst(&c.args[2]), Some((4, _))) && as_ptr_of(&c.args[0]).is_some() {
                let b = as_ptr_of(&c.args[0]).unwrap();
                self.store4(whole, strip_ptr_cast(&c.args[1]), vec![Part::H(rng(b.span()))]);
            } else if (t.ends_with("ptr::write_unaligned") || t.ends_with("ptr::write")) && c.args.len() == 2 && self.unsafe_depth > 0 && self.word_ptr(&c.args[0]).is_some() {
                let v = self.word_value(&c.args[0], &c.args[1]);
                self.store4(whole, strip_ptr_cast(&c.args[0]), v);
            } else if t.ends_with("slice::from_raw_parts") {
                self.edit(
                    "R17 slice::from_raw_parts(p, n) -> raw_slice(self, p, n)",
                    whole,
                    vec![
                        Part::T("raw_slice(self, ".into()),
                        Part::H(rng(c.args[0].span())),
                        Part::T(", ".into()),
                        Part::H(rng(c.args[1].span())),
                        Part::T(")".into()),
                    ],
                );
            } else if let Some(h) = self.helpers.get(p.path.segments.last().unwrap().ident.to_string().as_str()) {
                let qualified = p.path.segments.len() <= 2 || !matches!(p.path.segments[0].ident.to_string().as_str(), "std" | "core" | "alloc");
                let mut args: Vec<&syn::Expr> = c.args.iter().collect();
                if qualified && self.depth < 6 {
                    let h = h.clone();
                    if h.has_self && args.len() == h.params.len() + 1 {
                        let rv = args.remove(0);
                        self.inline(&h, Some(rv), &args, whole);
                    } else if !h.has_self && args.len() == h.params.len() {
                        self.inline(&h, None, &args, whole);
                    }
                }
            }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, m: &'b syn::ExprMethodCall) {
        let whole = rng(m.span());
        let recv = rng(m.receiver.span());
        let name = m.method.to_string();
        match name.as_str() {
            "expect" | "unwrap" => {
                self.edit("R08 .expect()/.unwrap() -> .vexpect()", whole, vec![Part::H(recv), Part::T(".vexpect()".into())]);
                self.visit_expr(&m.receiver);
                return;
            }
            "add" if self.unsafe_depth > 0 && m.args.len() == 1 => {
                self.edit(
                    "R04b ptr.add(n) -> ptr_add(p, n)",
                    whole,
                    vec![Part::T("ptr_add(".into()), Part::H(recv), Part::T(", ".into()), Part::H(rng(m.args[0].span())), Part::T(")".into())],
                );
            }
            "to_ne_bytes" | "to_le_bytes" if m.args.is_empty() => {
                self.edit("R22 to/from_{ne,le}_bytes -> specified host_bytes", whole, vec![Part::H(recv), Part::T(".host_bytes()".into())]);
            }
            "write_unaligned" | "write" if m.args.len() == 1 && self.unsafe_depth > 0 && self.word_ptr(&m.receiver).is_some() => {
                let v = self.word_value(&m.receiver, &m.args[0]);
                self.store4(whole, strip_ptr_cast(&m.receiver), v);
            }
            "copy_from_nonoverlapping" if m.args.len() == 2 && self.unsafe_depth > 0 && matches!(konst(&m.args[1]), Some((4, _))) && as_ptr_of(&m.args[0]).is_some() => {
                let b = as_ptr_of(&m.args[0]).unwrap();
                self.store4(whole, strip_ptr_cast(&m.receiver), vec![Part::H(rng(b.span()))]);
            }
            "next_multiple_of" if m.args.len() == 1 => {
                self.edit(
                    "R36 x.next_multiple_of(n) -> next_multiple(x, n)",
                    whole,
                    vec![Part::T("next_multiple(".into()), Part::H(recv), Part::T(", ".into()), Part::H(rng(m.args[0].span())), Part::T(")".into())],
                );
            }
            "cast" if m.args.is_empty() && m.turbofish.is_some() => {
                self.edit("R04 raw pointer -> address (usize)", whole, vec![Part::H(recv)]);
            }
            "into" if m.args.is_empty() && self.into_rm => {
                self.edit("R13b .into() -> .into_rm()", whole, vec![Part::H(recv), Part::T(".into_rm()".into())]);
            }
            "unwrap_or_else" if m.args.len() == 1 && matches!(&m.args[0], syn::Expr::Closure(c) if is_panic_expr(&c.body)) => {
                self.edit("R08 .expect()/.unwrap() -> .vexpect()", whole, vec![Part::H(recv), Part::T(".vexpect()".into())]);
                self.visit_expr(&m.receiver);
                return;
            }
            "any" | "all" if m.args.len() == 1 => {
                if let (Some((els, by_ref)), syn::Expr::Closure(c)) = (array_iter(&m.receiver), &m.args[0]) {
                    if c.inputs.len() == 1 {
                        let mut pat = &c.inputs[0];
                        if let syn::Pat::Type(t) = pat {
                            pat = &t.pat;
                        }
                        let (pat, deref) = match pat {
                            syn::Pat::Reference(r) => (&*r.pat, true),
                            p => (p, false),
                        };
                        let mut parts = vec![Part::T("(".into())];
                        for (i, x) in els.iter().enumerate() {
                            if i > 0 {
                                parts.push(Part::T(if name == "any" { " || ".into() } else { " && ".into() }));
                            }
                            parts.push(Part::T("({ let ".into()));
                            parts.push(Part::H(rng(pat.span())));
                            parts.push(Part::T(if by_ref && !deref { " = &".into() } else { " = ".into() }));
                            parts.push(Part::H(rng(x.span())));
                            parts.push(Part::T("; ".into()));
                            parts.push(Part::H(rng(c.body.span())));
                            parts.push(Part::T(" })".into()));
                        }
                        parts.push(Part::T(")".into()));
                        self.done.push(rng(c.span()));
                        self.edit("R31 any/all over an array literal unrolled", whole, parts);
                    }
                }
            }
            "for_each" if m.args.len() == 1 => {
                if let syn::Expr::Closure(c) = &m.args[0] {
                    if c.inputs.len() == 1 {
                        self.done.push(rng(c.span()));
                        let n = self.loops;
                        self.loops += 1;
                        let mut inv = String::new();
                        let mut bodytxt = String::new();
                        let mut after = String::new();
                        if let Some(ct) = self.ct {
                            if let Some((_, i)) = ct.loops.get(&n) {
                                inv = i.clone();
                            }
                            if let Some(b) = ct.bodies.get(&n) {
                                bodytxt = b.clone();
                            }
                            if let Some(b) = ct.afters.get(&n) {
                                after = b.clone();
                            }
                        }
                        self.edit(
                            "R09 .for_each(closure) -> for loop",
                            whole,
                            vec![
                                Part::T("for ".into()),
                                Part::H(rng(c.inputs[0].span())),
                                Part::T(format!(" in __it{n}: ")),
                                Part::H(recv),
                                Part::T(format!("\n{inv}\n{{ {bodytxt} ")),
                                Part::H(rng(c.body.span())),
                                Part::T(if after.is_empty() { "; }".into() } else { format!("; }}\n{after}\n") }),
                            ],
                        );
                    }
                }
            }
            _ => {
                if let Some(h) = self.helpers.get(&name) {
                    if h.has_self && h.params.len() == m.args.len() && self.depth < 6 {
                        let h = h.clone();
                        let args: Vec<&syn::Expr> = m.args.iter().collect();
                        self.inline(&h, Some(&m.receiver), &args, whole);
                    }
                }
            }
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_struct(&mut self, s: &'b syn::ExprStruct) {
        if s.path.segments.last().unwrap().ident == "MemPage" && s.rest.is_none() {
            let (_, b) = rng(s.brace_token.span.close());
            self.edit("R12 ghost memory field in MemPage", (b - 1, b - 1), vec![Part::T(if s.fields.trailing_punct() { " mem: fresh_mem() ".into() } else { ", mem: fresh_mem() ".into() })]);
        }
        visit::visit_expr_struct(self, s);
    }
    fn visit_expr_index(&mut self, e: &'b syn::ExprIndex) {
        if self.in_deref && toks(&e.expr) == "self.pages" {
            let r = rng(e.index.span());
            self.edit(
                "R23 array index in Deref (no precondition possible) -> checked index",
                r,
                vec![Part::T("page_ix(".into()), Part::H(r), Part::T(")".into())],
            );
        }
        visit::visit_expr_index(self, e);
    }
    fn visit_expr_for_loop(&mut self, f: &'b syn::ExprForLoop) {
        let body = rng(f.body.span());
        self.loop_contract(Some(&f.expr), Some(&f.pat), rng(f.for_token.span()), body);
        if let syn::Expr::Reference(r) = &*f.expr {
            let m = if r.mutability.is_some() { ".iter_mut()" } else { ".iter()" };
            let inner = rng(r.expr.span());
            let whole = rng(f.expr.span());
            self.edit("R11 for x in &[mut] e -> e.iter[_mut]()", whole, vec![Part::H(inner), Part::T(m.into())]);
        }
        visit::visit_expr_for_loop(self, f);
    }
    fn visit_expr_path(&mut self, p: &'b syn::ExprPath) {
        if p.path.segments.last().is_some_and(|x| x.ident == "size_of_val" || x.ident == "align_of_val") {
            self.lost.push("uses size_of_val, whose result the verifier leaves open".into());
        }
        visit::visit_expr_path(self, p);
    }
    fn visit_expr_closure(&mut self, c: &'b syn::ExprClosure) {
        if !self.done.contains(&rng(c.span())) {
            self.lost.push("holds a closure, whose result the verifier leaves open".into());
        }
        visit::visit_expr_closure(self, c);
    }
    fn visit_expr_while(&mut self, w: &'b syn::ExprWhile) {
        let body = rng(w.body.span());
        self.loop_contract(None, None, rng(w.while_token.span()), body);
        visit::visit_expr_while(self, w);
    }
    fn visit_expr_loop(&mut self, w: &'b syn::ExprLoop) {
        self.loops += 1;
        visit::visit_expr_loop(self, w);
    }
}

/// Is this function named in the environment variable (`|`-separated keys)?
fn listed(var: &str, key: &str) -> bool {
    std::env::var(var).is_ok_and(|v| v.split('|').any(|k| k == key))
}

pub fn render_fn(f: &FnItem, src: &str, base: usize, c: Option<&Contract>, helpers: &BTreeMap<String, Helper>, rep: &mut Report, ind: &str) -> String {
    let renamed = c.and_then(|c| c.rename(f.sig));
    let c = renamed.as_ref().or(c);
    let mut rw = Rw::new(src, base, c, helpers, rep, 0);
    rw.in_deref = f.in_trait_impl && f.key.starts_with("Deref");
    rw.visit_signature(f.sig);
    rw.visit_block(f.block);
    let mut edits = std::mem::take(&mut rw.edits);
    let lost: Vec<String> = rw.lost.iter().map(|l| format!("{}: {l}", f.key)).collect();
    let nloops = rw.loops;
    let os = rw.os;
    rep.lost.extend(lost);
    if let Some(c) = c {
        for n in c.loops.keys() {
            if *n >= nloops {
                rep.lost.push(format!("{}: loop {n} not found", f.key));
            }
        }
    }
    // signature
    let ret = c.and_then(|c| c.ret.clone());
    let sig = rng(f.sig.span());
    if let (syn::ReturnType::Type(arrow, ty), Some(r)) = (&f.sig.output, &ret) {
        let a = rng(arrow.span()).0;
        let t = rng(ty.span());
        edits.push(Edit { r: (a, t.1), parts: vec![Part::T(format!("-> ({r}: ")), Part::H(t), Part::T(")".into())] });
    }
    let sig_text = render(src, base, sig, &edits, None);
    let mut out = String::new();
    let stub = listed("STUB", &f.key) || listed("NOSPEC", &f.key);
    if stub {
        out.push_str("#[verifier::external_body]\n");
    } else if let Some(c) = c {
        out.push_str(&c.attr);
    }
    out.push_str(ind);
    if !f.in_trait_impl && !sig_text.starts_with("pub") {
        out.push_str("pub ");
    }
    out.push_str(&sig_text);
    out.push('\n');
    if let Some(c) = c {
        if !listed("NOSPEC", &f.key) {
            out.push_str(&c.spec);
        }
    }
    if stub {
        out.push_str(ind);
        out.push_str("{ unimplemented!() }\n\n");
        return out;
    }
    let (ba, bb) = rng(f.block.span());
    let inner = (ba + 1, bb - 1);
    out.push_str(ind);
    out.push_str("{\n");
    if os {
        out.push_str("let mut __os = OsLog::start();\n");
    }
    if let Some(c) = c {
        out.push_str(&c.pre);
    }
    let post = c.map(|c| c.post.as_str()).unwrap_or("");
    if post.is_empty() {
        out.push_str(&render(src, base, inner, &edits, None));
    } else {
        let unit = matches!(f.sig.output, syn::ReturnType::Default);
        match f.block.stmts.last() {
            Some(syn::Stmt::Expr(e, None)) if !unit => {
                let r = rng(e.span());
                out.push_str(&render(src, base, (inner.0, r.0), &edits, None));
                out.push_str("let __ret = ");
                out.push_str(&render(src, base, r, &edits, None));
                out.push_str(";\n");
                out.push_str(post);
                out.push_str("__ret\n");
            }
            _ => {
                out.push_str(&render(src, base, inner, &edits, None));
                if let Some(syn::Stmt::Expr(_, None)) = f.block.stmts.last() {
                    out.push(';');
                }
                out.push('\n');
                out.push_str(post);
            }
        }
    }
    out.push('\n');
    out.push_str(ind);
    out.push_str("}\n\n");
    out
}
