//! Source-to-source steps before extraction.  Each replaces a construct the verifier
//! does not read by a longer one with the same meaning; on the text the contracts were
//! written against none applies.
use crate::*;
use proc_macro2::TokenTree;

type E = ((usize, usize), String, &'static str);

struct D<'a> {
    src: &'a str,
    base: usize,
    /// functions whose loops carry invariants: loops over ranges stay
    keep: &'a BTreeSet<String>,
    cur: String,
    tys: Vec<(String, String)>,
    /// array lengths of struct fields
    fields: Vec<(String, usize)>,
    out: Vec<E>,
    n: usize,
}

pub fn desugar(mut src: String, keep: &BTreeSet<String>, rep: &mut Report) -> String {
    let mut n = 0;
    for _ in 0..40 {
        let Ok(ast) = syn::parse_file(&src) else { return src };
        if ast.items.is_empty() {
            return src;
        }
        let base = file_base(&ast, &src);
        let mut d = D { src: &src, base, keep, cur: String::new(), tys: vec![], fields: fields(&ast), out: vec![], n };
        d.visit_file(&ast);
        n = d.n;
        let mut e = std::mem::take(&mut d.out);
        if e.is_empty() {
            break;
        }
        // innermost first: ranges that hold another one wait for the next round
        let all: Vec<(usize, usize)> = e.iter().map(|x| x.0).collect();
        e.retain(|x| !all.iter().any(|y| *y != x.0 && y.0 >= x.0 .0 && y.1 <= x.0 .1));
        e.sort_by_key(|x| x.0);
        e.dedup_by_key(|x| x.0);
        let mut t = src.clone();
        for ((a, b), new, rule) in e.into_iter().rev() {
            rep.rule(rule);
            t.replace_range(a - base..b - base, &new);
        }
        src = t;
    }
    src
}

#[derive(Default)]
struct Jumps {
    n: usize,
    labelled: bool,
    depth: usize,
}
impl<'b> Visit<'b> for Jumps {
    fn visit_expr_break(&mut self, b: &'b syn::ExprBreak) {
        self.labelled |= b.label.is_some();
        self.n += (self.depth == 0) as usize;
    }
    fn visit_expr_continue(&mut self, b: &'b syn::ExprContinue) {
        self.labelled |= b.label.is_some();
        self.n += (self.depth == 0) as usize;
    }
    fn visit_expr_for_loop(&mut self, b: &'b syn::ExprForLoop) {
        self.depth += 1;
        visit::visit_expr_for_loop(self, b);
        self.depth -= 1;
    }
    fn visit_expr_while(&mut self, b: &'b syn::ExprWhile) {
        self.depth += 1;
        visit::visit_expr_while(self, b);
        self.depth -= 1;
    }
    fn visit_expr_loop(&mut self, b: &'b syn::ExprLoop) {
        self.depth += 1;
        visit::visit_expr_loop(self, b);
        self.depth -= 1;
    }
}
fn jumps(f: impl FnOnce(&mut Jumps)) -> usize {
    let mut j = Jumps::default();
    f(&mut j);
    if j.labelled {
        usize::MAX
    } else {
        j.n
    }
}
fn unparen(mut e: &syn::Expr) -> &syn::Expr {
    while let syn::Expr::Paren(p) = e {
        e = &p.expr;
    }
    e
}
fn is_continue(s: &syn::Stmt) -> bool {
    matches!(s, syn::Stmt::Expr(syn::Expr::Continue(c), _) if c.label.is_none())
}
fn diverge_continue(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Continue(c) => c.label.is_none(),
        syn::Expr::Block(b) => matches!(b.block.stmts.as_slice(), [s] if is_continue(s)),
        _ => false,
    }
}

/// where an iterated array comes from, and how its elements are handed out
struct Arr<'b> {
    e: &'b syn::Expr,
    len: usize,
    by_ref: bool,
    enumerate: bool,
}

impl<'a> D<'a> {
    fn t(&self, x: &impl Spanned) -> String {
        text(self.src, self.base, rng(x.span()))
    }
    fn size_of(&self, e: &syn::Expr) -> Option<usize> {
        let ty = match unparen(e) {
            syn::Expr::Cast(c) => toks(&c.ty),
            syn::Expr::Path(p) => {
                let n = toks(&p.path);
                self.tys.iter().rev().find(|x| x.0 == n)?.1.clone()
            }
            syn::Expr::Lit(l) => match &l.lit {
                syn::Lit::Int(i) => i.suffix().to_string(),
                _ => return None,
            },
            syn::Expr::Binary(b) => return self.size_of(&b.left).or_else(|| self.size_of(&b.right)),
            _ => return None,
        };
        prim(&ty)
    }
    fn array<'b>(&self, e: &'b syn::Expr) -> Option<Arr<'b>> {
        match unparen(e) {
            syn::Expr::MethodCall(m) if m.args.is_empty() => match m.method.to_string().as_str() {
                "to_le_bytes" | "to_ne_bytes" => Some(Arr { e, len: self.size_of(&m.receiver)?, by_ref: false, enumerate: false }),
                "iter" => {
                    let a = self.array(&m.receiver)?;
                    (!a.by_ref && !a.enumerate).then_some(Arr { by_ref: true, ..a })
                }
                "into_iter" => self.array(&m.receiver),
                "copied" | "cloned" => {
                    let a = self.array(&m.receiver)?;
                    (a.by_ref && !a.enumerate).then_some(Arr { by_ref: false, ..a })
                }
                "enumerate" => {
                    let a = self.array(&m.receiver)?;
                    (!a.enumerate).then_some(Arr { enumerate: true, ..a })
                }
                _ => None,
            },
            syn::Expr::Reference(r) if r.mutability.is_none() => {
                let a = self.array(&r.expr)?;
                (!a.by_ref && !a.enumerate).then_some(Arr { by_ref: true, ..a })
            }
            syn::Expr::Array(a) if !a.elems.is_empty() && a.elems.len() <= 8 => Some(Arr { e, len: a.elems.len(), by_ref: false, enumerate: false }),
            _ => None,
        }
    }
    fn unroll_array(&mut self, pat: &syn::Pat, a: &Arr, body: String) -> Option<String> {
        let k = self.n;
        self.n += 1;
        let (ix, pat) = if a.enumerate {
            let syn::Pat::Tuple(t) = pat else { return None };
            if t.elems.len() != 2 {
                return None;
            }
            (Some(&t.elems[0]), &t.elems[1])
        } else {
            (None, pat)
        };
        let ty = match pat {
            syn::Pat::Type(_) => return None,
            _ => "",
        };
        let (p, by_ref) = match pat {
            syn::Pat::Reference(r) if a.by_ref => (&*r.pat, false),
            p => (p, a.by_ref),
        };
        let mut o = format!("{{ let __arr{k} = {}; ", self.t(a.e));
        for i in 0..a.len {
            let mut b = body.clone();
            o.push_str("{ ");
            match ix {
                Some(syn::Pat::Ident(id)) if id.by_ref.is_none() && id.mutability.is_none() => b = subst_tok(&b, &id.ident.to_string(), &format!("({i}usize)"))?,
                Some(syn::Pat::Wild(_)) | None => {}
                _ => return None,
            }
            o.push_str(&format!("let {}{ty} = {}__arr{k}[{i}]; {b} }} ", self.t(p), if by_ref { "&" } else { "" }));
        }
        o.push('}');
        Some(o)
    }
    fn unroll(&mut self, pat: &syn::Pat, iter: &syn::Expr, body: String) -> Option<String> {
        // the innermost iterated expression must not be evaluated after the adapters
        if let Some(a) = self.array(iter) {
            let a = Arr { e: core(a.e), ..a };
            return self.unroll_array(pat, &a, body);
        }
        if self.keep.contains(&self.cur) {
            return None;
        }
        let syn::Expr::Range(r) = unparen(iter) else { return None };
        let (lo, s0) = rewrite::konst(r.start.as_ref()?)?;
        let (mut hi, s1) = rewrite::konst(r.end.as_ref()?)?;
        if matches!(r.limits, syn::RangeLimits::Closed(_)) {
            hi += 1;
        }
        if hi < lo || hi - lo > 8 {
            return None;
        }
        let s = if s0.is_empty() { s1 } else { s0 };
        let mut o = String::from("{ ");
        for i in lo..hi {
            let b = match pat {
                syn::Pat::Ident(id) if id.by_ref.is_none() && id.mutability.is_none() => subst_tok(&body, &id.ident.to_string(), &format!("({i}{s})"))?,
                syn::Pat::Wild(_) => body.clone(),
                _ => return None,
            };
            o.push_str(&format!("{{ {b} }} "));
        }
        o.push('}');
        Some(o)
    }
    fn block_inner(&self, b: &syn::Block) -> String {
        let r = rng(b.span());
        text(self.src, self.base, (r.0 + 1, r.1 - 1))
    }
    /// R35: `if c { ..; continue; } rest` and relatives in a loop body
    fn guards(&mut self, b: &syn::Block) {
        let end = rng(b.span()).1 - 1;
        for (i, s) in b.stmts.iter().enumerate() {
            let rest = (rng(s.span()).1, end);
            let rest_t = text(self.src, self.base, rest);
            let whole = (rng(s.span()).0, end);
            const RULE: &str = "R35 continue guard in a loop body -> nested block";
            match s {
                syn::Stmt::Expr(syn::Expr::If(f), _) if f.else_branch.is_none() && f.then_branch.stmts.last().is_some_and(is_continue) => {
                    let n = jumps(|j| j.visit_expr_if(f));
                    if n != 1 {
                        continue;
                    }
                    let last = rng(f.then_branch.stmts.last().unwrap().span());
                    let open = rng(f.then_branch.span()).0 + 1;
                    let then = text(self.src, self.base, (open, last.0));
                    let head = text(self.src, self.base, (rng(f.span()).0, open));
                    let rest_t = rest_t.trim_start().trim_start_matches(';').to_string();
                    self.out.push((whole, format!("{head}{then}}} else {{ {rest_t} }}\n"), RULE));
                    return;
                }
                syn::Stmt::Local(l) => {
                    let Some(init) = &l.init else { continue };
                    if let Some((_, els)) = &init.diverge {
                        if diverge_continue(els) {
                            self.out.push((whole, format!("if let {} = {} {{ {rest_t} }}\n", self.t(&l.pat), self.t(&init.expr)), RULE));
                            return;
                        }
                    } else if let syn::Expr::Match(m) = &*init.expr {
                        let c: Vec<&syn::Arm> = m.arms.iter().filter(|a| diverge_continue(&a.body)).collect();
                        if c.len() == 1 && m.arms.len() == 2 {
                            let mut o = format!("match {} {{ ", self.t(&m.expr));
                            for a in &m.arms {
                                let g = a.guard.as_ref().map(|g| format!(" if {}", self.t(&g.1))).unwrap_or_default();
                                if diverge_continue(&a.body) {
                                    o.push_str(&format!("{}{g} => {{}} ", self.t(&a.pat)));
                                } else {
                                    o.push_str(&format!("{}{g} => {{ let {} = {}; {rest_t} }} ", self.t(&a.pat), self.t(&l.pat), self.t(&a.body)));
                                }
                            }
                            o.push_str("}\n");
                            self.out.push((whole, o, RULE));
                            return;
                        }
                    }
                }
                // a continue at the very end does nothing
                s if is_continue(s) && i + 1 == b.stmts.len() => {
                    self.out.push((rng(s.span()), String::new(), RULE));
                    return;
                }
                _ => {}
            }
        }
    }
    /// R39: `let mut i = A; while i < B { ..; i += 1; }` -> `for i in A..B { .. }` when
    /// nothing else changes i, B does not change and i is not used afterwards
    fn counted(&mut self, b: &syn::Block) {
        for k in 0..b.stmts.len().saturating_sub(1) {
            let syn::Stmt::Local(l) = &b.stmts[k] else { continue };
            let (pat, _) = match &l.pat {
                syn::Pat::Type(t) => (&*t.pat, true),
                p => (p, false),
            };
            let (syn::Pat::Ident(id), Some(init)) = (pat, &l.init) else { continue };
            if id.mutability.is_none() || init.diverge.is_some() {
                continue;
            }
            let i = id.ident.to_string();
            let Some(w) = b.stmts[k + 1..].iter().position(|s| matches!(s, syn::Stmt::Expr(syn::Expr::While(_), _))) else { continue };
            let w = k + 1 + w;
            let syn::Stmt::Expr(syn::Expr::While(wh), _) = &b.stmts[w] else { continue };
            let syn::Expr::Binary(c) = &*wh.cond else { continue };
            if !matches!(c.op, syn::BinOp::Lt(_)) || toks(&c.left) != i || wh.label.is_some() {
                continue;
            }
            let used = |t: &dyn Fn(&mut Uses)| {
                let mut u = Uses { name: i.clone(), n: 0 };
                t(&mut u);
                u.n
            };
            let between = b.stmts[k + 1..w].iter().any(|s| used(&|u| u.visit_stmt(s)) > 0);
            let after = b.stmts[w + 1..].iter().any(|s| used(&|u| u.visit_stmt(s)) > 0);
            let Some((last, rest)) = wh.body.stmts.split_last() else { continue };
            let step = norm(&self.t(last)).trim_end_matches(';').to_string();
            let steps = [format!("{i}+=1"), format!("{i}={i}+1"), format!("{i}+=1usize")];
            if between || after || !steps.contains(&step) || jumps(|j| j.visit_block(&wh.body)) != 0 {
                continue;
            }
            let mut a = Assigns(vec![]);
            rest.iter().for_each(|s| a.visit_stmt(s));
            let bound = toks(&c.right);
            let stable = rewrite::konst(&c.right).is_some() || matches!(unparen(&c.right), syn::Expr::Path(_)) && !a.0.contains(&bound) || bound == "self.pages.len()" || bound.strip_suffix(".len()").is_some_and(|x| self.tys.iter().rev().find(|y| y.0 == x).is_some_and(|y| y.1.starts_with('&') && !y.1.starts_with("&mut")));
            if a.0.contains(&i) || !stable {
                continue;
            }
            let lr = rng(l.span());
            let wr = rng(wh.span());
            let mid = text(self.src, self.base, (lr.1, wr.0));
            let open = rng(wh.body.span()).0 + 1;
            let body = text(self.src, self.base, (open, rng(last.span()).0));
            self.out.push(((lr.0, wr.1), format!("{mid}for {i} in {}..{} {{ {body} }}", self.t(&init.expr), self.t(&c.right)), "R39 counted while loop -> for over the range"));
            return;
        }
    }
    /// R44: a local closure that is only called: its body at each call.  Without `move` the
    /// body sees the captured variables themselves, so this is what the call does.
    fn closures(&mut self, b: &syn::Block) {
        for k in 0..b.stmts.len() {
            let syn::Stmt::Local(l) = &b.stmts[k] else { continue };
            let (syn::Pat::Ident(id), Some(init)) = (&l.pat, &l.init) else { continue };
            let syn::Expr::Closure(c) = unparen(&init.expr) else { continue };
            if c.capture.is_some() || c.asyncness.is_some() || init.diverge.is_some() {
                continue;
            }
            let name = id.ident.to_string();
            let mut ret = HasReturn(false);
            ret.visit_expr(&c.body);
            let mut params = vec![];
            for p in &c.inputs {
                let (p, t) = match p {
                    syn::Pat::Type(t) => (&*t.pat, Some(self.t(&t.ty))),
                    p => (p, None),
                };
                if let syn::Pat::Ident(i) = p {
                    if i.by_ref.is_none() && i.subpat.is_none() {
                        params.push((i.ident.to_string(), i.mutability.is_some(), t));
                    }
                }
            }
            if ret.0 || params.len() != c.inputs.len() {
                continue;
            }
            let mut calls = Calls { name: name.clone(), found: vec![] };
            let mut uses = Uses { name: name.clone(), n: 0 };
            let mut binds = Binds(vec![]);
            for s in &b.stmts[k + 1..] {
                calls.visit_stmt(s);
                uses.visit_stmt(s);
                binds.visit_stmt(s);
            }
            let clash = binds.0.iter().any(|x| {
                let mut u = Uses { name: x.clone(), n: 0 };
                u.visit_expr(&c.body);
                u.n > 0 && !params.iter().any(|p| p.0 == *x)
            });
            if clash || uses.n != calls.found.len() || calls.found.iter().any(|x| x.args.len() != params.len()) {
                continue;
            }
            const RULE: &str = "R44 local closure -> its body at each call";
            let body = self.t(&c.body);
            let ty = match &c.output {
                syn::ReturnType::Type(_, t) => Some(self.t(t)),
                _ => None,
            };
            for x in &calls.found {
                let args: Vec<String> = x.args.iter().map(|a| self.t(a)).collect();
                let mut bd = body.clone();
                let mut pre = String::new();
                if params.len() == 1 {
                    let (n, m, t) = &params[0];
                    let lit = matches!(unparen(&x.args[0]), syn::Expr::Lit(_)) && !m;
                    match lit.then(|| subst_tok(&bd, n, &args[0])).flatten() {
                        Some(o) => bd = o,
                        None => pre = format!("let {}{n}{} = {}; ", if *m { "mut " } else { "" }, t.as_ref().map(|t| format!(": {t}")).unwrap_or_default(), args[0]),
                    }
                } else if !params.is_empty() {
                    let ps: Vec<String> = params.iter().map(|p| format!("{}{}", if p.1 { "mut " } else { "" }, p.0)).collect();
                    let ts: Vec<String> = params.iter().map(|p| p.2.clone().unwrap_or("_".into())).collect();
                    pre = format!("let ({}): ({}) = ({}); ", ps.join(", "), ts.join(", "), args.join(", "));
                }
                let bd = match &ty {
                    Some(t) => format!("let __r: {t} = {bd}; __r"),
                    None => bd,
                };
                self.out.push((rng(x.span()), format!("{{ {pre}{bd} }}"), RULE));
            }
            if calls.found.is_empty() && uses.n == 0 {
                self.out.push((rng(l.span()), String::new(), RULE));
            }
        }
    }
    /// `[0, 1, ..]` or `[X(0), X(1), ..]` in a function whose loops carry invariants
    fn counted_array(&self, e: &syn::Expr) -> Option<(usize, String)> {
        if !self.keep.contains(&self.cur) {
            return None;
        }
        let e = match unparen(e) {
            syn::Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() => unparen(&m.receiver),
            e => e,
        };
        let syn::Expr::Array(a) = e else { return None };
        if a.elems.is_empty() {
            return None;
        }
        let mut ctor: Option<String> = None;
        for (i, x) in a.elems.iter().enumerate() {
            let (c, v) = match unparen(x) {
                syn::Expr::Call(c) if c.args.len() == 1 => (toks(&c.func), &c.args[0]),
                x => (String::new(), x),
            };
            if rewrite::konst(v)?.0 != i as u128 || ctor.as_ref().is_some_and(|o| *o != c) {
                return None;
            }
            ctor = Some(c);
        }
        Some((a.elems.len(), ctor?))
    }
    /// R45: `&x` as the pattern of a loop, or a loop over `.copied()`
    fn deref_each(&self, p: &syn::Pat, e: &syn::Expr) -> Option<(String, String)> {
        if self.array(e).is_some() {
            return None;
        }
        if let syn::Pat::Reference(r) = p {
            return (r.mutability.is_none() && matches!(&*r.pat, syn::Pat::Ident(_))).then(|| (self.t(&r.pat), self.t(e)));
        }
        match (p, unparen(e)) {
            (syn::Pat::Ident(_), syn::Expr::MethodCall(m)) if m.args.is_empty() && (m.method == "copied" || m.method == "cloned") => Some((self.t(p), self.t(&m.receiver))),
            _ => None,
        }
    }
    /// R40: `std::array::from_fn(|i| ..)` of a known length
    fn from_fn(&mut self, name: &str, len: Option<usize>, e: &syn::Expr) {
        let syn::Expr::Call(c) = unparen(e) else { return };
        if !toks(&c.func).ends_with("array::from_fn") || c.args.len() != 1 {
            return;
        }
        let syn::Expr::Closure(f) = &c.args[0] else { return };
        let len = len.or_else(|| {
            let l: BTreeSet<usize> = self.fields.iter().filter(|x| x.0 == name).map(|x| x.1).collect();
            (l.len() == 1).then(|| *l.first().unwrap())
        });
        let (Some(len), Some(p)) = (len, f.inputs.first()) else { return };
        let mut ret = HasReturn(false);
        ret.visit_expr(&f.body);
        if ret.0 || len > 8 {
            return;
        }
        let p = match p {
            syn::Pat::Type(t) => &*t.pat,
            p => p,
        };
        let body = self.t(&f.body);
        let els: Vec<String> = (0..len)
            .map(|i| subst_tok(&body, &self.t(p), &i.to_string()).unwrap_or(format!("{{ let {}: usize = {i}; {body} }}", self.t(p))))
            .collect();
        self.out.push((rng(e.span()), format!("[{}]", els.join(", ")), "R40 map over an array literal unrolled"));
    }
    /// R41: `for i in 0..v.len() { .. v[i] .. }` with no other use of i and v
    fn indexed(&self, f: &syn::ExprForLoop) -> Option<String> {
        let (syn::Pat::Ident(id), syn::Expr::Range(r)) = (&*f.pat, unparen(&f.expr)) else { return None };
        if rewrite::konst(r.start.as_ref()?)?.0 != 0 || !matches!(r.limits, syn::RangeLimits::HalfOpen(_)) {
            return None;
        }
        let end = toks(r.end.as_ref()?);
        let v = match end.strip_suffix(".len()") {
            // a shared slice stays a loop over the range
            Some(v) if self.tys.iter().rev().find(|y| y.0 == v).is_some_and(|y| y.1.starts_with('&') && !y.1.starts_with("&mut")) => return None,
            Some(v) if !v.contains('(') => v.to_string(),
            _ if end == "3" => "self.pages".to_string(),
            _ => return None,
        };
        let i = id.ident.to_string();
        let body = self.block_inner(&f.body);
        let mut o = String::new();
        let mut rest = body.as_str();
        let mut hits = 0;
        'scan: while !rest.is_empty() {
            let at_word = !o.chars().last().is_some_and(|c| c.is_alphanumeric() || c == '_' || c == '.');
            if at_word {
                for (p, s) in [("[", "]"), ("[Page(", ")]"), ("[DestLabel(", ")]")] {
                    let heads: &[&str] = if v == "self.pages" { &["self.pages", "self"] } else { &[v.as_str()] };
                    for h in heads {
                        if *h == "self" && p != "[Page(" {
                            continue;
                        }
                        let pat = format!("{h}{p}{i}{s}");
                        if let Some(r2) = rest.strip_prefix(pat.as_str()) {
                            o.push_str("(*__elem)");
                            rest = r2;
                            hits += 1;
                            continue 'scan;
                        }
                    }
                }
            }
            let c = rest.chars().next().unwrap();
            o.push(c);
            rest = &rest[c.len_utf8()..];
        }
        if hits == 0 {
            return None;
        }
        let b: syn::Block = syn::parse_str(&format!("{{ {o} }}")).ok()?;
        for n in [i.as_str(), v.split('.').next().unwrap()] {
            let mut u = Uses { name: n.to_string(), n: 0 };
            u.visit_block(&b);
            if u.n > 0 {
                return None;
            }
        }
        Some(format!("for __elem in {v}.iter_mut() {{ {o} }}"))
    }
    /// R42: early returns become the value of the body, so that a helper can be inlined
    /// and the closing proof of a contract covers every exit
    fn early(&mut self, b: &syn::Block) {
        const RULE: &str = "R42 early return -> value of the body";
        let end = rng(b.span()).1 - 1;
        for (k, s) in b.stmts.iter().enumerate() {
            let rest_t = text(self.src, self.base, (rng(s.span()).1, end));
            let whole = (rng(s.span()).0, end);
            let val = |e: &syn::Expr| -> Option<String> {
                let syn::Expr::Return(r) = e else { return None };
                Some(r.expr.as_ref().map(|x| self.t(x)).unwrap_or_else(|| "()".into()))
            };
            match s {
                syn::Stmt::Expr(e, _) if k + 1 == b.stmts.len() && val(e).is_some() => {
                    let v = val(e).unwrap();
                    self.out.push((whole, v, RULE));
                    return;
                }
                syn::Stmt::Expr(syn::Expr::If(f), _) if f.else_branch.is_none() => {
                    let Some(syn::Stmt::Expr(e, _)) = f.then_branch.stmts.last() else { continue };
                    let Some(v) = val(e) else { continue };
                    let open = rng(f.then_branch.span()).0 + 1;
                    let head = text(self.src, self.base, (rng(f.span()).0, open));
                    let then = text(self.src, self.base, (open, rng(e.span()).0));
                    let rest_t = rest_t.trim_start().trim_start_matches(';').to_string();
                    self.out.push((whole, format!("{head}{then} {v} }} else {{ {rest_t} }}\n"), RULE));
                    return;
                }
                syn::Stmt::Local(l) => {
                    let Some(init) = &l.init else { continue };
                    if let Some((_, els)) = &init.diverge {
                        let e = match &**els {
                            syn::Expr::Block(b) => match b.block.stmts.as_slice() {
                                [syn::Stmt::Expr(e, _)] => e,
                                _ => continue,
                            },
                            e => e,
                        };
                        let Some(v) = val(e) else { continue };
                        self.out.push((whole, format!("if let {} = {} {{ {rest_t} }} else {{ {v} }}\n", self.t(&l.pat), self.t(&init.expr)), RULE));
                        return;
                    }
                    if let syn::Expr::Match(m) = &*init.expr {
                        if m.arms.iter().filter(|a| val(&a.body).is_some()).count() >= 1 && m.arms.len() == 2 {
                            let mut o = format!("match {} {{ ", self.t(&m.expr));
                            for a in &m.arms {
                                let g = a.guard.as_ref().map(|g| format!(" if {}", self.t(&g.1))).unwrap_or_default();
                                match val(&a.body) {
                                    Some(v) => o.push_str(&format!("{}{g} => {{ {v} }} ", self.t(&a.pat))),
                                    None => o.push_str(&format!("{}{g} => {{ let {} = {}; {rest_t} }} ", self.t(&a.pat), self.t(&l.pat), self.t(&a.body))),
                                }
                            }
                            o.push_str("}\n");
                            self.out.push((whole, o, RULE));
                            return;
                        }
                    }
                }
                _ => {}
            }
        }
        // the value of the body is itself a block or a choice
        if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() {
            self.early_expr(e);
        }
    }
    fn early_expr(&mut self, e: &syn::Expr) {
        match e {
            syn::Expr::If(f) => {
                self.early(&f.then_branch);
                if let Some((_, e)) = &f.else_branch {
                    self.early_expr(e);
                }
            }
            syn::Expr::Block(b) => self.early(&b.block),
            syn::Expr::Match(m) => {
                for a in &m.arms {
                    if let syn::Expr::Return(r) = &*a.body {
                        let v = r.expr.as_ref().map(|x| self.t(x)).unwrap_or_else(|| "()".into());
                        self.out.push((rng(a.body.span()), v, "R42 early return -> value of the body"));
                    } else {
                        self.early_expr(&a.body);
                    }
                }
            }
            _ => {}
        }
    }
    /// an expression that is an Option for sure
    fn is_option(&self, e: &syn::Expr) -> bool {
        match unparen(e) {
            syn::Expr::Field(f) => toks(&f.member) == "loc",
            syn::Expr::MethodCall(m) => matches!(
                m.method.to_string().as_str(),
                "get" | "get_mut" | "last" | "last_mut" | "first" | "first_mut" | "checked_add" | "checked_sub" | "checked_mul" | "ok"
            ),
            syn::Expr::Call(c) => toks(&c.func) == "Some",
            _ => false,
        }
    }
    /// R43: combinators of an Option with a closure, as a match
    fn option(&self, m: &syn::ExprMethodCall) -> Option<String> {
        if !self.is_option(&m.receiver) {
            return None;
        }
        let syn::Expr::Closure(c) = m.args.last()? else { return None };
        let mut sc = HasReturn(false);
        sc.visit_expr(&c.body);
        if sc.0 {
            return None;
        }
        let r = self.t(&m.receiver);
        let b = self.t(&c.body);
        let p = match c.inputs.len() {
            0 => String::new(),
            1 => match &c.inputs[0] {
                syn::Pat::Type(t) => self.t(&t.pat),
                p => self.t(p),
            },
            _ => return None,
        };
        let (some, none) = match (m.method.to_string().as_str(), m.args.len(), c.inputs.len()) {
            ("map", 1, 1) => (format!("Some({b})"), "None".to_string()),
            ("and_then", 1, 1) => (b, "None".to_string()),
            ("is_some_and", 1, 1) => (b, "false".to_string()),
            ("map_or", 2, 1) => (b, self.t(&m.args[0])),
            ("unwrap_or_else", 1, 0) => return Some(format!("(match {r} {{ Some(__v) => __v, None => {b} }})")),
            ("or_else", 1, 0) => return Some(format!("(match {r} {{ Some(__v) => Some(__v), None => {b} }})")),
            _ => return None,
        };
        Some(format!("(match {r} {{ Some({p}) => {some}, None => {none} }})"))
    }
    fn types(&mut self, sig: &syn::Signature) {
        for a in &sig.inputs {
            if let syn::FnArg::Typed(t) = a {
                if let syn::Pat::Ident(i) = &*t.pat {
                    self.tys.push((i.ident.to_string(), toks(&t.ty)));
                }
            }
        }
    }
}
/// `E.to_le_bytes()` or the array literal under the adapters
fn core(e: &syn::Expr) -> &syn::Expr {
    match unparen(e) {
        syn::Expr::MethodCall(m) if !matches!(m.method.to_string().as_str(), "to_le_bytes" | "to_ne_bytes") => core(&m.receiver),
        syn::Expr::Reference(r) => core(&r.expr),
        e => e,
    }
}
fn prim(t: &str) -> Option<usize> {
    Some(match t {
        "u8" | "i8" => 1,
        "u16" | "i16" => 2,
        "u32" | "i32" | "f32" => 4,
        "u64" | "i64" | "f64" | "usize" | "isize" => 8,
        _ => return None,
    })
}
/// replace an identifier by a literal, unless the text binds it again
fn subst_tok(t: &str, name: &str, with: &str) -> Option<String> {
    let ts: TokenStream = t.parse().ok()?;
    let mut flat = vec![];
    fn walk(ts: TokenStream, o: &mut Vec<(String, (usize, usize))>) {
        for t in ts {
            match t {
                TokenTree::Group(g) => walk(g.stream(), o),
                t => {
                    let r = rng(t.span());
                    o.push((t.to_string(), r));
                }
            }
        }
    }
    walk(ts, &mut flat);
    let base = flat.first().map(|x| x.1 .0)?;
    let off = t.find(flat[0].0.as_str())?;
    let mut o = t.to_string();
    for i in (0..flat.len()).rev() {
        if flat[i].0 != name {
            continue;
        }
        let prev = if i > 0 { flat[i - 1].0.as_str() } else { "" };
        if prev == "." && !(i > 1 && flat[i - 2].0 == ".") {
            continue;
        }
        if matches!(prev, "let" | "mut" | "ref" | "for" | "|") {
            return None;
        }
        let (a, b) = flat[i].1;
        o.replace_range(a - base + off..b - base + off, with);
    }
    Some(o)
}

impl<'a, 'b> Visit<'b> for D<'a> {
    fn visit_item_mod(&mut self, m: &'b syn::ItemMod) {
        if m.ident != "test" && m.ident != "tests" {
            visit::visit_item_mod(self, m);
        }
    }
    fn visit_item_fn(&mut self, f: &'b syn::ItemFn) {
        self.tys.clear();
        self.types(&f.sig);
        self.cur = f.sig.ident.to_string();
        self.early(&f.block);
        visit::visit_item_fn(self, f);
    }
    fn visit_impl_item_fn(&mut self, f: &'b syn::ImplItemFn) {
        self.tys.clear();
        self.types(&f.sig);
        self.cur = f.sig.ident.to_string();
        self.early(&f.block);
        visit::visit_impl_item_fn(self, f);
    }
    fn visit_local(&mut self, l: &'b syn::Local) {
        if let (syn::Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
            if let syn::Expr::Cast(c) = unparen(&init.expr) {
                self.tys.push((i.ident.to_string(), toks(&c.ty)));
            }
        }
        if let syn::Pat::Type(t) = &l.pat {
            if let syn::Pat::Ident(i) = &*t.pat {
                self.tys.push((i.ident.to_string(), toks(&t.ty)));
            }
        }
        if let (syn::Pat::Slice(s), Some(init)) = (&l.pat, &l.init) {
            let n = s.elems.len() - matches!(s.elems.last(), Some(syn::Pat::Rest(_))) as usize;
            let ids = s.elems.iter().take(n).all(|p| matches!(p, syn::Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none()) || matches!(p, syn::Pat::Wild(_)));
            if ids && init.diverge.is_none() {
                let k = self.n;
                self.n += 1;
                let mut o = format!("let __arr{k} = {};", self.t(&init.expr));
                for (i, p) in s.elems.iter().take(n).enumerate() {
                    o.push_str(&format!(" let {} = __arr{k}[{i}];", self.t(p)));
                }
                self.out.push((rng(l.span()), o, "R34 array pattern -> indexed lets"));
            }
        }
        if let Some(init) = &l.init {
            let (p, len) = match &l.pat {
                syn::Pat::Type(t) => (&*t.pat, arr_len(&t.ty)),
                p => (p, None),
            };
            if let syn::Pat::Ident(i) = p {
                self.from_fn(&i.ident.to_string(), len, &init.expr);
            }
        }
        visit::visit_local(self, l);
    }
    fn visit_field_value(&mut self, f: &'b syn::FieldValue) {
        if let syn::Member::Named(i) = &f.member {
            self.from_fn(&i.to_string(), None, &f.expr);
        }
        visit::visit_field_value(self, f);
    }
    fn visit_expr_for_loop(&mut self, f: &'b syn::ExprForLoop) {
        if let Some((len, item)) = self.counted_array(&f.expr) {
            let k = self.n;
            self.n += 1;
            let l = f.label.as_ref().map(|l| self.t(l)).unwrap_or_default();
            let b = self.block_inner(&f.body);
            let i = format!("__ix{k}");
            let item = if item.is_empty() { i.clone() } else { format!("{item}({i})") };
            self.out.push((rng(f.span()), format!("{l}for {i} in 0..{len} {{ let {} = {item}; {b} }}", self.t(&f.pat)), "R46 loop over [X(0), X(1), ..] -> loop over the range"));
            visit::visit_expr_for_loop(self, f);
            return;
        }
        if let Some((p, e)) = self.deref_each(&f.pat, &f.expr) {
            let k = self.n;
            self.n += 1;
            let b = self.block_inner(&f.body);
            let l = f.label.as_ref().map(|l| self.t(l)).unwrap_or_default();
            self.out.push((rng(f.span()), format!("{l}for __each{k} in {e} {{ let {p} = *__each{k}; {b} }}"), EACH));
        }
        if f.label.is_none() {
            if jumps(|j| j.visit_block(&f.body)) == 0 {
                let b = self.block_inner(&f.body);
                if let Some(o) = self.unroll(&f.pat, &f.expr, b) {
                    self.out.push((rng(f.span()), o, "R33 loop over a small array or literal range unrolled"));
                }
            }
            self.guards(&f.body);
        }
        if let Some(o) = self.indexed(f) {
            self.out.push((rng(f.span()), o, "R41 loop over the indices of a vector -> loop over its elements"));
        }
        if let syn::Expr::MethodCall(m) = &*f.expr {
            if m.method == "drain" && m.args.len() == 1 && toks(&m.args[0]) == ".." {
                self.out.push((rng(f.expr.span()), format!("std::mem::take(&mut {})", self.t(&m.receiver)), "R38 for x in v.drain(..) -> std::mem::take(&mut v)"));
            }
        }
        visit::visit_expr_for_loop(self, f);
    }
    fn visit_expr_while(&mut self, w: &'b syn::ExprWhile) {
        if w.label.is_none() {
            self.guards(&w.body);
        }
        visit::visit_expr_while(self, w);
    }
    fn visit_stmt(&mut self, s: &'b syn::Stmt) {
        if let syn::Stmt::Expr(syn::Expr::MethodCall(m), semi) = s {
            if m.method == "for_each" && m.args.len() == 1 {
                if let syn::Expr::Closure(c) = &m.args[0] {
                    if let (1, Some((p, e))) = (c.inputs.len(), self.deref_each(&c.inputs[0], &m.receiver)) {
                        let k = self.n;
                        self.n += 1;
                        let semi = if semi.is_some() { ";" } else { "" };
                        self.out.push((rng(s.span()), format!("{e}.for_each(|__each{k}| {{ let {p} = *__each{k}; {} }}){semi}", self.t(&c.body)), EACH));
                    }
                    let mut sc = HasReturn(false);
                    sc.visit_expr(&c.body);
                    if c.inputs.len() == 1 && !sc.0 {
                        let b = format!("{};", self.t(&c.body));
                        if let Some(o) = self.unroll(&c.inputs[0], &m.receiver, b) {
                            self.out.push((rng(s.span()), o, "R33 loop over a small array or literal range unrolled"));
                        }
                    }
                }
            }
        }
        visit::visit_stmt(self, s);
    }
    fn visit_expr_method_call(&mut self, m: &'b syn::ExprMethodCall) {
        if let Some(o) = self.option(m) {
            self.out.push((rng(m.span()), o, "R43 Option combinator -> match"));
        }
        if m.method == "map" && m.args.len() == 1 {
            if let (syn::Expr::Array(a), syn::Expr::Closure(c)) = (unparen(&m.receiver), &m.args[0]) {
                let mut sc = HasReturn(false);
                sc.visit_expr(&c.body);
                if c.inputs.len() == 1 && !sc.0 && !a.elems.is_empty() && a.elems.len() <= 8 {
                    let els: Vec<String> = a.elems.iter().map(|x| format!("{{ let {} = {}; {} }}", self.t(&c.inputs[0]), self.t(x), self.t(&c.body))).collect();
                    self.out.push((rng(m.span()), format!("[{}]", els.join(", ")), "R40 map over an array literal unrolled"));
                }
            }
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_block(&mut self, b: &'b syn::Block) {
        self.counted(b);
        self.closures(b);
        visit::visit_block(self, b);
    }
    fn visit_expr_call(&mut self, c: &'b syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            let s = p.path.segments.last().unwrap();
            if s.ident == "size_of" && c.args.is_empty() {
                if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                    if let Some(n) = prim(&toks(&a.args)) {
                        self.out.push((rng(c.span()), format!("{n}usize"), "R37 size_of of a primitive type -> its value"));
                    }
                }
            }
        }
        visit::visit_expr_call(self, c);
    }
}
fn arr_len(t: &syn::Type) -> Option<usize> {
    match t {
        syn::Type::Array(a) => match &a.len {
            syn::Expr::Lit(l) => match &l.lit {
                syn::Lit::Int(i) => i.base10_parse().ok(),
                _ => None,
            },
            _ => None,
        },
        _ => None,
    }
}
fn fields(f: &syn::File) -> Vec<(String, usize)> {
    let mut o = vec![];
    for i in &f.items {
        if let syn::Item::Struct(s) = i {
            for f in &s.fields {
                if let (Some(n), Some(l)) = (&f.ident, arr_len(&f.ty)) {
                    o.push((n.to_string(), l));
                }
            }
        }
    }
    o
}
struct Calls {
    name: String,
    found: Vec<syn::ExprCall>,
}
impl<'b> Visit<'b> for Calls {
    fn visit_expr_call(&mut self, c: &'b syn::ExprCall) {
        if toks(&c.func) == self.name {
            self.found.push(c.clone());
        }
        visit::visit_expr_call(self, c);
    }
}
struct Binds(Vec<String>);
impl<'b> Visit<'b> for Binds {
    fn visit_pat_ident(&mut self, i: &'b syn::PatIdent) {
        self.0.push(i.ident.to_string());
        visit::visit_pat_ident(self, i);
    }
}
const EACH: &str = "R45 loop over copied elements -> loop over references";
struct HasReturn(bool);
impl<'b> Visit<'b> for HasReturn {
    fn visit_expr_return(&mut self, _: &'b syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'b syn::ExprTry) {
        self.0 = true;
    }
}

struct Uses {
    name: String,
    n: usize,
}
impl<'b> Visit<'b> for Uses {
    fn visit_ident(&mut self, i: &'b proc_macro2::Ident) {
        self.n += (*i == self.name) as usize;
    }
    fn visit_macro(&mut self, m: &'b syn::Macro) {
        let t = m.tokens.to_string();
        self.n += t.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == self.name) as usize;
    }
}
/// names assigned to or borrowed mutably
struct Assigns(Vec<String>);
impl<'b> Visit<'b> for Assigns {
    fn visit_expr_assign(&mut self, a: &'b syn::ExprAssign) {
        self.0.push(toks(&a.left));
        visit::visit_expr_assign(self, a);
    }
    fn visit_expr_binary(&mut self, b: &'b syn::ExprBinary) {
        self.0.push(toks(&b.left).to_string());
        if !toks(&b.op).ends_with('=') || matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_) | syn::BinOp::Le(_) | syn::BinOp::Ge(_)) {
            self.0.pop();
        }
        visit::visit_expr_binary(self, b);
    }
    fn visit_expr_reference(&mut self, r: &'b syn::ExprReference) {
        if r.mutability.is_some() {
            self.0.push(toks(&r.expr));
        }
        visit::visit_expr_reference(self, r);
    }
}
