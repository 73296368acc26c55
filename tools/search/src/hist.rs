//! Random histories of the public interface against a behavioural model (C06..C12, C14).
use crate::util::*;
use monoasm::*;
use monoasm_macro::monoasm;

const WIN: usize = 40 * 1024;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    U64(u64),
    U32(u32),
    Bytes(usize),
    Abs(usize),
    Align8,
}
#[derive(Clone, Copy)]
struct Ref {
    lab: usize,
    page: usize,
    slot: usize,
    /// end of the instruction (relative reference) or None (absolute, 8 bytes)
    end: Option<usize>,
}
struct Lb {
    id: DestLabel,
    loc: Option<(usize, usize)>,
    /// belongs to a pool item: bound by finalize only
    pool: bool,
}
struct M {
    j: JitMemory,
    base: [u64; 3],
    cur: [usize; 3],
    /// where the observed window of each region starts
    org: [usize; 3],
    /// expected contents; None: unspecified
    mem: [Vec<Option<u8>>; 3],
    sel: usize,
    labs: Vec<Lb>,
    pend: Vec<Ref>,
    pool: Vec<(usize, bool, Kind, usize)>,
    /// placed pool items: region, start, end
    items: Vec<(usize, usize, usize)>,
    /// (page, position) of 5-byte jumps
    jumps: Vec<(usize, usize, usize)>,
    blocks: [Vec<(usize, usize, usize)>; 3],
    top: [usize; 3],
    code_len: [usize; 3],
    log: Vec<String>,
    props: Vec<String>,
    seen: std::collections::HashSet<DestLabelId>,
    seed: u64,
    pub steps: u64,
    pub finals: u64,
}
type DestLabelId = usize;

impl M {
    fn bad(&self, prop: &str, what: String) {
        // (one symptom can contradict several properties)
        if self.props.iter().any(|p| prop.split(' ').any(|q| q == p) || p == "all") {
            let n = self.log.len();
            fail(&format!("[{}] {} | history seed {} ({} steps), ending: {}", prop.trim(), what, self.seed, n, self.log[n.saturating_sub(14)..].join("; ")));
        }
        // another property's finding: this history cannot be followed further
        println!("OTHER [{}] {}", prop, what.replace('\n', " "));
        panic!("abandon");
    }
    fn say(&mut self, s: String) {
        current(&format!("history seed {} step {}: {}", self.seed, self.log.len(), s));
        self.log.push(s);
    }
    fn newlab(&mut self, id: DestLabel, pool: bool) -> usize {
        if !self.seen.insert(id.to_usize()) || self.labs.iter().any(|l| l.id == id) {
            self.bad("C10", format!("label {:?} handed out twice", id));
        }
        self.labs.push(Lb { id, loc: None, pool });
        self.labs.len() - 1
    }
    fn put(&mut self, p: usize, bytes: &[u8]) {
        for b in bytes {
            let c = self.cur[p];
            self.mem[p][c - self.org[p]] = Some(*b);
            self.cur[p] += 1;
        }
    }
    fn real(&self, p: usize) -> &'static [u8] {
        unsafe { std::slice::from_raw_parts((self.base[p] + self.org[p] as u64) as *const u8, WIN) }
    }
    /// memory, positions and labels agree with the model
    fn check(&mut self, prop: &str) {
        for p in 0..3 {
            let r = self.real(p);
            for k in 0..WIN {
                if let Some(b) = self.mem[p][k] {
                    if b != r[k] {
                        let item = self.items.iter().any(|i| i.0 == p && i.1 <= self.org[p] + k && self.org[p] + k < i.2);
                        let prop = &if item { format!("{} C07", prop) } else { prop.to_string() };
                        self.bad(prop, format!("byte {} of region {} is {:#04x}, expected {:#04x} (position {})", self.org[p] + k, p, r[k], b, self.cur[p]));
                    }
                }
            }
        }
        self.check_cur(prop);
    }
    fn check_cur(&mut self, prop: &str) {
        if self.j.get_page() != self.sel {
            self.bad("C11", format!("selected region is {}, expected {}", self.j.get_page(), self.sel));
        }
        if self.j.get_current() != self.cur[self.sel] {
            self.bad(prop, format!("position of region {} is {}, expected {}", self.sel, self.j.get_current(), self.cur[self.sel]));
        }
        let a = self.j.get_current_address().as_ptr() as u64;
        if a != self.base[self.sel] + self.cur[self.sel] as u64 {
            self.bad(&format!("C10 {}", prop), format!("current address is {:#x}, next byte goes to {:#x}", a, self.base[self.sel] + self.cur[self.sel] as u64));
        }
    }
    /// positions of all regions, observed through throw-away labels
    fn check_all_cur(&mut self, prop: &str) {
        for p in 0..3 {
            let l = self.j.label();
            self.newlab(l, false);
            self.j.bind_label_with_page(Page(p), l);
            let n = self.labs.len() - 1;
            self.labs[n].loc = Some((p, self.cur[p]));
            let a = self.j.get_label_u64(l);
            if a != self.base[p] + self.cur[p] as u64 {
                self.bad(prop, format!("position of region {} is {}, expected {}", p, a.wrapping_sub(self.base[p]) as i64, self.cur[p]));
            }
        }
    }
    fn check_labels(&mut self, prop: &str) {
        let prop = &format!("C10 {}", prop);
        for k in 0..self.labs.len() {
            let (id, loc) = (self.labs[k].id, self.labs[k].loc);
            match loc {
                Some((p, c)) => {
                    let want = self.base[p] + c as u64;
                    let j = &mut self.j;
                    let got = quiet(|| [j.get_label_address(id).as_ptr() as u64, j.get_label_u64(id), j.get_label_addr::<u64, u64>(id) as usize as u64, j.get_label_addr2::<u64, u64, u64>(id) as usize as u64]);
                    if got != Some([want; 4]) {
                        self.bad(&if self.labs[k].pool { format!("{} C07", prop) } else { prop.clone() }, format!("label {:?} bound at region {} position {} ({:#x}) reports {:x?}", id, p, c, want, got));
                    }
                }
                None => {
                    // (cheap sample: each query panics)
                    if k % 7 == self.log.len() % 7 {
                        let j = &mut self.j;
                        let got = [quiet(|| j.get_label_address(id).as_ptr() as u64), quiet(|| j.get_label_u64(id)), quiet(|| j.get_label_addr::<u64, u64>(id) as usize as u64), quiet(|| j.get_label_addr2::<u64, u64, u64>(id) as usize as u64)];
                        if got != [None; 4] {
                            self.bad(prop, format!("unbound label {:?} reports an address: {:x?}", id, got));
                        }
                    }
                }
            }
        }
    }
    fn bound(&self, rng: &mut Rng) -> Option<usize> {
        let v: Vec<usize> = (0..self.labs.len()).filter(|k| self.labs[*k].loc.is_some()).collect();
        if v.is_empty() { None } else { Some(rng.pick(&v)) }
    }
    fn guarded(&mut self, prop: &str, f: impl FnOnce(&mut JitMemory)) {
        let j = &mut self.j;
        if quiet(|| f(j)).is_none() {
            let s = self.log.last().cloned().unwrap_or_default();
            self.bad(prop, format!("`{}` panicked", s));
        }
    }
    fn step(&mut self, rng: &mut Rng) {
        self.steps += 1;
        let page = self.sel;
        let full = (0..3).any(|p| self.cur[p] - self.org[p] > WIN - 8000);
        let w = if full { 70 + rng.below(30) } else { rng.below(100) };
        match w {
            0..=14 => {
                // emission, on the selected region or on a named one
                let via = rng.below(4) == 0;
                let p = if via { rng.below(3) as usize } else { page };
                let v = rng.next();
                let n = rng.below(4);
                let v = if rng.below(3) == 0 { v & 0xff00_ff00_80ff_7f80 } else { v };
                self.say(format!("{}emit{}({:#x})", if via { format!("jit[Page({})].", p) } else { String::new() }, ["b", "w", "l", "q"][n as usize], v));
                self.guarded("C08", |j| {
                    let m: &mut MemPage = if via { &mut j[Page(p)] } else { &mut *j };
                    match n {
                        0 => m.emitb(v as u8),
                        1 => m.emitw(v as u16),
                        2 => m.emitl(v as u32),
                        _ => m.emitq(v),
                    }
                });
                self.put(p, &v.to_le_bytes()[..1 << n]);
                self.check("C08");
            }
            15..=22 => {
                let n = if rng.below(4) == 0 { rng.below(200) } else { rng.below(12) } as usize;
                let b: Vec<u8> = (0..n).map(|_| rng.next() as u8).collect();
                self.say(format!("emit({} bytes)", n));
                self.guarded("C08", |j| j.emit(&b));
                self.put(page, &b);
                self.check("C08");
                if rng.below(4) == 0 {
                    self.check_labels("C08");
                }
            }
            23..=29 => {
                let p = if rng.below(4) == 0 { rng.below(3) as usize } else { page };
                let n = if rng.below(30) == 0 { 0 } else { 1 + rng.below(3) } as usize;
                let al = [4096usize, 16, 8, 4][n];
                self.say(format!("jit[Page({})].align {}", p, al));
                self.guarded("C08", |j| match n {
                    0 => j[Page(p)].align_page(),
                    1 => j[Page(p)].align16(),
                    2 => j[Page(p)].align8(),
                    _ => j[Page(p)].align4(),
                });
                self.cur[p] = (self.cur[p] + al - 1) / al * al;
                self.check("C08");
            }
            30..=36 => {
                let s = rng.below(2) as usize;
                self.say(format!("select_page({})", s));
                self.guarded("C11", |j| j.select_page(s));
                self.sel = s;
                self.check("C11");
                self.check_all_cur("C11");
                if rng.below(4) == 0 {
                    self.check_labels("C11");
                }
            }
            37..=41 => {
                self.say("label()".into());
                let l = self.j.label();
                self.newlab(l, false);
                self.check("C10");
            }
            42..=49 => {
                let v: Vec<usize> = (0..self.labs.len()).filter(|k| !self.labs[*k].pool && self.labs[*k].loc.is_none()).collect();
                if v.is_empty() {
                    return;
                }
                let k = rng.pick(&v);
                let id = self.labs[k].id;
                if rng.below(3) == 0 {
                    let p = rng.below(3) as usize;
                    self.say(format!("bind_label_with_page({}, {:?})", p, id));
                    self.guarded("C10", |j| j.bind_label_with_page(Page(p), id));
                    self.labs[k].loc = Some((p, self.cur[p]));
                } else if rng.below(2) == 0 {
                    self.say(format!("bind_label({:?})", id));
                    self.guarded("C10", |j| j.bind_label(id));
                    self.labs[k].loc = Some((page, self.cur[page]));
                } else {
                    self.say(format!("monoasm!({:?}:)", id));
                    self.guarded("C10", |j| { let jit = j; monoasm!(jit, id:); });
                    self.labs[k].loc = Some((page, self.cur[page]));
                }
                self.check("C10");
                self.check_labels("");
            }
            50..=69 => {
                // an instruction with a label operand
                if self.labs.is_empty() {
                    return;
                }
                let k = rng.below(self.labs.len() as u64) as usize;
                let l = self.labs[k].id;
                let n = rng.below(12);
                let (c, r) = (rng.next() as i64, rng.below(16));
                let (i32_, i16_, i8_) = (c as i32 as i64, c as i16 as i64, c as i8 as i64);
                let start = self.cur[page];
                let names = ["jmp l", "jne l", "call l", "movq R(r), [rip + l]", "lea R(r), [rip + l]", "movl [rip + l], i32", "movw [rip + l], i16", "movb [rip + l], i8", "addq [rip + l], i", "roundpd xmm(r), [rip + l], 3", "jmp [rip + l]", "movsd xmm(r), [rip + l]"];
                self.say(format!("{} (l={:?}, r={}, i={:#x})", names[n as usize], l, r, c));
                // (instruction, bytes after the slot)
                let mut tail = 0;
                self.guarded("C06", |j| {
                    let jit = j;
                    match n {
                        0 => monoasm!(jit, jmp l;),
                        1 => monoasm!(jit, jne l;),
                        2 => monoasm!(jit, call l;),
                        3 => monoasm!(jit, movq R(r), [rip + l];),
                        4 => monoasm!(jit, lea R(r), [rip + l];),
                        5 => { tail = 4; monoasm!(jit, movl [rip + l], (i32_);) }
                        6 => { tail = 2; monoasm!(jit, movw [rip + l], (i16_);) }
                        7 => { tail = 1; monoasm!(jit, movb [rip + l], (i8_);) }
                        8 => {
                            let i = if c & 1 == 0 { i8_ } else { i32_ };
                            tail = if i >= -128 && i < 128 { 1 } else { 4 };
                            monoasm!(jit, addq [rip + l], (i);)
                        }
                        9 => { tail = 1; monoasm!(jit, roundpd xmm(r), [rip + l], 3;) }
                        10 => monoasm!(jit, jmp [rip + l];),
                        _ => monoasm!(jit, movsd xmm(r), [rip + l];),
                    }
                });
                let end = self.j.get_current();
                if end < start + 5 + tail || end > start + 15 || self.sel != self.j.get_page() {
                    self.bad("C08", format!("the instruction moved the position from {} to {}", start, end));
                }
                // the instruction bytes themselves are other properties' business
                let real = self.real(page);
                let org = self.org[page];
                for q in start - org..end - org {
                    self.mem[page][q] = Some(real[q]);
                }
                let slot = end - tail - 4;
                for q in slot - org..slot - org + 4 {
                    self.mem[page][q] = None;
                }
                self.cur[page] = end;
                self.pend.push(Ref { lab: k, page, slot, end: Some(end) });
                if n == 0 {
                    self.jumps.push((page, start, end));
                }
                self.check("C08");
            }
            70..=83 => {
                // pool request
                if (0..3).any(|p| self.cur[p] - self.org[p] > WIN - 4000) && self.pool.len() > 4 {
                    return self.finalize();
                }
                let n = rng.below(9);
                let v = rng.next();
                let sz = match rng.below(6) { 0 => 0, 1 => rng.below(64) as usize, 2 => 16 * rng.below(4) as usize, _ => rng.below(20) as usize };
                if n == 7 && self.labs.is_empty() {
                    return;
                }
                let t = if self.labs.is_empty() { 0 } else { rng.below(self.labs.len() as u64) as usize };
                let tl = self.labs.get(t).map(|l| l.id);
                let names = ["const_f64", "const_i64", "const_i32", "constant", "data_i64", "data_i32", "data", "abs_address", "const_align8"];
                self.say(format!("{}({})", names[n as usize], match n { 3 | 6 => format!("{}", sz), 7 => format!("{:?}", tl), 8 => String::new(), _ => format!("{:#x}", v) }));
                let j = &mut self.j;
                let r = quiet(|| match n {
                    0 => (j.const_f64(f64::from_bits(v)), false, Kind::U64(v)),
                    1 => (j.const_i64(v as i64), false, Kind::U64(v)),
                    2 => (j.const_i32(v as i32), false, Kind::U32(v as u32)),
                    3 => (j.constant(sz), false, Kind::Bytes(sz)),
                    4 => (j.data_i64(v as i64), true, Kind::U64(v)),
                    5 => (j.data_i32(v as i32), true, Kind::U32(v as u32)),
                    6 => (j.data(sz), true, Kind::Bytes(sz)),
                    7 => (j.abs_address(tl.unwrap()), false, Kind::Abs(t)),
                    _ => (j.const_align8(), false, Kind::Align8),
                });
                let Some((l, d, k)) = r else { return self.bad("C07", format!("`{}` panicked", self.log.last().unwrap())) };
                let li = self.newlab(l, true);
                self.pool.push((page, d, k, li));
                self.check("C07");
            }
            84..=90 => self.finalize(),
            91..=95 => {
                // patch a jump
                if self.jumps.is_empty() {
                    return;
                }
                let Some(d) = self.bound(rng) else { return };
                let (p, s, e) = rng.pick(&self.jumps);
                let dl = self.labs[d].id;
                let (dp, dc) = self.labs[d].loc.unwrap();
                if e != s + 5 {
                    return;
                }
                if self.pend.iter().any(|r| r.page == p && r.slot == s + 1) && rng.below(2) == 0 {
                    return;
                }
                // through a label bound to the jump, if there is one
                let via = (0..self.labs.len()).find(|k| self.labs[*k].loc == Some((p, s)));
                self.say(format!("apply_jmp_patch{}(region {} position {}, {:?})", if via.is_some() { "" } else { "_address" }, p, s, dl));
                let pp = CodePtr::from((self.base[p] + s as u64) as *mut u8);
                match via {
                    Some(v) if rng.below(2) == 0 => {
                        let vl = self.labs[v].id;
                        self.guarded("C12", |j| j.apply_jmp_patch(vl, dl));
                    }
                    _ => self.guarded("C12", |j| j.apply_jmp_patch_address(pp, dl)),
                }
                let disp = (self.base[dp] + dc as u64) as i64 - (self.base[p] + s as u64) as i64 - 5;
                for (k, b) in (disp as i32).to_le_bytes().iter().enumerate() {
                    self.mem[p][s - self.org[p] + 1 + k] = Some(*b);
                }
                self.check("C12");
                self.check_all_cur("C12");
                self.check_labels("C12");
            }
            _ => {
                self.say("queries".into());
                self.check_labels("");
                self.check_slice();
                self.check_all_cur("C08");
                let b = self.base[0];
                for p in [b, b - 1, b + 2 * REGION - 1, b + 2 * REGION, b + REGION, b + rng.below(2 * REGION), rng.next(), 0, 1, u64::MAX, b + REGION - 1, b + 3 * REGION - 1, b.wrapping_sub(REGION)] {
                    let want = p >= b && p < b + 2 * REGION;
                    if self.j.include(p as *mut u8) != want {
                        self.bad("C14", format!("include({:#x}) is {} with region {} selected (regions start at {:#x})", p, !want, self.sel, b));
                    }
                }
                self.check("C11");
            }
        }
    }
    fn check_slice(&mut self) {
        let s = self.j.as_slice();
        if s.as_ptr() as u64 != self.base[self.sel] || s.len() != self.code_len[self.sel] {
            let (o, l) = (s.as_ptr() as u64, s.len());
            self.bad("C11", format!("code slice of region {} is {} bytes at offset {}, code of the latest finalization ends at {}", self.sel, l, o.wrapping_sub(self.base[self.sel]) as i64, self.code_len[self.sel]));
        }
        for p in 0..3 {
            let got = &self.j[Page(p)].code_block;
            let want: Vec<(Pos, Pos, Pos)> = self.blocks[p].iter().map(|b| (Pos::from(b.0), Pos::from(b.1), Pos::from(b.2))).collect();
            if *got != want {
                let g = format!("{:?}", got);
                self.bad("C11", format!("blocks of region {} are {}, expected {:?}", p, g, self.blocks[p]));
            }
        }
    }
    fn finalize(&mut self) {
        self.finals += 1;
        self.say("finalize()".into());
        let code_end = self.cur;
        self.guarded("C06", |j| j.finalize());
        self.check_sel();
        // where did each pool item go
        let pool = std::mem::take(&mut self.pool);
        let mut used: [Vec<(usize, usize, String)>; 3] = Default::default();
        for (page, data, kind, li) in pool {
            let id = self.labs[li].id;
            let j = &mut self.j;
            let Some(a) = quiet(|| j.get_label_u64(id)) else {
                self.bad("C07", format!("item {:?} has no address after finalize", kind));
                unreachable!()
            };
            let p = if data { 2 } else { page };
            let what = format!("{:?} requested for region {}", kind, p);
            if a < self.base[p] + code_end[p] as u64 || a > self.base[p] + (self.org[p] + WIN) as u64 {
                self.bad("C07", format!("item {} was placed at {:#x}: not behind the code of its region (which starts at {:#x}, code ends at +{})", what, a, self.base[p], code_end[p]));
            }
            let pos = (a - self.base[p]) as usize;
            let (size, align) = match kind {
                Kind::U64(_) => (8, 8),
                Kind::U32(_) => (4, 4),
                Kind::Bytes(n) => (n, 16),
                Kind::Abs(_) => (8, 8),
                Kind::Align8 => (0, 8),
            };
            if pos % align != 0 {
                self.bad("C07", format!("item {} is at position {}, not aligned to {}", what, pos, align));
            }
            self.labs[li].loc = Some((p, pos));
            for (s, e, w) in &used[p] {
                if pos < *e && *s < pos + size {
                    let w = w.clone();
                    self.bad("C07", format!("items {} and {} overlap at position {}", what, w, pos));
                }
            }
            used[p].push((pos, pos + size, what));
            self.items.push((p, pos, pos + size));
            match kind {
                Kind::U64(v) => self.expect(p, pos, &v.to_le_bytes()),
                Kind::U32(v) => self.expect(p, pos, &v.to_le_bytes()),
                Kind::Bytes(n) => self.expect(p, pos, &vec![0; n]),
                Kind::Abs(t) => {
                    for q in pos..pos + 8 {
                        self.mem[p][q - self.org[p]] = None;
                    }
                    self.pend.push(Ref { lab: t, page: p, slot: pos, end: None });
                }
                Kind::Align8 => {}
            }
        }
        // new positions: behind every item, and no further than alignment explains
        for p in 0..3 {
            let l = self.j.label();
            self.newlab(l, false);
            let n = self.labs.len() - 1;
            self.j.bind_label_with_page(Page(p), l);
            let c = self.j.get_label_u64(l).wrapping_sub(self.base[p]);
            let hi = used[p].iter().map(|u| u.1).max().unwrap_or(code_end[p]).max(code_end[p]) as u64;
            if c < hi || c > hi + 16 {
                self.bad("C07", format!("after finalize the position of region {} is {}, items and code end at {}", p, c as i64, hi));
            }
            // between the items: padding, unspecified
            let c = c as usize;
            for q in code_end[p]..c {
                if !used[p].iter().any(|u| u.0 <= q && q < u.1) {
                    self.mem[p][q - self.org[p]] = None;
                }
            }
            self.labs[n].loc = Some((p, c));
            self.cur[p] = c;
            self.blocks[p].push((self.top[p], code_end[p], c));
            self.top[p] = c;
            self.code_len[p] = code_end[p];
        }
        // references
        let pend = std::mem::take(&mut self.pend);
        for r in pend {
            match self.labs[r.lab].loc {
                None => self.pend.push(r),
                Some((lp, lc)) => {
                    let a = self.base[lp] + lc as u64;
                    let want = match r.end {
                        Some(e) => (a.wrapping_sub(self.base[r.page] + e as u64) as u32).to_le_bytes().to_vec(),
                        None => a.to_le_bytes().to_vec(),
                    };
                    let slot = r.slot - self.org[r.page];
                    let got = &self.real(r.page)[slot..slot + want.len()];
                    if got != &want[..] {
                        self.bad(if r.end.is_none() { "C06 C07" } else { "C06" }, format!("reference at region {} position {} (instruction end {:?}) to label {:?} at region {} position {} holds {}, expected {}", r.page, r.slot, r.end, self.labs[r.lab].id, lp, lc, hex(got), hex(&want)));
                    }
                    for (k, b) in want.iter().enumerate() {
                        self.mem[r.page][slot + k] = Some(*b);
                    }
                }
            }
        }
        // (the throw-away position labels above were bound after the fact)
        self.check("C06");
        self.check_labels("");
        self.check_slice();
    }
    fn check_sel(&mut self) {
        if self.j.get_page() != self.sel {
            self.bad("C11", format!("finalize changed the selected region to {}", self.j.get_page()));
        }
    }
    fn expect(&mut self, p: usize, pos: usize, b: &[u8]) {
        let o = self.org[p];
        let got = &self.real(p)[pos - o..pos - o + b.len()];
        if got != b {
            self.bad("C07", format!("pool item at region {} position {} holds {}, expected {}", p, pos, hex(got), hex(b)));
        }
        for (k, x) in b.iter().enumerate() {
            self.mem[p][pos - o + k] = Some(*x);
        }
    }
}

/// Move a region's position near `to` without writing every byte.
pub fn advance(j: &mut JitMemory, p: usize, base: u64, to: usize) -> usize {
    let mut c = 0;
    while c + 4096 <= to {
        j[Page(p)].emitb(0xcc);
        j[Page(p)].align_page();
        c += 4096;
    }
    tick();
    c
}

pub fn one(props: &str, seed: u64, len: u64, org: [usize; 3]) -> (u64, u64) {
    let mut rng = Rng::new(seed);
    let mut j = JitMemory::new();
    let base = bases(&mut j);
    let mut mem: [Vec<Option<u8>>; 3] = Default::default();
    let mut cur = [0; 3];
    for p in 0..3 {
        current(&format!("history seed {}: moving region {} to position {:#x}", seed, p, org[p]));
        let Some(c) = quiet(|| advance(&mut j, p, base[p], org[p])) else {
            println!("OTHER [C08] could not move region {} to position {:#x}", p, org[p]);
            return (0, 0);
        };
        cur[p] = c;
        j.select_page(p.min(1));
        if p < 2 && j.get_current() != c {
            println!("OTHER [C08] region {} did not move to position {:#x}", p, c);
            return (0, 0);
        }
        j.select_page(0);
    }
    let org = cur;
    for p in 0..3 {
        // recognisable old contents
        for k in 0..WIN {
            let b = (k as u8).wrapping_mul(31) ^ 0xa5 ^ p as u8;
            unsafe { *((base[p] + (org[p] + k) as u64) as *mut u8) = b };
            mem[p].push(Some(b));
        }
    }
    let mut m = M {
        j, base, cur, org, mem, sel: 0, labs: vec![], pend: vec![], pool: vec![], items: vec![], jumps: vec![], blocks: Default::default(), top: [0; 3], code_len: [0; 3],
        log: vec![], props: props.split(',').map(|s| s.to_string()).collect(), seen: Default::default(), seed, steps: 0, finals: 0,
    };
    // the three labels used by bases()
    if quiet(|| {
        for _ in 0..len {
            m.step(&mut rng);
        }
        m.finalize();
    }).is_none() {
        println!("OTHER history seed {} abandoned", seed);
    }
    tick();
    // the buffer is never freed: give its memory back
    unsafe { madvise(m.base[0] as *mut u8, 3 * REGION as usize, 4) };
    (m.steps, m.finals)
}

const MB: usize = 1 << 20;
const FAR: [[usize; 3]; 4] = [[60 * 1024, 255 * MB, 128 * MB - 20480], [255 * MB, 16 * MB - 20480, 60 * 1024], [128 * MB - 20480, 60 * 1024, 255 * MB], [16 * MB - 20480, 128 * MB - 20480, 16 * MB - 20480]];

pub fn run(props: &str, seed: u64, n: u64) {
    let (mut s, mut f) = (0, 0);
    for k in 0..n {
        // now and then, far into the regions
        let org = if k % 50 == 7 { FAR[(k / 50 + seed) as usize % FAR.len()] } else { [0; 3] };
        let (a, b) = one(props, seed.wrapping_mul(1_000_003).wrapping_add(k), if k % 4 == 0 { 60 } else { 250 }, org);
        s += a;
        f += b;
    }
    println!("STAT histories={} evaluations={} finalizations={}", n, s, f);
}
