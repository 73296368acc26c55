//! The same behaviour in large numbers: many labels, many references to one label, many pool
//! items, large blocks, large slices, many finalizations.
use crate::util::*;
use monoasm::*;
use monoasm_macro::monoasm;

struct B {
    j: JitMemory,
    base: [u64; 3],
    props: Vec<String>,
    n: u64,
}
impl B {
    fn bad(&self, prop: &str, what: String) {
        if self.props.iter().any(|p| prop.split(' ').any(|q| q == p) || p == "all") {
            fail(&format!("[{}] {}", prop, what));
        }
        println!("OTHER [{}] {}", prop, what.replace('\n', " "));
        panic!("abandon");
    }
    fn ok(&mut self, prop: &str, c: bool, what: impl FnOnce() -> String) {
        self.n += 1;
        if !c {
            self.bad(prop, what());
        }
    }
    fn mem(&self, p: usize, pos: usize, n: usize) -> &'static [u8] {
        unsafe { std::slice::from_raw_parts((self.base[p] + pos as u64) as *const u8, n) }
    }
    fn dirty(&self, p: usize, pos: usize, n: usize) {
        unsafe { std::ptr::write_bytes((self.base[p] + pos as u64) as *mut u8, 0xa5, n) }
    }
    fn pos(&mut self, p: usize) -> usize {
        let l = self.j.label();
        self.j.bind_label_with_page(Page(p), l);
        (self.j.get_label_u64(l) - self.base[p]) as usize
    }
    fn go(&mut self, prop: &str, what: &str, f: impl FnOnce(&mut JitMemory)) {
        current(what);
        let j = &mut self.j;
        if quiet(|| f(j)).is_none() {
            self.bad(prop, format!("{} panicked", what));
        }
        tick();
    }
}

/// `n` references of each kind to one label, bound before or after them, in any region
fn refs(b: &mut B, rng: &mut Rng, n: usize, page: usize, lpage: usize, before: bool) {
    let what = format!("{} references from region {} to one label of region {}, bound {}", n, page, lpage, if before { "first" } else { "last" });
    current(&what);
    b.j.select_page(page);
    let l = b.j.label();
    let mut loc = 0;
    if before {
        b.j[Page(lpage)].emitb(0x90);
        loc = b.pos(lpage);
        b.j.bind_label_with_page(Page(lpage), l);
    }
    let mut slots = vec![];
    let mut abs = vec![];
    for k in 0..n {
        let i = rng.next() as i32 as i64;
        let j = &mut b.j;
        let tail = match k % 4 {
            0 => { let jit = j; monoasm!(jit, jmp l;); 0 }
            1 => { let jit = j; monoasm!(jit, movl [rip + l], (i);); 4 }
            2 => { let jit = j; monoasm!(jit, lea rax, [rip + l];); 0 }
            _ => { abs.push(j.abs_address(l)); continue }
        };
        slots.push((b.j.get_current() - tail - 4, b.j.get_current()));
    }
    if !before {
        b.j[Page(lpage)].emitb(0x90);
        loc = b.pos(lpage);
        b.j.bind_label_with_page(Page(lpage), l);
    }
    b.go("C06", &what, |j| j.finalize());
    let a = b.base[lpage] + loc as u64;
    for (s, e) in slots {
        let want = (a.wrapping_sub(b.base[page] + e as u64) as u32).to_le_bytes();
        let got = b.mem(page, s, 4);
        b.ok("C06", got == want, || format!("{}: the slot at position {} holds {}, expected {}", what, s, hex(got), hex(&want)));
    }
    for x in abs {
        let p = (b.j.get_label_u64(x) - b.base[page]) as usize;
        let got = b.mem(page, p, 8);
        b.ok("C06 C07", got == a.to_le_bytes(), || format!("{}: the absolute address at position {} holds {}, expected {:#x}", what, p, hex(got), a));
    }
}

fn pool(b: &mut B, rng: &mut Rng, n: usize, page: usize) {
    let what = format!("{} pool items of region {}", n, page);
    b.j.select_page(page);
    b.j.emitb(0xc3);
    let (end, dend) = (b.pos(page), b.pos(2));
    b.dirty(page, end, 60 * n);
    b.dirty(2, dend, 60 * n);
    let mut items = vec![];
    for _ in 0..n {
        let v = rng.next();
        let sz = rng.below(40) as usize;
        items.push(match rng.below(6) {
            0 => (b.j.const_i64(v as i64), page, v.to_le_bytes().to_vec(), 8),
            1 => (b.j.const_i32(v as i32), page, (v as u32).to_le_bytes().to_vec(), 4),
            2 => (b.j.constant(sz), page, vec![0; sz], 16),
            3 => (b.j.data_i64(v as i64), 2, v.to_le_bytes().to_vec(), 8),
            4 => (b.j.data_i32(v as i32), 2, (v as u32).to_le_bytes().to_vec(), 4),
            _ => (b.j.data(sz), 2, vec![0; sz], 16),
        });
    }
    b.go("C07", &format!("finalize() with {}", what), |j| j.finalize());
    let mut used = vec![];
    for (k, (l, p, bytes, al)) in items.iter().enumerate() {
        let j = &mut b.j;
        let Some(a) = quiet(|| j.get_label_u64(*l)) else { return b.bad("C07", format!("{}: item {} has no address", what, k)) };
        let off = a.wrapping_sub(b.base[*p]) as usize;
        let lo = if *p == 2 { dend } else { end };
        b.ok("C07", off >= lo && off % al == 0 && off < lo + 60 * n, || format!("{}: item {} ({} bytes) at position {} of region {}", what, k, bytes.len(), off as i64, p));
        let got = b.mem(*p, off, bytes.len());
        b.ok("C07", got == &bytes[..], || format!("{}: item {} holds {}, expected {}", what, k, hex(got), hex(bytes)));
        if bytes.len() > 0 {
            used.push((*p, off, off + bytes.len()));
        }
    }
    used.sort();
    for w in used.windows(2) {
        b.ok("C07", w[0].0 != w[1].0 || w[0].2 <= w[1].1, || format!("{}: items overlap at position {} of region {}", what, w[1].1, w[1].0));
    }
    for (p, c) in [(page, b.pos(page)), (2, b.pos(2))] {
        let hi = used.iter().filter(|u| u.0 == p).map(|u| u.2).max().unwrap_or(0);
        b.ok("C07", c >= hi, || format!("{}: position {} of region {} after finalize, items end at {}", what, c, p, hi));
    }
}

fn block(b: &mut B, n: usize, page: usize, data: bool) {
    let p = if data { 2 } else { page };
    let what = format!("a zeroed block of {} bytes in region {}", n, p);
    b.j.select_page(page);
    b.j[Page(p)].emitb(0xc3);
    let end = b.pos(p);
    b.dirty(p, end, n + 64);
    let l = if data { b.j.data(n) } else { b.j.constant(n) };
    let l2 = if data { b.j.data_i32(0x11223344) } else { b.j.const_i32(0x11223344) };
    b.go("C07", &what, |j| j.finalize());
    let off = b.j.get_label_u64(l).wrapping_sub(b.base[p]) as usize;
    b.ok("C07", off >= end && off < end + 16 && off % 16 == 0, || format!("{} is at position {}, code ends at {}", what, off as i64, end));
    let m = b.mem(p, off, n);
    let z = m.iter().position(|x| *x != 0);
    b.ok("C07", z.is_none(), || format!("{}: byte {} is not zero", what, z.unwrap()));
    let o2 = b.j.get_label_u64(l2).wrapping_sub(b.base[p]) as usize;
    b.ok("C07", o2 >= off + n && b.mem(p, o2, 4) == [0x44, 0x33, 0x22, 0x11], || format!("the item after {} is at {} (block at {})", what, o2 as i64, off));
    let c = b.pos(p);
    b.ok("C07", c == o2 + 4, || format!("{}: position {} after the last item at {}", what, c, o2));
}

fn slices(b: &mut B, rng: &mut Rng, n: usize, page: usize) {
    let what = format!("emit of {} bytes in region {}", n, page);
    b.j.select_page(page);
    let s: Vec<u8> = (0..n).map(|_| rng.next() as u8).collect();
    let at = b.j.get_current();
    b.dirty(page, at, n + 32);
    let other = [b.pos(0), b.pos(1), b.pos(2)];
    b.go("C08", &what, |j| j.emit(&s));
    let c = b.j.get_current();
    b.ok("C08", c == at + n, || format!("{} moved the position from {} to {}", what, at, c));
    let m = b.mem(page, at, n);
    b.ok("C08", m == &s[..], || format!("{}: byte {} differs", what, (0..n).position(|k| m[k] != s[k]).unwrap()));
    let t = b.mem(page, at + n, 32);
    b.ok("C08", t == [0xa5; 32], || format!("{} wrote beyond its end", what));
    for p in 0..3 {
        let c = b.pos(p);
        b.ok("C08", c == if p == page { at + n } else { other[p] }, || format!("{}: position of region {} is {}", what, p, c));
    }
}

fn labels(b: &mut B, rng: &mut Rng, n: usize) {
    let what = format!("{} labels", n);
    current(&what);
    let ls: Vec<DestLabel> = (0..n).map(|_| b.j.label()).collect();
    let mut seen = std::collections::HashSet::new();
    for l in &ls {
        b.ok("C10", seen.insert(l.to_usize()), || format!("{}: {:?} handed out twice", what, l));
    }
    tick();
    let mut at = vec![];
    for (k, l) in ls.iter().enumerate() {
        let p = (rng.below(3)) as usize;
        if k % 5 == 4 {
            at.push(None);
            continue;
        }
        if p < 2 {
            b.j.select_page(p);
        }
        if rng.below(4) == 0 {
            b.j[Page(p)].emitb(0x90);
        }
        let a = if p < 2 { b.j.get_current_address().as_ptr() as u64 } else { 0 };
        if p < 2 && k % 2 == 0 {
            b.j.bind_label(*l);
        } else {
            b.j.bind_label_with_page(Page(p), *l);
        }
        at.push(Some((p, a)));
    }
    for round in 0..2 {
        let mut last = b.base;
        for (k, l) in ls.iter().enumerate() {
            match at[k] {
                Some((p, a)) => {
                    let g = [b.j.get_label_u64(*l), b.j.get_label_address(*l).as_ptr() as u64, b.j.get_label_addr::<u64, u64>(*l) as usize as u64];
                    let w = if p < 2 { a } else { g[0] };
                    b.ok("C10", g == [w; 3] && w >= last[p] && w < b.base[p] + REGION, || format!("{}: label {:?} (number {}) bound at {:#x} of region {} reports {:x?}", what, l, k, w, p, g));
                    last[p] = w;
                }
                None if k % 101 == 4 => {
                    let j = &mut b.j;
                    let g = quiet(|| j.get_label_u64(*l));
                    b.ok("C10", g.is_none(), || format!("{}: unbound label {:?} reports {:x?}", what, l, g));
                }
                None => {}
            }
        }
        if round == 0 {
            b.go("C10", "finalize()", |j| j.finalize());
        }
        tick();
    }
}

fn finals(b: &mut B, rng: &mut Rng, n: usize) {
    let mut want: [Vec<(usize, usize, usize)>; 3] = Default::default();
    b.go("C11", "finalize()", |j| j.finalize());
    let n0: Vec<usize> = (0..3).map(|p| b.j[Page(p)].code_block.len()).collect();
    let mut top = [b.pos(0), b.pos(1), b.pos(2)];
    for k in 0..n {
        let sel = rng.below(2) as usize;
        b.j.select_page(sel);
        for _ in 0..rng.below(4) {
            b.j.emitb(0x90);
        }
        if rng.below(3) == 0 {
            b.j.const_i32(k as i32);
        }
        if rng.below(5) == 0 {
            b.j.data_i32(k as i32);
        }
        let code = [b.pos(0), b.pos(1), b.pos(2)];
        b.go("C11", "finalize()", |j| j.finalize());
        for p in 0..3 {
            let e = b.pos(p);
            want[p].push((top[p], code[p], e));
            top[p] = e;
        }
        for p in 0..2 {
            b.j.select_page(p);
            let s = (b.j.as_slice().as_ptr() as u64, b.j.as_slice().len());
            let base = b.base[p];
            b.ok("C11", s == (base, code[p]), || format!("finalization {}: code slice of region {} is {} bytes at offset {}, code ends at {}", k, p, s.1, s.0.wrapping_sub(base) as i64, code[p]));
        }
    }
    for p in 0..3 {
        let g: Vec<(Pos, Pos, Pos)> = b.j[Page(p)].code_block[n0[p]..].to_vec();
        b.ok("C11", g.len() == n, || format!("{} finalizations added {} blocks to region {}", n, g.len(), p));
        for k in 0..n {
            let w = (Pos::from(want[p][k].0), Pos::from(want[p][k].1), Pos::from(want[p][k].2));
            b.ok("C11", g[k] == w, || format!("block {} of region {} is {:?}, expected {:?}", k, p, g[k], w));
        }
    }
}

/// jumps patched over all distances
fn patches(b: &mut B) {
    let mut at = vec![];
    for p in 0..3 {
        for to in [0usize, 0x80, 0x8001, 0x10003, 0x80_0000, 0x100_0007, 0x800_0001, 0xff0_0003] {
            current(&format!("moving region {} to {:#x}", p, to));
            let mut c = b.pos(p);
            while c + 4096 <= to {
                b.j[Page(p)].emitb(0x90);
                b.j[Page(p)].align_page();
                c = b.pos(p);
            }
            tick();
            for _ in 0..to.saturating_sub(c) {
                b.j[Page(p)].emitb(0x90);
            }
            let l = b.j.label();
            b.j.bind_label_with_page(Page(p), l);
            let c = b.pos(p);
            for x in [0xe9, 1, 2, 3, 4, 0x90, 0x91] {
                b.j[Page(p)].emitb(x);
            }
            at.push((l, p, c));
        }
    }
    for &(s, sp, sc) in &at {
        for &(d, dp, dc) in &at {
            let (sa, da) = ((b.base[sp] + sc as u64) as i64, (b.base[dp] + dc as u64) as i64);
            let what = format!("patching the jump at region {} position {:#x} to region {} position {:#x}", sp, sc, dp, dc);
            if (sc + dc) % 2 == 0 {
                b.go("C12", &what, |j| j.apply_jmp_patch(s, d));
            } else {
                b.go("C12", &what, |j| j.apply_jmp_patch_address(CodePtr::from(sa as *mut u8), d));
            }
            let mut w = vec![0xe9];
            w.extend(((da - sa - 5) as i32).to_le_bytes());
            w.extend([0x90, 0x91]);
            let m = b.mem(sp, sc, 7);
            b.ok("C12", m == &w[..], || format!("{} left {}, expected {}", what, hex(m), hex(&w)));
        }
    }
}

pub fn run(props: &str, seed: u64, deep: u64) {
    let mut n = 0;
    let mut rng = Rng::new(seed);
    let d = deep > 0;
    for k in 0..7 {
        let mut j = JitMemory::new();
        let base = bases(&mut j);
        let mut b = B { j, base, props: props.split(',').map(|s| s.to_string()).collect(), n: 0 };
        let r = quiet(|| match k {
            0 => {
                for (n, p, lp, f) in [(40, 0, 1, true), (1100, 0, 0, false), (1100, 1, 2, true), (1100, 1, 0, false), (if d { 300_000 } else { 70_000 }, 0, 0, true), (if d { 300_000 } else { 70_000 }, 0, 1, false)] {
                    refs(&mut b, &mut rng, n, p, lp, f);
                }
            }
            1 => {
                for (n, p) in [(300, 0), (300, 1), (5000, 1), (if d { 200_000 } else { 70_000 }, 0)] {
                    pool(&mut b, &mut rng, n, p);
                }
            }
            2 => {
                for n in [255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20, if d { 1 << 26 } else { (1 << 24) + 3 }] {
                    block(&mut b, n, n % 2, false);
                    block(&mut b, n, n % 2, true);
                }
            }
            3 => {
                for n in [255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20, if d { 1 << 26 } else { (1 << 24) + 3 }] {
                    slices(&mut b, &mut rng, n, n % 2);
                    slices(&mut b, &mut rng, n, 1 - n % 2);
                }
            }
            4 => labels(&mut b, &mut rng, if d { 300_000 } else { 140_000 }),
            5 => finals(&mut b, &mut rng, if d { 6_000 } else { 1_200 }),
            _ => patches(&mut b),
        });
        if r.is_none() {
            println!("OTHER part {} abandoned", k);
        }
        n += b.n;
        tick();
        unsafe { madvise(b.base[0] as *mut u8, 3 * REGION as usize, 4) };
    }
    println!("STAT evaluations={}", n);
}
