//! C09 (the end of a region) and C14 (layout, protection), C12 (code pointers).
use crate::util::*;
use monoasm::*;
use monoasm_macro::monoasm;

const R: usize = REGION as usize;

fn at(j: &JitMemory, base: u64) -> usize {
    (j.get_current_address().as_ptr() as u64).wrapping_sub(base) as usize
}

/// Fill the selected region up to `rem` bytes before its end.
fn fill(j: &mut JitMemory, rem: usize) {
    let buf = vec![0xc3u8; 1 << 20];
    let mut left = R - rem - j.get_current();
    while left > 0 {
        tick();
        let n = left.min(buf.len());
        j.emit(&buf[..n]);
        left -= n;
    }
}

/// Operations of a given size near the end. Returns None when it panicked.
const SIZED: &[(&str, usize)] = &[("emitb", 1), ("emitw", 2), ("emitl", 4), ("emitq", 8), ("emit[3]", 3), ("emit[13]", 13), ("emit[0]", 0), ("ret", 1), ("movq r,imm64", 10), ("jmp", 5), ("movq r,[rip+l]", 7)];
fn sized(j: &mut JitMemory, k: usize, l: DestLabel) -> bool {
    quiet(|| match k {
        0 => j.emitb(0x11),
        1 => j.emitw(0x1122),
        2 => j.emitl(0x11223344),
        3 => j.emitq(0x1122334455667788),
        4 => j.emit(&[1, 2, 3]),
        5 => j.emit(&[7; 13]),
        6 => j.emit(&[]),
        7 => { let jit = j; monoasm!(jit, ret;) }
        8 => { let jit = j; monoasm!(jit, movq rax, (0x1234_5678_9abc_def0i64);) }
        9 => { let jit = j; monoasm!(jit, jmp l;) }
        _ => { let jit = j; monoasm!(jit, movq rax, [rip + l];) }
    })
    .is_some()
}

/// One start distance from the end of region `page`: every operation that fits must succeed,
/// every operation that does not fit must panic without touching the following memory.
pub fn end(page: usize, rem: usize) -> u64 {
    let mut j = JitMemory::new();
    let base = bases(&mut j);
    j.select_page(page);
    let next = base[page] + REGION;
    let guard = |v: u8| unsafe {
        for k in 0..64 {
            *((next + k) as *mut u8) = v;
        }
    };
    guard(0x5a);
    let clean = |what: &str, jpos: usize| {
        for k in 0..64 {
            let b = unsafe { *((next + k) as *const u8) };
            if b != 0x5a {
                fail(&format!("{} at {} bytes before the end of region {} wrote {:#04x} at {} bytes beyond it", what, R - jpos, page, b, k));
            }
        }
    };
    current(&format!("filling region {} up to {} bytes before its end", page, rem));
    if quiet(|| fill(&mut j, rem)).is_none() {
        fail(&format!("emission panicked at position {} of region {} although it fits", j.get_current(), page));
    }
    let l = j.label();
    j.bind_label(l);
    let mut n = 0;
    // what does not fit is refused
    for k in 0..SIZED.len() {
        let (name, s) = SIZED[k];
        let pos = at(&j, base[page]);
        if pos > R {
            fail(&format!("position {} beyond the region", pos));
        }
        if s > R - pos {
            n += 1;
            current(&format!("{} at {} bytes before the end", name, R - pos));
            let ok = sized(&mut j, k, l);
            clean(name, pos);
            if ok {
                fail(&format!("{} at {} bytes before the end of region {} did not panic", name, R - pos, page));
            }
        }
    }
    // what fits is accepted, up to the last byte
    loop {
        let pos = at(&j, base[page]);
        if pos >= R {
            break;
        }
        let left = R - pos;
        // prefer the operation that ends exactly at the last byte
        let k = (0..SIZED.len()).filter(|k| SIZED[*k].1 == left && (rem + *k) % 2 == 0).next().or_else(|| (0..SIZED.len()).filter(|k| SIZED[*k].1 > 0 && SIZED[*k].1 <= left).last()).unwrap();
        current(&format!("{} at {} bytes before the end", SIZED[k].0, left));
        n += 1;
        if !sized(&mut j, k, l) {
            fail(&format!("{} at {} bytes before the end of region {} panicked although it fits", SIZED[k].0, left, page));
        }
        if at(&j, base[page]) != pos + SIZED[k].1 {
            fail(&format!("{} at {} bytes before the end of region {} moved the position by {}", SIZED[k].0, left, page, at(&j, base[page]) as i64 - pos as i64));
        }
        clean(SIZED[k].0, pos);
    }
    // full: anything more is refused, alignment stays
    for al in 0..4 {
        if quiet(|| match al { 0 => j.align4(), 1 => j.align8(), 2 => j.align16(), _ => j.align_page() }).is_none() || at(&j, base[page]) != R {
            fail(&format!("aligning at the end of region {} fails or moves", page));
        }
    }
    for k in 0..SIZED.len() {
        if SIZED[k].1 > 0 {
            n += 1;
            if sized(&mut j, k, l) {
                fail(&format!("{} at the end of region {} did not panic", SIZED[k].0, page));
            }
            clean(SIZED[k].0, R);
        }
    }
    // resolution of the references in the last bytes (those complete by now)
    let _ = quiet(|| j.finalize());
    clean("finalize", R);
    // reading and writing by position
    let jp = |f: &dyn Fn(&mut JitMemory) -> u8, j: &mut JitMemory| quiet(|| f(j));
    for (p, ok) in [(R - 1, true), (0, true), (R, false), (R + 1, false), (usize::MAX, false), (1 << 40, false), (R * 2, false)] {
        let r = [
            jp(&|j| j[Pos::from(p)], &mut j).is_some(),
            jp(&|j| j[Page(page)][Pos::from(p)], &mut j).is_some(),
            jp(&|j| { j[Pos::from(p)] = 0x77; 0 }, &mut j).is_some(),
            jp(&|j| { j[Page(page)][Pos::from(p)] = 0x78; 0 }, &mut j).is_some(),
        ];
        n += 4;
        if r != [ok; 4] {
            fail(&format!("access to position {:#x}: accepted {:?}, expected {}", p, r, ok));
        }
        clean("indexing", p.min(R));
    }
    n
}

/// pools and relocations that reach the end of the region
pub fn pool_end(page: usize, rem: usize, kind: usize) -> u64 {
    let mut j = JitMemory::new();
    let base = bases(&mut j);
    j.select_page(page);
    fill(&mut j, rem);
    let next = base[page] + REGION;
    unsafe {
        for k in 0..64 {
            *((next + k) as *mut u8) = 0x5a;
        }
    }
    let t = j.label();
    j.bind_label(t);
    let (l, size, al) = match kind {
        0 => (j.const_i64(0x0102030405060708), 8, 16),
        1 => (j.const_i32(0x01020304), 4, 4),
        2 => (j.constant(16), 16, 16),
        3 => (j.abs_address(t), 8, 8),
        4 => (j.constant(5), 5, 16),
        _ => (j.const_align8(), 0, 8),
    };
    let pos = (R - rem + al - 1) / al * al;
    let fits = pos + size <= R;
    let r = quiet(|| j.finalize());
    for k in 0..64 {
        if unsafe { *((next + k) as *const u8) } != 0x5a {
            fail(&format!("placing pool item kind {} at {} bytes before the end of region {} wrote {} bytes beyond it", kind, rem, page, k));
        }
    }
    if r.is_some() != fits {
        fail(&format!("placing pool item kind {} at {} bytes before the end of region {}: {}", kind, rem, page, if fits { "panicked although it fits" } else { "did not panic" }));
    }
    if fits {
        let a = j.get_label_u64(l) - base[page];
        if a != pos as u64 {
            fail(&format!("pool item kind {} at {} bytes before the end of region {} bound to {}", kind, rem, page, a));
        }
    }
    1
}

pub fn run(seed: u64, depth: u64) {
    let mut jobs: Vec<(usize, usize, usize)> = vec![];
    for rem in if depth == 0 { vec![0, 1, 2, 3, 5, 7, 8, 14] } else { (0..32).collect::<Vec<_>>() } {
        jobs.push((rem % 2, rem, 99));
    }
    for kind in 0..6 {
        for rem in if depth == 0 { vec![[16usize, 8, 4][(kind + seed as usize) % 3], [15, 7, 3][(kind + seed as usize) % 3]] } else { vec![0, 1, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 24, 31, 32] } {
            jobs.push(((rem + kind) % 2, rem, kind));
        }
    }
    // one process per case: each fills a whole region
    let exe = std::env::current_exe().unwrap();
    let mut evals = 0u64;
    let mut running: Vec<(std::process::Child, (usize, usize, usize))> = vec![];
    let mut it = jobs.iter();
    let mut done = 0;
    loop {
        while running.len() < 8 {
            let Some(&(p, r, k)) = it.next() else { break };
            let c = std::process::Command::new(&exe).args(["region1", &p.to_string(), &r.to_string(), &k.to_string()]).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().unwrap();
            running.push((c, (p, r, k)));
        }
        if running.is_empty() {
            break;
        }
        let (c, _) = running.remove(0);
        let o = c.wait_with_output().unwrap();
        let s = String::from_utf8_lossy(&o.stdout).to_string();
        for l in s.lines() {
            if l.starts_with("FAIL") {
                for (mut c, _) in running {
                    let _ = c.kill();
                    let _ = c.wait();
                }
                println!("{}", l);
                std::process::exit(1);
            }
            if let Some(n) = l.strip_prefix("N ") {
                evals += n.parse::<u64>().unwrap();
            }
        }
        done += 1;
        tick();
    }
    println!("STAT cases={} evaluations={}", done, evals);
}

pub fn one(p: usize, rem: usize, k: usize) {
    let n = if k == 99 { end(p, rem) } else { pool_end(p, rem, k) };
    println!("N {}", n);
}

/// C14
pub fn layout(seed: u64) {
    let mut rng = Rng::new(seed);
    let mut n = 0;
    for k in 0..6 {
        let mut j = if k % 3 == 2 { JitMemory::default() } else { JitMemory::new() };
        if j.get_page() != 0 {
            fail(&format!("a new buffer has region {} selected", j.get_page()));
        }
        for p in 0..2 {
            j.select_page(p);
            if j.get_current() != 0 || !j.as_slice().is_empty() || !j.code_block.is_empty() {
                fail(&format!("region {} of a new buffer is not empty", p));
            }
        }
        j.select_page(0);
        if !j[Page(2)].code_block.is_empty() {
            fail("data region of a new buffer is not empty");
        }
        let b = bases(&mut j);
        if b[1] != b[0] + REGION || b[2] != b[1] + REGION {
            fail(&format!("regions start at {:x?}: not adjacent 256 MiB regions", b));
        }
        // protection
        let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
        let mut segs = vec![];
        for l in maps.lines() {
            let mut w = l.split_whitespace();
            let (r, perm) = (w.next().unwrap(), w.next().unwrap());
            let (s, e) = r.split_once('-').unwrap();
            segs.push((u64::from_str_radix(s, 16).unwrap(), u64::from_str_radix(e, 16).unwrap(), perm.to_string()));
        }
        for (lo, hi, want) in [(b[0], b[2], "rwx"), (b[2], b[2] + REGION, "rw-")] {
            let mut a = lo;
            while a < hi {
                n += 1;
                match segs.iter().find(|s| s.0 <= a && a < s.1) {
                    Some(s) if &s.2[..3] == want => a = s.1,
                    Some(s) => fail(&format!("address {:#x} (offset {:#x} of the buffer) has protection {}, expected {}", a, a - b[0], s.2, want)),
                    None => fail(&format!("address {:#x} (offset {:#x} of the buffer) is not mapped", a, a - b[0])),
                }
            }
        }
        for sel in 0..2 {
            j.select_page(sel);
            let mut ps = vec![0, 1, u64::MAX, b[0], b[1], b[2]];
            for e in [b[0], b[1], b[2], b[2] + REGION] {
                for d in 1..5 {
                    ps.push(e - d);
                    ps.push(e + d);
                }
                ps.push(e.wrapping_sub(REGION));
                ps.push(e ^ (1 << 47));
                ps.push(e ^ (1 << 63));
            }
            for _ in 0..200 {
                ps.push(b[0] + rng.below(3 * REGION));
                ps.push(rng.next());
            }
            for p in ps {
                n += 1;
                let want = p >= b[0] && p < b[2];
                if j.include(p as *mut u8) != want {
                    fail(&format!("include({:#x}) is {} with region {} selected (code regions {:#x}..{:#x})", p, !want, sel, b[0], b[2]));
                }
            }
        }
    }
    println!("STAT evaluations={}", n);
}

/// C12: code pointers
pub fn ptrs(seed: u64) {
    let mut rng = Rng::new(seed);
    let mut n = 0;
    for _ in 0..20000 {
        let a = 1 + rng.below(1 << 47);
        let b = match rng.below(4) { 0 => a, 1 => a ^ (1 << rng.below(46)), 2 => 1 + rng.below(1 << 47), _ => a + rng.below(100) };
        if b == 0 {
            continue;
        }
        let (pa, pb) = (CodePtr::from(a as *mut u8), CodePtr::from(b as *mut u8));
        n += 1;
        let k = rng.below(1 << 20) as usize;
        let ok = pa.as_ptr() as u64 == a && pa - pb == (a as i64) - (b as i64) && (pa + k).as_ptr() as u64 == a + k as u64 && (pa == pb) == (a == b) && pa.partial_cmp(&pb) == a.partial_cmp(&b)
            && (pa < pb) == (a < b) && (pa <= pb) == (a <= b) && (pa > pb) == (a > b) && (pa >= pb) == (a >= b);
        if !ok {
            fail(&format!("code pointers {:#x} and {:#x}: difference {}, sum with {} {:?}, comparison {:?}", a, b, pa - pb, k, pa + k, pa.partial_cmp(&pb)));
        }
    }
    if quiet(|| CodePtr::from(std::ptr::null_mut())).is_some() {
        fail("CodePtr::from(null) is accepted");
    }
    // patches between all regions, near and far
    let mut j = JitMemory::new();
    let base = bases(&mut j);
    let mut labs = vec![];
    for p in 0..3usize {
        for off in [16u64, 0x1003, 0x7ff_fff1 & !3 | 1] {
            // regions are sparse: bind labels far apart without filling
            let _ = off;
            for _ in 0..3 {
                let l = j.label();
                for _ in 0..1 + rng.below(300) {
                    j[Page(p)].emitb(0xe9);
                }
                j.bind_label_with_page(Page(p), l);
                for _ in 0..5 {
                    j[Page(p)].emitb(0x90);
                }
                labs.push(l);
            }
        }
    }
    for s in &labs {
        for d in &labs {
            n += 1;
            let (sa, da) = (j.get_label_u64(*s), j.get_label_u64(*d));
            let snap: Vec<Vec<u8>> = base.iter().map(|b| unsafe { std::slice::from_raw_parts(*b as *const u8, 8192).to_vec() }).collect();
            if quiet(|| j.apply_jmp_patch(*s, *d)).is_none() {
                fail(&format!("apply_jmp_patch({:#x} -> {:#x}) panicked", sa, da));
            }
            for p in 0..3 {
                let now = unsafe { std::slice::from_raw_parts(base[p] as *const u8, 8192) };
                for k in 0..8192 {
                    let a = base[p] + k as u64;
                    let want = if a > sa && a <= sa + 4 { ((da as i64 - sa as i64 - 5) as i32).to_le_bytes()[(a - sa - 1) as usize] } else { snap[p][k] };
                    if now[k] != want {
                        fail(&format!("patching the jump at {:#x} to {:#x} left {:#04x} at {:#x}, expected {:#04x}", sa, da, now[k], a, want));
                    }
                }
            }
        }
    }
    println!("STAT evaluations={}", n);
}
