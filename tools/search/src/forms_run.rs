//! Every form of the instruction table over registers, displacements, immediates and labels.
use crate::dec::*;
use crate::table::*;
use crate::util::*;
use monoasm::*;

const DS: &[i32] = &[0, 1, -1, 8, -8, 16, 24, 100, 127, 128, -127, -128, -129, 255, 256, 300, 32767, -32768, 65536, 0x1234_5678, i32::MAX, i32::MAX - 1, i32::MIN, i32::MIN + 1, -0x1234_567];
pub fn is_() -> Vec<i64> {
    let mut v = vec![0i64, 1, 2, 3, 7, 31, 32, 63, 64, 100, 0x55, 0x1234, 0x12345678, 0x1234_5678_9abc_def0, -2, -5, i64::MAX, i64::MIN];
    for n in [7u32, 8, 15, 16, 31, 32, 33, 47, 62] {
        let p = 1i64 << n;
        for q in [p - 1, p, p + 1, -p - 1, -p, -p + 1] {
            v.push(q);
        }
    }
    v.sort();
    v.dedup();
    v
}
const BADREG: &[u64] = &[16, 17, 20, 24, 31, 32, 255, 256, 257, 260, 272, 1 << 32, (1 << 32) + 3, u64::MAX];

pub struct Rec {
    f: usize,
    p: P,
    lk: u8,
    start: u64,
    end: u64,
    as_: Option<&'static str>,
}
pub struct Run {
    jit: JitMemory,
    base: u64,
    back: DestLabel,
    fwd: DestLabel,
    recs: Vec<Rec>,
    pub evals: u64,
    pub refused: u64,
    pub props: String,
}

fn show(f: &Form, p: &P, lk: u8, as_: Option<&str>) -> String {
    if let Some(t) = as_ {
        return format!("`{}`", t);
    }
    let mut s = format!("form {} `{}` with", f.name, f.text);
    for u in f.uses.chars() {
        s += &match u {
            'a' => format!(" a={}", p.a),
            'b' => format!(" b={}", p.b),
            'x' => format!(" x={}", p.x),
            'c' => format!(" c={}", p.c),
            'd' => format!(" d={}", p.d),
            'i' => format!(" i={}", p.i),
            'u' => format!(" u={}", p.u),
            _ => format!(" l={}", if lk == 0 { "label bound before" } else { "label bound after" }),
        };
    }
    s + &format!(" [case {} {} {} {} {} {} {} {} {}]", f.name, p.a, p.b, p.x, p.c, p.d, p.i, p.u, lk)
}

impl Run {
    pub fn new() -> Self {
        let mut jit = JitMemory::new();
        let base = jit.get_current_address().as_ptr() as u64;
        for _ in 0..37 {
            jit.emitb(0xcc);
        }
        let back = jit.label();
        jit.bind_label(back);
        let fwd = jit.label();
        Run { jit, base, back, fwd, recs: vec![], evals: 0, refused: 0, props: String::new() }
    }
    pub fn one(&mut self, fi: usize, p: P, lk: u8) {
        self.one_as(fi, p, lk, None)
    }
    /// `other`: another spelling of the same statement
    pub fn one_as(&mut self, fi: usize, mut p: P, lk: u8, other: Option<(&'static str, fn(&mut JitMemory, DestLabel))>) {
        let f = &FORMS[fi];
        let lab = if lk == 0 { self.back } else { self.fwd };
        let call = |jit: &mut JitMemory, p: &P| match other {
            Some((_, g)) => g(jit, lab),
            None => (f.run)(jit, p),
        };
        let as_ = other.map(|o| o.0);
        p.l = Lab(if lk == 0 { self.back } else { self.fwd });
        if !(f.pre)(&p) {
            return;
        }
        self.evals += 1;
        let start = self.jit.get_current() as u64;
        let (must, may) = ((f.must)(&p), (f.may)(&p));
        let jit = &mut self.jit;
        let r = if must {
            current(f.name);
            quiet(|| call(jit, &p))
        } else {
            quiet(|| call(jit, &p))
        };
        let end = self.jit.get_current() as u64;
        match r {
            None => {
                if must {
                    fail(&format!("refused (panic): {}", show(f, &p, lk, as_)));
                }
                self.refused += 1;
            }
            Some(()) => {
                if !may {
                    let b = unsafe { std::slice::from_raw_parts((self.base + start) as *const u8, (end - start) as usize) };
                    fail(&format!("accepted although it has no encoding: {} emitted {}", show(f, &p, lk, as_), hex(b)));
                }
                if end < start || end - start > 15 {
                    fail(&format!("{} moved the position from {} to {}", show(f, &p, lk, as_), start, end));
                }
                if f.uses.contains('l') {
                    self.recs.push(Rec { f: fi, p, lk, start, end, as_ });
                } else {
                    self.verify(&Rec { f: fi, p, lk, start, end, as_ });
                }
            }
        }
        if end > REGION - 4096 {
            self.flush();
        }
    }
    fn verify(&self, r: &Rec) {
        let f = &FORMS[r.f];
        let b = unsafe { std::slice::from_raw_parts((self.base + r.start) as *const u8, (r.end - r.start) as usize) };
        let lab = if f.uses.contains('l') { self.jit.get_label_address(if r.lk == 0 { self.back } else { self.fwd }).as_ptr() as u64 } else { 0 };
        let d = Dec { bytes: b, addr: self.base + r.start, lab };
        if !(f.check)(&r.p, &d) {
            let extra = if f.uses.contains('l') { format!(" at {:#x}, label at {:#x}", self.base + r.start, lab) } else { String::new() };
            fail(&format!("{} emitted {}{}: not the instruction written", show(f, &r.p, r.lk, r.as_), hex(b), extra));
        }
    }
    /// bind the forward label, resolve, check the instructions with a label operand
    pub fn flush(&mut self) {
        for _ in 0..11 {
            self.jit.emitb(0xcc);
        }
        let l = self.fwd;
        self.jit.bind_label(l);
        current("finalize");
        if quiet(|| self.jit.finalize()).is_none() {
            fail(&format!("finalize() panicked after assembling {} label references", self.recs.len()));
        }
        for r in &self.recs {
            self.verify(r);
        }
        let (e, f, p) = (self.evals, self.refused, self.props.clone());
        if self.jit.get_current() as u64 > REGION / 2 {
            *self = Run::new();
        } else {
            self.recs.clear();
            self.fwd = self.jit.label();
        }
        self.evals = e;
        self.refused = f;
        self.props = p;
        tick();
    }
    pub fn form(&mut self, fi: usize, rng: &mut Rng, depth: u64) {
        let f = &FORMS[fi];
        let u = f.uses;
        let is = is_();
        let regs: Vec<char> = u.chars().filter(|c| "abxc".contains(*c)).collect();
        let l = Lab(self.back);
        let base = |rng: &mut Rng| P {
            a: rng.below(16),
            b: rng.below(16),
            x: rng.pick(&[0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]),
            c: 1,
            d: rng.pick(DS),
            i: if rng.below(2) == 0 { rng.pick(&is) } else { rng.below(100) as i64 },
            u: rng.next() as u8,
            l,
        };
        fn set(p: &mut P, c: char, v: u64) {
            match c {
                'a' => p.a = v,
                'b' => p.b = v,
                'x' => p.x = v,
                _ => p.c = v,
            }
        }
        // all register combinations
        let n = regs.len() as u32;
        if n > 0 {
            for k in 0..16u64.pow(n) {
                // three registers: a seed-dependent quarter at shallow depth
                if n == 3 && depth == 0 && rng.below(4) != 0 {
                    continue;
                }
                let mut p = base(rng);
                // a register product is only interesting if the immediate is accepted
                if u.contains('i') && !fits(p.i as i128, 7) && k % 4 != 0 {
                    p.i = rng.below(64) as i64;
                }
                let mut q = k;
                for c in &regs {
                    set(&mut p, *c, q % 16);
                    q /= 16;
                }
                self.one(fi, p, (k & 1) as u8);
            }
        }
        for c in &regs {
            for v in BADREG {
                let mut p = base(rng);
                p.i = 5;
                set(&mut p, *c, *v);
                self.one(fi, p, 0);
            }
        }
        let rep = if depth == 0 { 3 } else { 16 };
        for _ in 0..rep {
            if u.contains('d') {
                for d in DS {
                    let mut p = base(rng);
                    p.d = *d;
                    p.i = rng.below(100) as i64;
                    self.one(fi, p, rng.below(2) as u8);
                }
                for d in -150..150 {
                    if depth > 0 || d % 3 == 0 {
                        let mut p = base(rng);
                        p.d = d;
                        p.i = rng.below(100) as i64;
                        self.one(fi, p, rng.below(2) as u8);
                    }
                }
            }
            if u.contains('i') {
                for i in &is {
                    let mut p = base(rng);
                    p.i = *i;
                    self.one(fi, p, rng.below(2) as u8);
                }
                for i in -300..300i64 {
                    if depth > 0 || i % 3 == 0 {
                        let mut p = base(rng);
                        p.i = i;
                        self.one(fi, p, rng.below(2) as u8);
                    }
                }
                for _ in 0..8 {
                    let mut p = base(rng);
                    p.i = (rng.next() as i64) >> rng.below(64);
                    self.one(fi, p, rng.below(2) as u8);
                }
            }
            if u.contains('u') {
                for v in 0..=255 {
                    let mut p = base(rng);
                    p.u = v;
                    self.one(fi, p, (v & 1) as u8);
                }
            }
            let p = base(rng);
            self.one(fi, p, 0);
            self.one(fi, p, 1);
        }
    }
}

pub fn run(prop: &str, seed: u64, depth: u64) {
    let mut rng = Rng::new(seed);
    let mut r = Run::new();
    let (mut nforms, mut samples) = (0u64, vec![]);
    for (k, f) in FORMS.iter().enumerate() {
        if prop != "all" && !f.props.split(' ').any(|p| p == prop) {
            continue;
        }
        nforms += 1;
        if nforms % 97 == 1 && samples.len() < 5 {
            samples.push(f.text);
        }
        r.form(k, &mut rng, depth);
        if k % 50 == 0 {
            r.flush();
        }
    }
    r.flush();
    println!("STAT forms={} evaluations={} refused={} samples={}", nforms, r.evals, r.refused, samples.join(" | "));
}

pub fn case(a: &[String]) {
    let k = FORMS.iter().position(|f| f.name == a[0]).expect("no such form");
    let mut r = Run::new();
    let l = Lab(r.back);
    let n = |i: usize| a[i].parse::<i128>().unwrap();
    let p = P { a: n(1) as u64, b: n(2) as u64, x: n(3) as u64, c: n(4) as u64, d: n(5) as i32, i: n(6) as i64, u: n(7) as u8, l };
    r.one(k, p, n(8) as u8);
    r.flush();
    println!("OK");
}

pub fn variants() {
    let mut r = Run::new();
    let l = Lab(r.back);
    let n = crate::variants::VARIANTS.len();
    for (k, (fi, v, text, g)) in crate::variants::VARIANTS.iter().enumerate() {
        let p = P { a: v.a, b: v.b, x: v.x, c: v.c, d: v.d, i: v.i, u: v.u, l };
        r.one_as(*fi, p, (k % 2) as u8, Some((text, *g)));
    }
    r.flush();
    println!("STAT statements={} evaluations={} refused={}", n, r.evals, r.refused);
}
