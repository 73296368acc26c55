//! An x86-64 decoder for the instruction shapes of the table, written from the manual,
//! independent of the assembler under test.

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    /// REX.W set
    W,
    /// REX.W clear
    N,
    /// REX.W clear; byte registers: numbers 4..7 need a REX prefix
    B,
}
#[derive(Clone, Copy, Debug)]
pub enum Rg {
    D(u64),
    R(u64),
}
#[derive(Clone, Copy, Debug)]
pub struct Lab(pub monoasm::DestLabel);
#[derive(Clone, Copy, Debug)]
pub enum Op {
    R(u64),
    M { base: u64, index: Option<u64>, scale: u64, disp: i64 },
    L(Lab),
}

pub fn fits(v: i128, n: u32) -> bool {
    v >= -(1i128 << (n - 1)) && v < (1i128 << (n - 1))
}

/// One emitted instruction.
pub struct Dec<'a> {
    pub bytes: &'a [u8],
    /// address of the first byte
    pub addr: u64,
    /// address of the label operand
    pub lab: u64,
}

struct Cur<'a> {
    b: &'a [u8],
    i: usize,
}
impl<'a> Cur<'a> {
    fn peek(&self) -> Option<u8> {
        self.b.get(self.i).copied()
    }
    fn next(&mut self) -> Option<u8> {
        let r = self.peek()?;
        self.i += 1;
        Some(r)
    }
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        let r = self.b.get(self.i..self.i + n)?;
        self.i += n;
        Some(r)
    }
    fn eat(&mut self, s: &[u8]) -> Option<()> {
        if self.take(s.len())? == s {
            Some(())
        } else {
            None
        }
    }
    fn le(&mut self, n: usize) -> Option<i64> {
        let s = self.take(n)?;
        let mut v: u64 = 0;
        for (k, b) in s.iter().enumerate() {
            v |= (*b as u64) << (8 * k);
        }
        let sh = 64 - 8 * n as u32;
        Some(((v << sh) as i64) >> sh)
    }
}

#[derive(Debug, PartialEq)]
enum Ea {
    Reg(u64),
    /// base (None: no base), index, scale, displacement
    Mem(Option<u64>, Option<(u64, u64)>, i64),
    Rip(i64),
}

impl<'a> Dec<'a> {
    fn prefix(&self, pfx: &[u8]) -> Option<(Cur<'a>, Option<u8>)> {
        let mut c = Cur { b: self.bytes, i: 0 };
        let mut got = vec![];
        while let Some(b) = c.peek() {
            // an opcode byte of the shape "0xf2/0xf3/0x66" cannot occur: these are always prefixes
            if matches!(b, 0x66 | 0xf2 | 0xf3 | 0xf0 | 0x67 | 0x2e | 0x36 | 0x3e | 0x26 | 0x64 | 0x65) {
                got.push(b);
                c.i += 1;
            } else {
                break;
            }
        }
        let mut want = pfx.to_vec();
        want.sort();
        got.sort();
        if want != got {
            return None;
        }
        let rex = match c.peek() {
            Some(b) if b & 0xf0 == 0x40 => {
                c.i += 1;
                Some(b)
            }
            _ => None,
        };
        Some((c, rex))
    }
    fn imm(c: &mut Cur, imm: Option<(usize, i128)>) -> Option<()> {
        if let Some((n, v)) = imm {
            let want = (v as u128).to_le_bytes();
            if c.take(n)? != &want[..n] {
                return None;
            }
        }
        if c.i == c.b.len() {
            Some(())
        } else {
            None
        }
    }
    fn ea(c: &mut Cur, modrm: u8, rex: u8) -> Option<Ea> {
        let (m, rm) = (modrm >> 6, (modrm & 7) as u64);
        let xb = ((rex & 1) << 3) as u64;
        let xx = ((rex & 2) << 2) as u64;
        if m == 3 {
            return Some(Ea::Reg(rm | xb));
        }
        let (mut base, mut index) = (Some(rm | xb), None);
        if rm == 4 {
            let s = c.next()?;
            let i = ((s >> 3) & 7) as u64 | xx;
            if i != 4 {
                index = Some((i, 1u64 << (s >> 6)));
            }
            base = Some((s & 7) as u64 | xb);
            if s & 7 == 5 && m == 0 {
                base = None;
            }
        } else if rm == 5 && m == 0 {
            return Some(Ea::Rip(c.le(4)?));
        }
        let d = match m {
            0 if base.is_none() => c.le(4)?,
            0 => 0,
            1 => c.le(1)?,
            _ => c.le(4)?,
        };
        Some(Ea::Mem(base, index, d))
    }
    fn m_(&self, k: K, pfx: &[u8], op: &[u8], reg: Rg, rm: Op, imm: Option<(usize, i128)>) -> Option<()> {
        let (mut c, rex) = self.prefix(pfx)?;
        let r = rex.unwrap_or(0);
        if (k == K::W) != (r & 8 != 0) {
            return None;
        }
        c.eat(op)?;
        let modrm = c.next()?;
        let field = ((modrm >> 3) & 7) as u64;
        let reg_is_byte = !(op == [0x0f, 0xb6] || op == [0x0f, 0xbe]);
        let need = |n: u64| k == K::B && (4..8).contains(&n) && rex.is_none();
        match reg {
            Rg::D(d) => {
                if field != d {
                    return None;
                }
            }
            Rg::R(n) => {
                if field | ((r & 4) << 1) as u64 != n || (reg_is_byte && need(n)) {
                    return None;
                }
            }
        }
        let ea = Self::ea(&mut c, modrm, r)?;
        // the immediate decides where the instruction ends
        Self::imm(&mut c, imm)?;
        let end = self.addr.wrapping_add(self.bytes.len() as u64);
        match (rm, ea) {
            (Op::R(n), Ea::Reg(g)) if n == g && !need(n) => Some(()),
            (Op::L(_), Ea::Rip(d)) if end.wrapping_add(d as u64) == self.lab => Some(()),
            (Op::M { base: 16, index: None, disp, .. }, Ea::Rip(d)) if d == disp => Some(()),
            (Op::M { base, index, scale, disp }, Ea::Mem(gb, gi, gd)) if base < 16 => {
                if gd != disp {
                    return None;
                }
                match index {
                    None if gb == Some(base) && gi.is_none() => Some(()),
                    Some(x) if gb == Some(base) && gi == Some((x, scale)) => Some(()),
                    // [b + x*1] == [x + b*1] (a memory read or write either way; segment defaults
                    // do not matter in 64-bit mode)
                    Some(x) if scale == 1 && gb == Some(x) && gi == Some((base, 1)) => Some(()),
                    _ => None,
                }
            }
            _ => None,
        }
    }
    pub fn m(&self, k: K, pfx: &[u8], op: &[u8], reg: Rg, rm: Op, imm: Option<(usize, i128)>) -> bool {
        self.m_(k, pfx, op, reg, rm, imm).is_some()
    }
    /// opcode + register
    pub fn o(&self, k: K, pfx: &[u8], op: u8, reg: u64, imm: Option<(usize, i128)>) -> bool {
        (|| {
            let (mut c, rex) = self.prefix(pfx)?;
            let r = rex.unwrap_or(0);
            if (k == K::W) != (r & 8 != 0) {
                return None;
            }
            let b = c.next()?;
            if b & 0xf8 != op || ((b & 7) | ((r & 1) << 3)) as u64 != reg {
                return None;
            }
            if k == K::B && (4..8).contains(&reg) && rex.is_none() {
                return None;
            }
            Self::imm(&mut c, imm)
        })()
        .is_some()
    }
    pub fn raw(&self, bytes: &[u8], imm: Option<(usize, i128)>) -> bool {
        (|| {
            let mut c = Cur { b: self.bytes, i: 0 };
            c.eat(bytes)?;
            Self::imm(&mut c, imm)
        })()
        .is_some()
    }
    /// relative branch to the label (32-bit form; jmp and jcc also have 8-bit forms)
    pub fn rel(&self, op: &[u8], _l: Lab) -> bool {
        (|| {
            let mut c = Cur { b: self.bytes, i: 0 };
            let short = match op {
                [0xe9] => Some(0xeb),
                [0x0f, b] if b & 0xf0 == 0x80 => Some(0x70 | (b & 15)),
                _ => None,
            };
            let d = if short.is_some() && c.peek() == short {
                c.i += 1;
                c.le(1)?
            } else {
                c.eat(op)?;
                c.le(4)?
            };
            let end = self.addr.wrapping_add(self.bytes.len() as u64);
            if c.i == c.b.len() && end.wrapping_add(d as u64) == self.lab {
                Some(())
            } else {
                None
            }
        })()
        .is_some()
    }
}
