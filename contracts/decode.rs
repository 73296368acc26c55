pub mod decode {
use super::*;

// ---------------------------------------------------------------- x86-64 operand decoding
//
// The rules of the manual (REX, ModRM, SIB, displacement), written from the decoder's
// side and independently of the encoder, and the theorem that decoding what
// JitMemory::encode emits gives back the operands that were written.

pub enum Place {
    Reg(int),
    /// base register or rip or none, index register and shift, displacement
    Mem { base: Option<int>, rip: bool, index: Option<(int, int)>, disp: int },
}
pub struct Operands { pub reg: int, pub rm: Place, pub disp_at: int, pub len: int }

pub open spec fn bit(x: u8, n: u8) -> int { ((x >> n) & 1) as int }
pub open spec fn rex_w(rex: u8) -> int { bit(rex, 3) }
pub open spec fn rex_r(rex: u8) -> int { bit(rex, 2) }
pub open spec fn rex_x(rex: u8) -> int { bit(rex, 1) }
pub open spec fn rex_b(rex: u8) -> int { bit(rex, 0) }
pub open spec fn u32_at(b: Seq<u8>, i: int) -> u32 {
    (b[i] as u32) | ((b[i + 1] as u32) << 8) | ((b[i + 2] as u32) << 16) | ((b[i + 3] as u32) << 24)
}
/// signed displacement of the size `mod` demands
pub open spec fn disp_at(b: Seq<u8>, i: int, md: u8) -> int {
    if md == 0 { 0 } else if md == 1 { (b[i] as i8) as int } else { (u32_at(b, i) as i32) as int }
}
pub open spec fn disp_len(md: u8) -> int { if md == 0 { 0 } else if md == 1 { 1 } else { 4 } }
/// rex: the REX prefix, 0 if there is none; b: the bytes from ModRM on
pub open spec fn dec(rex: u8, b: Seq<u8>) -> Operands {
    let m = b[0];
    let md = m >> 6;
    let reg = ((m >> 3) & 7) as int + 8 * rex_r(rex);
    let f = m & 7;
    if md == 3 { Operands { reg, rm: Place::Reg(f as int + 8 * rex_b(rex)), disp_at: 1, len: 1 } }
    else if f == 4 {
        let s = b[1];
        let x = ((s >> 3) & 7) as int + 8 * rex_x(rex);
        let index = if x == 4 { None } else { Some((x, (s >> 6) as int)) };
        if s & 7 == 5 && md == 0 {
            Operands { reg, rm: Place::Mem { base: None, rip: false, index, disp: disp_at(b, 2, 2) }, disp_at: 2, len: 6 }
        } else {
            Operands { reg, rm: Place::Mem { base: Some((s & 7) as int + 8 * rex_b(rex)), rip: false, index, disp: disp_at(b, 2, md) }, disp_at: 2, len: 2 + disp_len(md) }
        }
    }
    else if f == 5 && md == 0 { Operands { reg, rm: Place::Mem { base: None, rip: true, index: None, disp: disp_at(b, 1, 2) }, disp_at: 1, len: 5 } }
    else { Operands { reg, rm: Place::Mem { base: Some(f as int + 8 * rex_b(rex)), rip: false, index: None, disp: disp_at(b, 1, md) }, disp_at: 1, len: 1 + disp_len(md) } }
}

/// what the operand means, as written (a label's displacement is filled in later)
pub open spec fn denotes(rm: Rm) -> Place {
    match rm.mode {
        Mode::Reg => Place::Reg(rm.base.0 as int),
        Mode::Ind(s, d) => Place::Mem {
            base: if rm.base.0 == 16 { None } else { Some(rm.base.0 as int) },
            rip: rm.base.0 == 16,
            index: match s { Scale::None => None, Scale::S1(k, x) => Some((x.0 as int, k as int)) },
            disp: disp_val(d),
        },
    }
}

pub proof fn lemma_bits()
    ensures
        forall|md: u8, r: u8, b: u8| md < 4 ==> (#[trigger] modrm_byte(md, r, b)) >> 6 == md && (modrm_byte(md, r, b) >> 3) & 7 == r & 7 && modrm_byte(md, r, b) & 7 == b & 7,
        forall|md: u8, r: u8, b: u8| md < 4 ==> (#[trigger] sib_byte(md, r, b)) >> 6 == md && (sib_byte(md, r, b) >> 3) & 7 == r & 7 && sib_byte(md, r, b) & 7 == b & 7,
{
    assert(forall|md: u8, r: u8, b: u8| md < 4 ==> (#[trigger] ((md << 6) | ((r & 7) << 3) | (b & 7))) >> 6 == md && (((md << 6) | ((r & 7) << 3) | (b & 7)) >> 3) & 7 == r & 7 && ((md << 6) | ((r & 7) << 3) | (b & 7)) & 7 == b & 7) by (bit_vector);
}
pub proof fn lemma_rex(r: u8, b: u8, x: u8)
    ensures
        rex_byte(r, b, x) & 0xf0 == 0x40, (0x08u8 | rex_byte(r, b, x)) & 0xf0 == 0x40,
        rex_w(rex_byte(r, b, x)) == 0, rex_w(0x08u8 | rex_byte(r, b, x)) == 1,
        rex_r(rex_byte(r, b, x)) == bit(r, 3), rex_r(0x08u8 | rex_byte(r, b, x)) == bit(r, 3),
        rex_b(rex_byte(r, b, x)) == bit(b, 3), rex_b(0x08u8 | rex_byte(r, b, x)) == bit(b, 3),
        rex_x(rex_byte(r, b, x)) == bit(x, 3), rex_x(0x08u8 | rex_byte(r, b, x)) == bit(x, 3),
        rex_w(0x40) == 0, rex_r(0x40) == 0, rex_x(0x40) == 0, rex_b(0x40) == 0, 0x40u8 & 0xf0 == 0x40,
        rex_w(0) == 0, rex_r(0) == 0, rex_x(0) == 0, rex_b(0) == 0,
{
    let y = rex_byte(r, b, x);
    assert((0x40 | ((r & 8) >> 1) | ((x & 8) >> 2) | ((b & 8) >> 3)) & 0xf0 == 0x40u8) by (bit_vector);
    assert((0x08u8 | (0x40 | ((r & 8) >> 1) | ((x & 8) >> 2) | ((b & 8) >> 3))) & 0xf0 == 0x40u8) by (bit_vector);
    assert(((0x40 | ((r & 8) >> 1) | ((x & 8) >> 2) | ((b & 8) >> 3)) >> 3u8) & 1 == 0u8) by (bit_vector);
    assert(((0x08u8 | (0x40 | ((r & 8) >> 1) | ((x & 8) >> 2) | ((b & 8) >> 3))) >> 3u8) & 1 == 1u8) by (bit_vector);
    assert(((0x40 | ((r & 8) >> 1) | ((x & 8) >> 2) | ((b & 8) >> 3)) >> 2u8) & 1 == (r >> 3u8) & 1) by (bit_vector);
    assert(((0x08u8 | (0x40 | ((r & 8) >> 1) | ((x & 8) >> 2) | ((b & 8) >> 3))) >> 2u8) & 1 == (r >> 3u8) & 1) by (bit_vector);
    assert(((0x40 | ((r & 8) >> 1) | ((x & 8) >> 2) | ((b & 8) >> 3)) >> 1u8) & 1 == (x >> 3u8) & 1) by (bit_vector);
    assert(((0x08u8 | (0x40 | ((r & 8) >> 1) | ((x & 8) >> 2) | ((b & 8) >> 3))) >> 1u8) & 1 == (x >> 3u8) & 1) by (bit_vector);
    assert(((0x40 | ((r & 8) >> 1) | ((x & 8) >> 2) | ((b & 8) >> 3)) >> 0u8) & 1 == (b >> 3u8) & 1) by (bit_vector);
    assert(((0x08u8 | (0x40 | ((r & 8) >> 1) | ((x & 8) >> 2) | ((b & 8) >> 3))) >> 0u8) & 1 == (b >> 3u8) & 1) by (bit_vector);
    assert((0x40u8 >> 3u8) & 1 == 0 && (0x40u8 >> 2u8) & 1 == 0 && (0x40u8 >> 1u8) & 1 == 0 && (0x40u8 >> 0u8) & 1 == 0 && 0x40u8 & 0xf0 == 0x40) by (bit_vector);
    assert((0u8 >> 3u8) & 1 == 0 && (0u8 >> 2u8) & 1 == 0 && (0u8 >> 1u8) & 1 == 0 && (0u8 >> 0u8) & 1 == 0) by (bit_vector);
}
pub proof fn lemma_split(r: u8)
    requires r < 16,
    ensures r == (r & 7) as int + 8 * bit(r, 3), r < 8 ==> bit(r, 3) == 0, r & 7 < 8, r & 7 == 4 ==> r == 4 || r == 12, r & 7 == 5 ==> r == 5 || r == 13,
        r & 7 != 4 ==> r != 4 && r != 12, r & 7 != 5 ==> r != 5 && r != 13,
{
    assert(r < 16 ==> r == add(r & 7, mul(8, (r >> 3u8) & 1)) && r & 7 < 8 && (r >> 3u8) & 1 < 2) by (bit_vector);
    assert(r < 8 ==> (r >> 3u8) & 1 == 0) by (bit_vector);
    assert(r < 16 && r & 7 == 4 ==> r == 4 || r == 12) by (bit_vector);
    assert(r < 16 && r & 7 == 5 ==> r == 5 || r == 13) by (bit_vector);
    assert(r < 16 && r & 7 != 4 ==> r != 4 && r != 12) by (bit_vector);
    assert(r < 16 && r & 7 != 5 ==> r != 5 && r != 13) by (bit_vector);
}
pub proof fn lemma_digit(d: u8)
    requires d < 8,
    ensures d & 7 == d,
{ assert(d < 8 ==> d & 7 == d) by (bit_vector); }
pub proof fn lemma_u32(x: u32, b: Seq<u8>, i: int)
    requires 0 <= i, i + 4 <= b.len(), b.subrange(i, i + 4) == le32(x),
    ensures u32_at(b, i) == x,
{
    let s = b.subrange(i, i + 4);
    assert(b[i] == s[0] && b[i + 1] == s[1] && b[i + 2] == s[2] && b[i + 3] == s[3]);
    assert(((x as u8) as u32) | ((((x >> 8) as u8) as u32) << 8) | ((((x >> 16) as u8) as u32) << 16) | ((((x >> 24) as u8) as u32) << 24) == x) by (bit_vector);
}
pub proof fn lemma_i32(x: i32)
    ensures (x as u32) as i32 == x,
{ assert((x as u32) as i32 == x) by (bit_vector); }
pub proof fn lemma_i8(x: i8)
    ensures (x as u8) as i8 == x,
{ assert((x as u8) as i8 == x) by (bit_vector); }

/// the displacement field decodes to the value written
pub proof fn lemma_disp(d: Disp, tail: Seq<u8>, head: Seq<u8>)
    ensures ({
        let b = head + disp_bytes(d) + tail;
        let i = head.len() as int;
        &&& d is D8 ==> disp_at(b, i, 1) == disp_val(d)
        &&& d is D32 || d is Label ==> disp_at(b, i, 2) == disp_val(d)
    }),
{
    let b = head + disp_bytes(d) + tail;
    let i = head.len() as int;
    match d {
        Disp::D8(x) => { lemma_i8(x); assert(b[i] == x as u8); },
        Disp::D32(x) => { assert(b.subrange(i, i + 4) =~= le32(x as u32)); lemma_u32(x as u32, b, i); lemma_i32(x); },
        Disp::Label(_) => { assert(b.subrange(i, i + 4) =~= le32(0)); lemma_u32(0, b, i); assert((0u32) as i32 == 0i32) by (bit_vector); },
        Disp::None => { },
    }
}
pub open spec fn mm_ok(mm: ModRM) -> bool { mm matches ModRM::Digit(d) ==> d < 8 }
pub open spec fn rex_of(r: Seq<u8>) -> u8 { if r.len() == 0 { 0 } else { r[0] } }
/// the byte-register names of register n need a REX prefix (else they mean ah, ch, dh, bh)
pub open spec fn needs_rex(n: u8) -> bool { 4 <= n < 8 }

pub proof fn lemma_rex_prefix(k: Rex, mm: ModRM, rm: Rm)
    requires enc_legal(mm, rm), rm_ok(rm), reg_ok(mm_reg(mm)),
    ensures ({
        let r = enc_rex(k, mm, rm);
        let x = rex_of(r);
        let base = if rm.base.0 == 16 { 5u8 } else { rm.base.0 };
        &&& r.len() <= 1
        &&& r.len() == 1 ==> x & 0xf0 == 0x40
        &&& rex_w(x) == (if k is REXW { 1int } else { 0int })
        &&& rex_r(x) == bit(mm_reg(mm).0, 3)
        &&& rex_b(x) == bit(base, 3)
        &&& rm.base.0 != 16 ==> rex_x(x) == bit(scale_index(mode_scale(rm.mode)).0, 3)
        &&& k is Byte && (needs_rex(mm_reg(mm).0) || (rm.mode is Reg && needs_rex(rm.base.0))) ==> r.len() == 1
    }),
{
    let base = if rm.base.0 == 16 { 5u8 } else { rm.base.0 };
    let idx = if rm.base.0 == 16 { 0u8 } else { scale_index(mode_scale(rm.mode)).0 };
    lemma_rex(mm_reg(mm).0, base, idx);
    lemma_split(mm_reg(mm).0); lemma_split(base); lemma_split(idx);
}
/// Decoding the emitted bytes by the rules above gives the operands as written; what
/// follows them is the immediate.
pub proof fn theorem_decode(k: Rex, op: Seq<u8>, mm: ModRM, rm: Rm, imm: Imm)
    requires enc_legal(mm, rm), rm_ok(rm), reg_ok(mm_reg(mm)), mm_ok(mm),
    ensures ({
        let r = enc_rex(k, mm, rm);
        let b = enc_ms(mm, rm) + disp_bytes(enc_disp(rm)) + imm_bytes(imm);
        let o = dec(rex_of(r), b);
        &&& enc_bytes(k, op, mm, rm, imm) == r + op + b
        &&& r.len() == 0 || (r.len() == 1 && r[0] & 0xf0 == 0x40)
        &&& rex_w(rex_of(r)) == (if k is REXW { 1int } else { 0int })
        &&& k is Byte && (needs_rex(mm_reg(mm).0) || (rm.mode is Reg && needs_rex(rm.base.0))) ==> r.len() == 1
        &&& o.reg == mm_bits(mm)
        &&& o.rm == denotes(rm)
        &&& o.len <= b.len() && b.skip(o.len) == imm_bytes(imm)
        &&& mode_disp(rm.mode) matches Disp::Label(l) ==> enc_rel(k, op, mm, rm, imm) == Some((l, r.len() + op.len() + o.disp_at, b.len() - o.disp_at)) && o.len == o.disp_at + 4
        &&& !(mode_disp(rm.mode) is Label) ==> enc_rel(k, op, mm, rm, imm) is None
    }),
{
    hide(modrm_byte); hide(sib_byte); hide(enc_rex); hide(imm_bytes); hide(disp_bytes); hide(bit);
    reveal(enc_bytes); reveal(enc_rel);
    lemma_rex_prefix(k, mm, rm);
    lemma_bits();
    let r = enc_rex(k, mm, rm);
    let ms = enc_ms(mm, rm);
    let d = enc_disp(rm);
    let db = disp_bytes(d);
    let b = ms + db + imm_bytes(imm);
    assert(enc_bytes(k, op, mm, rm, imm) =~= r + op + b);
    lemma_disp(d, imm_bytes(imm), ms);
    assert(db.len() == (match d { Disp::None => 0int, Disp::D8(_) => 1int, _ => 4int })) by { reveal(disp_bytes); }
    assert(b.skip((ms.len() + db.len()) as int) =~= imm_bytes(imm));
    assert(b[0] == ms[0]);
    match mm {
        ModRM::Digit(dg) => { lemma_digit(dg); lemma_split(0); },
        ModRM::Reg(x) => { lemma_split(x.0); },
    }
    if rm.base.0 == 16 { assert(5u8 & 7 == 5) by (bit_vector); }
    else {
        lemma_split(rm.base.0);
        match rm.mode {
            Mode::Reg => { },
            Mode::Ind(s, dd) => {
                assert(4u8 & 7 == 4) by (bit_vector);
                if ms.len() == 2 { assert(b[1] == ms[1]); }
                match s { Scale::None => { lemma_split(0); }, Scale::S1(sc, x) => { lemma_split(x.0); } }
            },
        }
    }
}
/// register in the opcode
pub proof fn theorem_decode_rd(k: Rex, op: u8, reg: Reg)
    requires reg.0 < 16, op & 7 == 0,
    ensures ({
        let b = rd_bytes(k, op, reg);
        let r = rex_bytes(k, Reg(0), reg, Reg(0), true);
        let x = rex_of(r);
        &&& b == r + seq![b.last()]
        &&& r.len() == 0 || (r.len() == 1 && x & 0xf0 == 0x40)
        &&& rex_w(x) == (if k is REXW { 1int } else { 0int })
        &&& k is Byte && needs_rex(reg.0) ==> r.len() == 1
        &&& b.last() & 0xf8 == op
        &&& (b.last() & 7) as int + 8 * rex_b(x) == reg.0
    }),
{
    let n = reg.0;
    lemma_rex(0, n, 0);
    lemma_split(n); lemma_split(0);
    assert((op & 7 == 0) ==> (op | (n & 7)) & 0xf8 == op && (op | (n & 7)) & 7 == n & 7) by (bit_vector);
    let b = rd_bytes(k, op, reg);
    let r = rex_bytes(k, Reg(0), reg, Reg(0), true);
    assert(b =~= r + seq![b.last()]);
}
} // mod decode
