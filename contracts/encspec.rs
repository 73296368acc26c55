
// ---------------------------------------------------------------- operands and encoding

impl Disp {
    pub open spec fn ok(self) -> bool {
        match self { Disp::D8(_) | Disp::D32(_) | Disp::None | Disp::Label(_) => true }
    }
}
pub open spec fn disp_val(d: Disp) -> int {
    match d { Disp::None => 0, Disp::D8(x) => x as int, Disp::D32(x) => x as int, Disp::Label(_) => 0 }
}
pub open spec fn disp_bytes(d: Disp) -> Seq<u8> {
    match d {
        Disp::None => Seq::empty(),
        Disp::D8(x) => seq![x as u8],
        Disp::D32(x) => le32(x as u32),
        Disp::Label(_) => le32(0),
    }
}
pub open spec fn imm_bytes(i: Imm) -> Seq<u8> {
    match i {
        Imm::None => Seq::empty(),
        Imm::B(x) => seq![x as u8],
        Imm::W(x) => le16(x as u16),
        Imm::L(x) => le32(x as u32),
        Imm::Q(x) => le64(x as u64),
    }
}
pub open spec fn mode_bits(m: Mode) -> u8 {
    match m {
        Mode::Reg => 3,
        Mode::Ind(_, Disp::None) => 0,
        Mode::Ind(_, Disp::D8(_)) => 1,
        Mode::Ind(_, _) => 2,
    }
}
pub open spec fn mode_scale(m: Mode) -> Scale { match m { Mode::Reg => Scale::None, Mode::Ind(s, _) => s } }
pub open spec fn mode_disp(m: Mode) -> Disp { match m { Mode::Reg => Disp::None, Mode::Ind(_, d) => d } }
pub open spec fn scale_index(s: Scale) -> Reg { match s { Scale::None => Reg(0), Scale::S1(_, x) => x } }
pub open spec fn rip_legal(rm: Rm) -> bool { rm.mode matches Mode::Ind(Scale::None, _) }
pub open spec fn rip_disp(rm: Rm) -> Disp {
    match mode_disp(rm.mode) {
        Disp::Label(l) => Disp::Label(l),
        d => Disp::D32(disp_val(d) as i32),
    }
}

/// Values of type Reg that exist: 0..=15 and 16 (rip) (Reg::from refuses others).
pub open spec fn reg_ok(r: Reg) -> bool { r.0 <= 16 }
pub open spec fn scale_ok(s: Scale) -> bool { match s { Scale::None => true, Scale::S1(_, x) => reg_ok(x) } }
pub open spec fn rm_ok(rm: Rm) -> bool { reg_ok(rm.base) && scale_ok(mode_scale(rm.mode)) }
pub open spec fn mm_reg(m: ModRM) -> Reg { match m { ModRM::Digit(_) => Reg(0), ModRM::Reg(r) => r } }
pub open spec fn mm_bits(m: ModRM) -> u8 { match m { ModRM::Digit(d) => d, ModRM::Reg(r) => r.0 } }

/// Operand combinations with an x86-64 encoding.
pub open spec fn rm_legal(rm: Rm) -> bool {
    &&& (rm.base.0 == 16 ==> rip_legal(rm))
    &&& match mode_scale(rm.mode) {
        Scale::None => true,
        Scale::S1(s, x) => s < 4 && x.0 < 16 && x.0 != 4,
    }
}
pub open spec fn enc_legal(mm: ModRM, rm: Rm) -> bool { mm_reg(mm).0 != 16 && rm_legal(rm) }

pub open spec fn modrm_byte(md: u8, reg: u8, base: u8) -> u8 { (md << 6) | ((reg & 7) << 3) | (base & 7) }
pub open spec fn sib_byte(scale: u8, index: u8, base: u8) -> u8 { (scale << 6) | ((index & 7) << 3) | (base & 7) }
pub open spec fn rex_byte(reg: u8, base: u8, index: u8) -> u8 {
    0x40 | ((reg & 8) >> 1) | ((index & 8) >> 2) | ((base & 8) >> 3)
}
pub open spec fn rex_none_bytes(reg: Reg, base: Reg, index: Reg) -> Seq<u8> {
    if reg.0 > 7 || base.0 > 7 || index.0 > 7 { seq![rex_byte(reg.0, base.0, index.0)] } else { Seq::empty() }
}
pub open spec fn rex_byte_bytes(reg: Reg, base: Reg, index: Reg, direct: bool) -> Seq<u8> {
    if reg.0 > 7 || base.0 > 7 || index.0 > 7 { seq![rex_byte(reg.0, base.0, index.0)] }
    else if reg.0 > 3 || (base.0 > 3 && direct) { seq![0x40u8] }
    else { Seq::empty() }
}
pub open spec fn rexw_bytes(reg: Reg, base: Reg, index: Reg) -> Seq<u8> {
    seq![0x08u8 | rex_byte(reg.0, base.0, index.0)]
}
pub open spec fn rex_bytes(k: Rex, reg: Reg, base: Reg, index: Reg, direct: bool) -> Seq<u8> {
    match k {
        Rex::REXW => rexw_bytes(reg, base, index),
        Rex::None => rex_none_bytes(reg, base, index),
        Rex::Byte => rex_byte_bytes(reg, base, index, direct),
    }
}
pub open spec fn enc_rex(k: Rex, mm: ModRM, rm: Rm) -> Seq<u8> {
    if rm.base.0 == 16 { rex_bytes(k, mm_reg(mm), Reg(5), Reg(0), false) }
    else { rex_bytes(k, mm_reg(mm), rm.base, scale_index(mode_scale(rm.mode)), rm.mode == Mode::Reg) }
}
/// [rbp]/[r13] without displacement are written with a zero disp8.
pub open spec fn fix_disp(base: Reg, d: Disp) -> Disp {
    if d == Disp::None && base.0 & 7 == 5 { Disp::D8(0) } else { d }
}
pub open spec fn enc_disp(rm: Rm) -> Disp {
    if rm.base.0 == 16 { rip_disp(rm) } else {
        match rm.mode { Mode::Reg => Disp::None, Mode::Ind(_, d) => fix_disp(rm.base, d) }
    }
}
/// ModRM and SIB.
pub open spec fn enc_ms(mm: ModRM, rm: Rm) -> Seq<u8> {
    if rm.base.0 == 16 { seq![modrm_byte(0, mm_bits(mm), 5)] }
    else {
        match rm.mode {
            Mode::Reg => seq![modrm_byte(3, mm_bits(mm), rm.base.0)],
            Mode::Ind(s, d) => {
                let md = mode_bits(Mode::Ind(s, fix_disp(rm.base, d)));
                match s {
                    Scale::None => if rm.base.0 & 7 == 4 { seq![modrm_byte(md, mm_bits(mm), 4), sib_byte(0, 4, rm.base.0)] }
                        else { seq![modrm_byte(md, mm_bits(mm), rm.base.0)] },
                    Scale::S1(sc, x) => seq![modrm_byte(md, mm_bits(mm), 4), sib_byte(sc, x.0, rm.base.0)],
                }
            },
        }
    }
}
pub open spec fn enc_head(k: Rex, op: Seq<u8>, mm: ModRM, rm: Rm) -> Seq<u8> { enc_rex(k, mm, rm) + op + enc_ms(mm, rm) }
#[verifier::opaque]
pub open spec fn enc_bytes(k: Rex, op: Seq<u8>, mm: ModRM, rm: Rm, imm: Imm) -> Seq<u8> {
    enc_head(k, op, mm, rm) + disp_bytes(enc_disp(rm)) + imm_bytes(imm)
}
#[verifier::opaque]
pub open spec fn enc_rel(k: Rex, op: Seq<u8>, mm: ModRM, rm: Rm, imm: Imm) -> Option<(DestLabel, int, int)> {
    match enc_disp(rm) {
        Disp::Label(l) => Some((l, enc_head(k, op, mm, rm).len() as int, 4 + imm_bytes(imm).len() as int)),
        _ => None,
    }
}
pub open spec fn rm_haslab(v: JitV, rm: Rm) -> bool { mode_disp(rm.mode) matches Disp::Label(l) ==> v.haslab(l) }

/// Effect of one instruction with ModRM operands.
pub open spec fn asm(v: JitV, k: Rex, op: Seq<u8>, mm: ModRM, rm: Rm, imm: Imm) -> JitV {
    j_app(v, enc_bytes(k, op, mm, rm, imm), enc_rel(k, op, mm, rm, imm))
}
/// Effect of one instruction with the register in the opcode.
pub open spec fn rd_bytes(k: Rex, op: u8, r: Reg) -> Seq<u8> { rex_bytes(k, Reg(0), r, Reg(0), true) + seq![op | (r.0 & 7)] }
