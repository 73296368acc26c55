
pub proof fn lemma_align(c: usize)
    requires c <= PS(),
    ensures
        ((c + 4095) as usize & !0b1111_1111_1111usize) == align_up(c as int, 4096),
        ((c + 15) as usize & !0b1111usize) == align_up(c as int, 16),
        ((c + 7) as usize & !0b111usize) == align_up(c as int, 8),
        ((c + 3) as usize & !0b11usize) == align_up(c as int, 4),
        align_up(c as int, 4096) <= PS(), align_up(c as int, 16) <= PS(), align_up(c as int, 8) <= PS(), align_up(c as int, 4) <= PS(),
        c <= align_up(c as int, 4096), c <= align_up(c as int, 16), c <= align_up(c as int, 8), c <= align_up(c as int, 4),
{
    let x = (c + 4095) as usize;
    assert(x & !0b1111_1111_1111usize == sub(x, x % 4096usize)) by (bit_vector);
    let x = (c + 15) as usize;
    assert(x & !0b1111usize == sub(x, x % 16usize)) by (bit_vector);
    let x = (c + 7) as usize;
    assert(x & !0b111usize == sub(x, x % 8usize)) by (bit_vector);
    let x = (c + 3) as usize;
    assert(x & !0b11usize == sub(x, x % 4usize)) by (bit_vector);
}
pub proof fn lemma_le64_split(v: u64)
    ensures le64(v) =~= le32(v as u32) + le32((v >> 32) as u32),
{
    let lo = v as u32;
    let hi = (v >> 32) as u32;
    assert(v as u8 == lo as u8 && (v >> 8) as u8 == (lo >> 8) as u8 && (v >> 16) as u8 == (lo >> 16) as u8 && (v >> 24) as u8 == (lo >> 24) as u8) by (bit_vector) requires lo == v as u32;
    assert((v >> 32) as u8 == hi as u8 && (v >> 40) as u8 == (hi >> 8) as u8 && (v >> 48) as u8 == (hi >> 16) as u8 && (v >> 56) as u8 == (hi >> 24) as u8) by (bit_vector) requires hi == (v >> 32) as u32;
}
pub proof fn lemma_le64_inj()
    ensures forall|a: u64, b: u64| #[trigger] le64(a) == #[trigger] le64(b) ==> a == b,
{
    assert forall|a: u64, b: u64| #[trigger] le64(a) == #[trigger] le64(b) implies a == b by {
        let x = le64(a);
        let y = le64(b);
        assert(x[0] == y[0] && x[1] == y[1] && x[2] == y[2] && x[3] == y[3] && x[4] == y[4] && x[5] == y[5] && x[6] == y[6] && x[7] == y[7]);
        assert(a == b) by (bit_vector)
            requires
                a as u8 == b as u8, (a >> 8) as u8 == (b >> 8) as u8, (a >> 16) as u8 == (b >> 16) as u8, (a >> 24) as u8 == (b >> 24) as u8,
                (a >> 32) as u8 == (b >> 32) as u8, (a >> 40) as u8 == (b >> 40) as u8, (a >> 48) as u8 == (b >> 48) as u8, (a >> 56) as u8 == (b >> 56) as u8;
    }
}
pub proof fn lemma_rexw(a: u8, b: u8, c: u8)
    ensures 0x08u8 | rex_byte(a, b, c) == 0x48 | (a & 0b1000) >> 1 | (c & 0b1000) >> 2 | (b & 0b1000) >> 3,
{
    assert(0x08u8 | (0x40 | ((a & 8) >> 1) | ((c & 8) >> 2) | ((b & 8) >> 3)) == 0x48 | (a & 0b1000) >> 1 | (c & 0b1000) >> 2 | (b & 0b1000) >> 3) by (bit_vector);
}
pub proof fn lemma_enc_len(k: Rex, op: Seq<u8>, mm: ModRM, rm: Rm, imm: Imm)
    ensures enc_bytes(k, op, mm, rm, imm).len() <= 7 + op.len() + imm_bytes(imm).len(),
{
    reveal(enc_bytes);
}
/// bytes in front of an instruction with a recorded reference
pub broadcast proof fn lemma_emit_app(v: JitV, a: Seq<u8>, b: Seq<u8>, r: Option<(DestLabel, int, int)>)
    requires
        v.wf(), v.cur().counter + a.len() + b.len() <= PS(),
        r matches Some((l, at, off)) ==> v.haslab(l) && 0 <= at,
    ensures #[trigger] j_app(j_emit(v, a), b, r) == j_app(v, a + b, match r { None => None, Some((l, at, off)) => Some((l, at + a.len(), off)) }),
{
    match r {
        None => { lemma_emit_emit(v, a, b); },
        Some((l, at, off)) => {
            let w = j_reloc(v, l, at + a.len(), off);
            assert(j_reloc(j_emit(v, a), l, at, off) =~~= j_emit(w, a));
            lemma_emit_emit(w, a, b);
        },
    }
}
pub broadcast proof fn lemma_arr1(a: [u8; 1]) ensures #[trigger] a@ == seq![a@[0]] { assert(a@ =~= seq![a@[0]]); }
pub broadcast proof fn lemma_arr2(a: [u8; 2]) ensures #[trigger] a@ == seq![a@[0], a@[1]] { assert(a@ =~= seq![a@[0], a@[1]]); }
pub broadcast proof fn lemma_arr3(a: [u8; 3]) ensures #[trigger] a@ == seq![a@[0], a@[1], a@[2]] { assert(a@ =~= seq![a@[0], a@[1], a@[2]]); }
pub broadcast proof fn lemma_lupd_inv(v: JitV, l: DestLabel, x: LabelV)
    requires v.inv(), v.haslab(l), x.wf(),
    ensures (#[trigger] j_lupd(v, l, x)).inv(),
{
    assert forall|i: int| 0 <= i < v.labels.len() implies (#[trigger] j_lupd(v, l, x).labels[i]).wf() by {
        assert(v.labels[i].wf());
    }
}
pub proof fn lemma_target_inv(v: JitV, l: DestLabel, t: TargetType)
    requires v.inv(), v.haslab(l), target_ok(t),
    ensures j_target(v, l, t).inv(),
{
    let x = LabelV { target: v.lab(l).target.push(t), ..v.lab(l) };
    assert(v.lab(l).wf());
    assert(x.wf()) by {
        assert forall|j: int| 0 <= j < x.target.len() implies target_ok(#[trigger] x.target[j]) by {
            if j < v.lab(l).target.len() { assert(target_ok(v.lab(l).target[j])); }
        }
    }
    lemma_lupd_inv(v, l, x);
}
pub broadcast proof fn lemma_emit_facts(v: JitV, b: Seq<u8>)
    requires v.inv(), v.room(b.len() as int),
    ensures
        (#[trigger] j_emit(v, b)).inv(),
        j_emit(v, b).cur().counter == v.cur().counter + b.len(),
        j_emit(v, b).labels == v.labels,
        j_emit(v, b).page == v.page,
{
}
pub broadcast proof fn lemma_emit_nil_inv(v: JitV, a: Seq<u8>)
    requires v.inv(), a.len() == 0,
    ensures #[trigger] j_emit(v, a) == v,
{
    lemma_emit_nil(v, a);
}
/// One instruction as the sequence of its parts.
pub open spec fn enc_pipe(v: JitV, k: Rex, op: Seq<u8>, mm: ModRM, rm: Rm, imm: Imm) -> JitV {
    let v2 = j_emit(j_emit(v, enc_rex(k, mm, rm)), op);
    let ms = enc_ms(mm, rm);
    let v3 = j_emit(v2, seq![ms[0]]);
    let v4 = if ms.len() == 2 { j_emit(v3, seq![ms[1]]) } else { v3 };
    j_app(v4, disp_bytes(enc_disp(rm)) + imm_bytes(imm), match enc_disp(rm) { Disp::Label(l) => Some((l, 0, 4 + imm_bytes(imm).len() as int)), _ => None })
}
pub proof fn lemma_pipe(v: JitV, k: Rex, op: Seq<u8>, mm: ModRM, rm: Rm, imm: Imm)
    requires
        v.inv(), rm_haslab(v, rm), v.room(enc_bytes(k, op, mm, rm, imm).len() as int),
    ensures
        enc_pipe(v, k, op, mm, rm, imm) == asm(v, k, op, mm, rm, imm),
        enc_bytes(k, op, mm, rm, imm).len() == enc_rex(k, mm, rm).len() + op.len() + enc_ms(mm, rm).len() + disp_bytes(enc_disp(rm)).len() + imm_bytes(imm).len(),
{
    reveal(enc_bytes);
    reveal(enc_rel);
    let rx = enc_rex(k, mm, rm);
    let ms = enc_ms(mm, rm);
    let tl = disp_bytes(enc_disp(rm)) + imm_bytes(imm);
    let v2 = j_emit(j_emit(v, rx), op);
    lemma_emit_emit(v, rx, op);
    lemma_emit_emit(v, rx + op, seq![ms[0]]);
    let v3 = j_emit(v2, seq![ms[0]]);
    if ms.len() == 2 {
        assert(rx + op + seq![ms[0]] + seq![ms[1]] =~= rx + op + ms);
        lemma_emit_emit(v, rx + op + seq![ms[0]], seq![ms[1]]);
    } else {
        assert(rx + op + seq![ms[0]] =~= rx + op + ms);
    }
    let r: Option<(DestLabel, int, int)> = match enc_disp(rm) { Disp::Label(l) => Some((l, 0int, 4 + imm_bytes(imm).len() as int)), _ => None };
    lemma_emit_app(v, rx + op + ms, tl, r);
    assert(rx + op + ms + tl =~= enc_bytes(k, op, mm, rm, imm));
}
pub proof fn lemma_enc_len_eq(k: Rex, op: Seq<u8>, mm: ModRM, rm: Rm, imm: Imm)
    ensures
        enc_bytes(k, op, mm, rm, imm).len() == enc_rex(k, mm, rm).len() + op.len() + enc_ms(mm, rm).len() + disp_bytes(enc_disp(rm)).len() + imm_bytes(imm).len(),
{
    reveal(enc_bytes);
}
pub proof fn lemma_enc_bits()
    ensures
        forall|r: Reg, b: Reg| #[trigger] rex_none_bytes(r, b, Reg(4)) == rex_none_bytes(r, b, Reg(0)),
        forall|r: Reg, b: Reg| #[trigger] rexw_bytes(r, b, Reg(4)) == rexw_bytes(r, b, Reg(0)),
        forall|r: Reg, b: Reg, d: bool| #[trigger] rex_byte_bytes(r, b, Reg(4), d) == rex_byte_bytes(r, b, Reg(0), d),
        forall|r: Reg, b: Reg, i: Reg| #[trigger] rexw_bytes(r, b, i).len() == 1,
        forall|m: u8, r: u8, b: u8| b & 7 == 4 ==> #[trigger] modrm_byte(m, r, b) == modrm_byte(m, r, 4),
{
    assert forall|r: u8, b: u8| #[trigger] rex_byte(r, b, 4) == rex_byte(r, b, 0) by {
        assert(0x40u8 | ((r & 8) >> 1) | ((4u8 & 8) >> 2) | ((b & 8) >> 3) == 0x40u8 | ((r & 8) >> 1) | ((0u8 & 8) >> 2) | ((b & 8) >> 3)) by (bit_vector);
    }
    assert forall|m: u8, r: u8, b: u8| b & 7 == 4 implies #[trigger] modrm_byte(m, r, b) == modrm_byte(m, r, 4) by {
        assert(4u8 & 7 == 4) by (bit_vector);
    }
}

// ---------------------------------------------------------------- second attempt only
// Facts that let the verifier see through another way of writing the same bits or bytes.
pub broadcast proof fn lemma_pemit2(p: PageV, a: Seq<u8>, b: Seq<u8>)
    requires p.wf(), p.counter + a.len() + b.len() <= PS(),
    ensures #[trigger] p_emit(p_emit(p, a), b) == p_emit(p, a + b),
{
    assert(p_emit(p_emit(p, a), b).mem =~= p_emit(p, a + b).mem);
}
pub broadcast proof fn lemma_pwrite2(p: PageV, at: int, a: Seq<u8>, at2: int, b: Seq<u8>)
    requires p.wf(), 0 <= at, at2 == at + a.len(), at + a.len() + b.len() <= PS(),
    ensures #[trigger] p_write(p_write(p, at, a), at2, b) == p_write(p, at, a + b),
{
    assert(p_write(p_write(p, at, a), at2, b).mem =~= p_write(p, at, a + b).mem);
}
pub broadcast proof fn lemma_pemit_ext(p: PageV, a: Seq<u8>, b: Seq<u8>)
    requires a =~= b,
    ensures #[trigger] p_emit(p, a) == #[trigger] p_emit(p, b),
{
}
pub proof fn lemma_le_splits()
    ensures
        forall|v: u16| #[trigger] le16(v) =~= seq![v as u8] + seq![(v >> 8) as u8],
        forall|v: u32| #[trigger] le32(v) =~= le16(v as u16) + le16((v >> 16) as u16),
        forall|v: u64| #[trigger] le64(v) =~= le32(v as u32) + le32((v >> 32) as u32),
        forall|v: u16| #[trigger] le16(v) =~= seq![(v & 0xff) as u8] + seq![(v >> 8) as u8],
{
    assert forall|v: u16| (#[trigger] le16(v)) =~= seq![(v & 0xff) as u8] + seq![(v >> 8) as u8] by {
        assert((v & 0xff) as u8 == v as u8) by (bit_vector);
    }
    assert forall|v: u32| #[trigger] le32(v) =~= le16(v as u16) + le16((v >> 16) as u16) by {
        let lo = v as u16;
        let hi = (v >> 16) as u16;
        assert(v as u8 == lo as u8 && (v >> 8) as u8 == (lo >> 8) as u8) by (bit_vector) requires lo == v as u16;
        assert((v >> 16) as u8 == hi as u8 && (v >> 24) as u8 == (hi >> 8) as u8) by (bit_vector) requires hi == (v >> 16) as u16;
    }
    assert forall|v: u64| #[trigger] le64(v) =~= le32(v as u32) + le32((v >> 32) as u32) by { lemma_le64_split(v); }
}
// any order and grouping of an OR (ground facts; quantified ones make the solver wander)
pub proof fn lemma_or2(a: u8, b: u8)
    ensures
        (b | a) == (a | b),
{
    assert((b | a) == (a | b)) by (bit_vector);
}
pub proof fn lemma_or3(a: u8, b: u8, c: u8)
    ensures
        (a | (b | c)) == ((a | b) | c),
        ((a | c) | b) == ((a | b) | c),
        (a | (c | b)) == ((a | b) | c),
        ((b | a) | c) == ((a | b) | c),
        (b | (a | c)) == ((a | b) | c),
        ((b | c) | a) == ((a | b) | c),
        (b | (c | a)) == ((a | b) | c),
        ((c | a) | b) == ((a | b) | c),
        (c | (a | b)) == ((a | b) | c),
        ((c | b) | a) == ((a | b) | c),
        (c | (b | a)) == ((a | b) | c),
{
    assert((a | (b | c)) == ((a | b) | c) && ((a | c) | b) == ((a | b) | c) && (a | (c | b)) == ((a | b) | c) && ((b | a) | c) == ((a | b) | c) && (b | (a | c)) == ((a | b) | c) && ((b | c) | a) == ((a | b) | c) && (b | (c | a)) == ((a | b) | c) && ((c | a) | b) == ((a | b) | c) && (c | (a | b)) == ((a | b) | c) && ((c | b) | a) == ((a | b) | c) && (c | (b | a)) == ((a | b) | c)) by (bit_vector);
}
pub proof fn lemma_or4(a: u8, b: u8, c: u8, d: u8)
    ensures
        (a | (b | (c | d))) == (((a | b) | c) | d),
        (((a | b) | d) | c) == (((a | b) | c) | d),
        (a | (b | (d | c))) == (((a | b) | c) | d),
        (((a | c) | b) | d) == (((a | b) | c) | d),
        (a | (c | (b | d))) == (((a | b) | c) | d),
        (((a | c) | d) | b) == (((a | b) | c) | d),
        (a | (c | (d | b))) == (((a | b) | c) | d),
        (((a | d) | b) | c) == (((a | b) | c) | d),
        (a | (d | (b | c))) == (((a | b) | c) | d),
        (((a | d) | c) | b) == (((a | b) | c) | d),
        (a | (d | (c | b))) == (((a | b) | c) | d),
        (((b | a) | c) | d) == (((a | b) | c) | d),
        (b | (a | (c | d))) == (((a | b) | c) | d),
        (((b | a) | d) | c) == (((a | b) | c) | d),
        (b | (a | (d | c))) == (((a | b) | c) | d),
        (((b | c) | a) | d) == (((a | b) | c) | d),
        (b | (c | (a | d))) == (((a | b) | c) | d),
        (((b | c) | d) | a) == (((a | b) | c) | d),
        (b | (c | (d | a))) == (((a | b) | c) | d),
        (((b | d) | a) | c) == (((a | b) | c) | d),
        (b | (d | (a | c))) == (((a | b) | c) | d),
        (((b | d) | c) | a) == (((a | b) | c) | d),
        (b | (d | (c | a))) == (((a | b) | c) | d),
        (((c | a) | b) | d) == (((a | b) | c) | d),
        (c | (a | (b | d))) == (((a | b) | c) | d),
        (((c | a) | d) | b) == (((a | b) | c) | d),
        (c | (a | (d | b))) == (((a | b) | c) | d),
        (((c | b) | a) | d) == (((a | b) | c) | d),
        (c | (b | (a | d))) == (((a | b) | c) | d),
        (((c | b) | d) | a) == (((a | b) | c) | d),
        (c | (b | (d | a))) == (((a | b) | c) | d),
        (((c | d) | a) | b) == (((a | b) | c) | d),
        (c | (d | (a | b))) == (((a | b) | c) | d),
        (((c | d) | b) | a) == (((a | b) | c) | d),
        (c | (d | (b | a))) == (((a | b) | c) | d),
        (((d | a) | b) | c) == (((a | b) | c) | d),
        (d | (a | (b | c))) == (((a | b) | c) | d),
        (((d | a) | c) | b) == (((a | b) | c) | d),
        (d | (a | (c | b))) == (((a | b) | c) | d),
        (((d | b) | a) | c) == (((a | b) | c) | d),
        (d | (b | (a | c))) == (((a | b) | c) | d),
        (((d | b) | c) | a) == (((a | b) | c) | d),
        (d | (b | (c | a))) == (((a | b) | c) | d),
        (((d | c) | a) | b) == (((a | b) | c) | d),
        (d | (c | (a | b))) == (((a | b) | c) | d),
        (((d | c) | b) | a) == (((a | b) | c) | d),
        (d | (c | (b | a))) == (((a | b) | c) | d),
        ((a | b) | (c | d)) == (((a | b) | c) | d),
        ((a | b) | (d | c)) == (((a | b) | c) | d),
        ((a | c) | (b | d)) == (((a | b) | c) | d),
        ((a | c) | (d | b)) == (((a | b) | c) | d),
        ((a | d) | (b | c)) == (((a | b) | c) | d),
        ((a | d) | (c | b)) == (((a | b) | c) | d),
        ((b | a) | (c | d)) == (((a | b) | c) | d),
        ((b | a) | (d | c)) == (((a | b) | c) | d),
        ((b | c) | (a | d)) == (((a | b) | c) | d),
        ((b | c) | (d | a)) == (((a | b) | c) | d),
        ((b | d) | (a | c)) == (((a | b) | c) | d),
        ((b | d) | (c | a)) == (((a | b) | c) | d),
        ((c | a) | (b | d)) == (((a | b) | c) | d),
        ((c | a) | (d | b)) == (((a | b) | c) | d),
        ((c | b) | (a | d)) == (((a | b) | c) | d),
        ((c | b) | (d | a)) == (((a | b) | c) | d),
        ((c | d) | (a | b)) == (((a | b) | c) | d),
        ((c | d) | (b | a)) == (((a | b) | c) | d),
        ((d | a) | (b | c)) == (((a | b) | c) | d),
        ((d | a) | (c | b)) == (((a | b) | c) | d),
        ((d | b) | (a | c)) == (((a | b) | c) | d),
        ((d | b) | (c | a)) == (((a | b) | c) | d),
        ((d | c) | (a | b)) == (((a | b) | c) | d),
        ((d | c) | (b | a)) == (((a | b) | c) | d),
{
    assert((a | (b | (c | d))) == (((a | b) | c) | d) && (((a | b) | d) | c) == (((a | b) | c) | d) && (a | (b | (d | c))) == (((a | b) | c) | d) && (((a | c) | b) | d) == (((a | b) | c) | d) && (a | (c | (b | d))) == (((a | b) | c) | d) && (((a | c) | d) | b) == (((a | b) | c) | d) && (a | (c | (d | b))) == (((a | b) | c) | d) && (((a | d) | b) | c) == (((a | b) | c) | d) && (a | (d | (b | c))) == (((a | b) | c) | d) && (((a | d) | c) | b) == (((a | b) | c) | d) && (a | (d | (c | b))) == (((a | b) | c) | d) && (((b | a) | c) | d) == (((a | b) | c) | d) && (b | (a | (c | d))) == (((a | b) | c) | d) && (((b | a) | d) | c) == (((a | b) | c) | d) && (b | (a | (d | c))) == (((a | b) | c) | d) && (((b | c) | a) | d) == (((a | b) | c) | d) && (b | (c | (a | d))) == (((a | b) | c) | d) && (((b | c) | d) | a) == (((a | b) | c) | d) && (b | (c | (d | a))) == (((a | b) | c) | d) && (((b | d) | a) | c) == (((a | b) | c) | d) && (b | (d | (a | c))) == (((a | b) | c) | d) && (((b | d) | c) | a) == (((a | b) | c) | d) && (b | (d | (c | a))) == (((a | b) | c) | d) && (((c | a) | b) | d) == (((a | b) | c) | d) && (c | (a | (b | d))) == (((a | b) | c) | d) && (((c | a) | d) | b) == (((a | b) | c) | d) && (c | (a | (d | b))) == (((a | b) | c) | d) && (((c | b) | a) | d) == (((a | b) | c) | d) && (c | (b | (a | d))) == (((a | b) | c) | d) && (((c | b) | d) | a) == (((a | b) | c) | d) && (c | (b | (d | a))) == (((a | b) | c) | d) && (((c | d) | a) | b) == (((a | b) | c) | d) && (c | (d | (a | b))) == (((a | b) | c) | d) && (((c | d) | b) | a) == (((a | b) | c) | d) && (c | (d | (b | a))) == (((a | b) | c) | d) && (((d | a) | b) | c) == (((a | b) | c) | d) && (d | (a | (b | c))) == (((a | b) | c) | d) && (((d | a) | c) | b) == (((a | b) | c) | d) && (d | (a | (c | b))) == (((a | b) | c) | d) && (((d | b) | a) | c) == (((a | b) | c) | d) && (d | (b | (a | c))) == (((a | b) | c) | d) && (((d | b) | c) | a) == (((a | b) | c) | d) && (d | (b | (c | a))) == (((a | b) | c) | d) && (((d | c) | a) | b) == (((a | b) | c) | d) && (d | (c | (a | b))) == (((a | b) | c) | d) && (((d | c) | b) | a) == (((a | b) | c) | d) && (d | (c | (b | a))) == (((a | b) | c) | d) && ((a | b) | (c | d)) == (((a | b) | c) | d) && ((a | b) | (d | c)) == (((a | b) | c) | d) && ((a | c) | (b | d)) == (((a | b) | c) | d) && ((a | c) | (d | b)) == (((a | b) | c) | d) && ((a | d) | (b | c)) == (((a | b) | c) | d) && ((a | d) | (c | b)) == (((a | b) | c) | d) && ((b | a) | (c | d)) == (((a | b) | c) | d) && ((b | a) | (d | c)) == (((a | b) | c) | d) && ((b | c) | (a | d)) == (((a | b) | c) | d) && ((b | c) | (d | a)) == (((a | b) | c) | d) && ((b | d) | (a | c)) == (((a | b) | c) | d) && ((b | d) | (c | a)) == (((a | b) | c) | d) && ((c | a) | (b | d)) == (((a | b) | c) | d) && ((c | a) | (d | b)) == (((a | b) | c) | d) && ((c | b) | (a | d)) == (((a | b) | c) | d) && ((c | b) | (d | a)) == (((a | b) | c) | d) && ((c | d) | (a | b)) == (((a | b) | c) | d) && ((c | d) | (b | a)) == (((a | b) | c) | d) && ((d | a) | (b | c)) == (((a | b) | c) | d) && ((d | a) | (c | b)) == (((a | b) | c) | d) && ((d | b) | (a | c)) == (((a | b) | c) | d) && ((d | b) | (c | a)) == (((a | b) | c) | d) && ((d | c) | (a | b)) == (((a | b) | c) | d) && ((d | c) | (b | a)) == (((a | b) | c) | d)) by (bit_vector);
}
pub proof fn lemma_or_consts()
    ensures 0x40u8 | 0x08u8 == 0x48u8, 0x08u8 | 0x40u8 == 0x48u8, forall|a: u8| #[trigger] (a | 0u8) == a, forall|a: u8| #[trigger] (0u8 | a) == a,
{
    assert(0x40u8 | 0x08u8 == 0x48u8 && 0x08u8 | 0x40u8 == 0x48u8) by (bit_vector);
    assert forall|a: u8| #[trigger] (a | 0u8) == a by { assert(a | 0u8 == a) by (bit_vector); }
    assert forall|a: u8| #[trigger] (0u8 | a) == a by { assert(0u8 | a == a) by (bit_vector); }
}
/// other ways to write the extension bit and the low bits of a register number
/// two's complement reading of a machine word
pub proof fn lemma_as_signed()
    ensures
        forall|x: usize| x >= 0x8000_0000_0000_0000 ==> #[trigger] (x as isize) == x - 0x1_0000_0000_0000_0000,
        forall|x: u64| x >= 0x8000_0000_0000_0000 ==> #[trigger] (x as i64) == x - 0x1_0000_0000_0000_0000,
        forall|x: i64| x < 0 ==> #[trigger] (x as u64) == x + 0x1_0000_0000_0000_0000,
        forall|x: isize| x < 0 ==> #[trigger] (x as usize) == x + 0x1_0000_0000_0000_0000,
{
    assert forall|x: u64| x >= 0x8000_0000_0000_0000 implies #[trigger] (x as i64) == x - 0x1_0000_0000_0000_0000 by { lemma_as_i64(x); }
    assert forall|x: usize| x >= 0x8000_0000_0000_0000 implies #[trigger] (x as isize) == x - 0x1_0000_0000_0000_0000 by {
        lemma_as_i64(x as u64);
        assert((x as isize) as i64 == (x as u64) as i64) by (bit_vector);
    }
    assert forall|x: i64| x < 0 implies #[trigger] (x as u64) == x + 0x1_0000_0000_0000_0000 by { lemma_as_u64(x); }
    assert forall|x: isize| x < 0 implies #[trigger] (x as usize) == x + 0x1_0000_0000_0000_0000 by {
        lemma_as_u64(x as i64);
        assert((x as usize) as u64 == (x as i64) as u64) by (bit_vector);
    }
}
pub proof fn lemma_as_i64(x: u64)
    requires x >= 0x8000_0000_0000_0000,
    ensures (x as i64) == x - 0x1_0000_0000_0000_0000,
{
    let y = !x;
    assert(y == 0xffff_ffff_ffff_ffff - x) by (bit_vector) requires y == !x;
    assert(y <= 0x7fff_ffff_ffff_ffff) by (bit_vector) requires y == !x, x >= 0x8000_0000_0000_0000;
    let z = y as i64;
    let w = x as i64;
    assert(w == -1 - z) by (bit_vector) requires z == (!x) as i64, w == x as i64;
}
pub proof fn lemma_as_u64(x: i64)
    requires x < 0,
    ensures (x as u64) == x + 0x1_0000_0000_0000_0000,
{
    let u = x as u64;
    assert(u >= 0x8000_0000_0000_0000) by (bit_vector) requires u == x as u64, x < 0;
    lemma_as_i64(u);
    assert(u as i64 == x) by (bit_vector) requires u == x as u64;
}
pub proof fn lemma_reg_bits(x: u8)
    ensures
        x & 8 == 0 || x & 8 == 8, x & 7 < 8, x & 7 == x % 8, (x >> 3) & 1 == (x & 8) >> 3, x >> 3 & 1 < 2,
        ((x >> 3) & 1) << 2 == (x & 8) >> 1, ((x >> 3) & 1) << 1 == (x & 8) >> 2,
        0u8 >> 1 == 0, 0u8 >> 2 == 0, 0u8 >> 3 == 0, 8u8 >> 1 == 4, 8u8 >> 2 == 2, 8u8 >> 3 == 1,
        (x & 7) << 3 == (x & 7) * 8, (x & 7) << 3 == (x << 3) & 0b0011_1000,
        x < 16 ==> (x >> 3 == (x & 8) >> 3) && ((x > 7) == (x & 8 == 8)) && (x >> 3) << 2 == (x & 8) >> 1 && (x >> 3) << 1 == (x & 8) >> 2 && x / 8 == x >> 3,
{
    assert(x & 8 == 0 || x & 8 == 8) by (bit_vector);
    assert(x & 7 < 8 && x & 7 == x % 8 && (x >> 3) & 1 == (x & 8) >> 3 && x >> 3 & 1 < 2) by (bit_vector);
    assert(((x >> 3) & 1) << 2 == (x & 8) >> 1 && ((x >> 3) & 1) << 1 == (x & 8) >> 2) by (bit_vector);
    assert(0u8 >> 1 == 0 && 0u8 >> 2 == 0 && 0u8 >> 3 == 0 && 8u8 >> 1 == 4 && 8u8 >> 2 == 2 && 8u8 >> 3 == 1) by (bit_vector);
    assert((x & 7) << 3 == mul((x & 7), 8) && (x & 7) << 3 == (x << 3) & 0b0011_1000) by (bit_vector);
    assert(x < 16 ==> (x >> 3 == (x & 8) >> 3) && ((x > 7) == (x & 8 == 8)) && (x >> 3) << 2 == (x & 8) >> 1 && (x >> 3) << 1 == (x & 8) >> 2 && x / 8 == x >> 3) by (bit_vector);
}
/// a REX prefix as a sum
pub proof fn lemma_rex_sum(r: u8, x: u8, b: u8)
    ensures
        0x48 | ((r & 8) >> 1) | ((x & 8) >> 2) | ((b & 8) >> 3) == 0x48 + ((r & 8) >> 1) + ((x & 8) >> 2) + ((b & 8) >> 3),
        0x40 | ((r & 8) >> 1) | ((x & 8) >> 2) | ((b & 8) >> 3) == 0x40 + ((r & 8) >> 1) + ((x & 8) >> 2) + ((b & 8) >> 3),
        ((r >> 3) & 1) * 4 == (r & 8) >> 1, ((x >> 3) & 1) * 2 == (x & 8) >> 2,
        r < 16 ==> (r >> 3) * 4 == (r & 8) >> 1 && (r / 8) * 4 == (r & 8) >> 1, x < 16 ==> (x >> 3) * 2 == (x & 8) >> 2 && (x / 8) * 2 == (x & 8) >> 2,
{
    assert((0x48u8 | ((r & 8) >> 1) | ((x & 8) >> 2) | ((b & 8) >> 3)) == add(add(add(0x48, ((r & 8) >> 1)), ((x & 8) >> 2)), ((b & 8) >> 3))
        && (0x40u8 | ((r & 8) >> 1) | ((x & 8) >> 2) | ((b & 8) >> 3)) == add(add(add(0x40, ((r & 8) >> 1)), ((x & 8) >> 2)), ((b & 8) >> 3))
        && ((r & 8) >> 1) <= 4 && ((x & 8) >> 2) <= 2 && ((b & 8) >> 3) <= 1) by (bit_vector);
    assert(((r >> 3) & 1) <= 1 && mul((r >> 3) & 1, 4) == (r & 8) >> 1 && ((x >> 3) & 1) <= 1 && mul((x >> 3) & 1, 2) == (x & 8) >> 2) by (bit_vector);
    assert(r < 16 ==> (r >> 3) <= 1 && mul(r >> 3, 4) == (r & 8) >> 1 && r / 8 == r >> 3) by (bit_vector);
    assert(x < 16 ==> (x >> 3) <= 1 && mul(x >> 3, 2) == (x & 8) >> 2 && x / 8 == x >> 3) by (bit_vector);
}
/// fields of ModRM and SIB that do not overlap
pub proof fn lemma_fields(m: u8, r: u8, b: u8)
    requires m < 4,
    ensures
        (m << 6) | ((r & 7) << 3) | (b & 7) == (m << 6) + ((r & 7) << 3) + (b & 7),
        (m << 6) | ((r & 7) << 3) | (b & 7) == m * 64 + (r & 7) * 8 + (b & 7),
        (m << 6) | ((r & 7) << 3) | (b & 7) == (((m << 3) | (r & 7)) << 3) | (b & 7),
        (m << 6) == m * 64, (m & 3) == m,
{
    assert(m < 4 ==> (m << 6) | ((r & 7) << 3) | (b & 7) == add(add((m << 6), ((r & 7) << 3)), (b & 7))) by (bit_vector);
    assert(m < 4 ==> (m << 6) == mul(m, 64) && (m << 6) <= 192 && ((r & 7) << 3) <= 56 && (b & 7) <= 7 && (m & 3) == m && (m << 6) >= 0) by (bit_vector);
    assert((m << 6) | ((r & 7) << 3) | (b & 7) == (((m << 3) | (r & 7)) << 3) | (b & 7)) by (bit_vector);
    lemma_reg_bits(r);
}
