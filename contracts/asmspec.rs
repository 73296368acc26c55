
// ---------------------------------------------------------------- instructions as written

/// One instruction with a memory operand [base + index*scale + disp]: some encoding of
/// the displacement with that value.
pub open spec fn m_asm(v: JitV, w: JitV, k: Rex, op: Seq<u8>, mm: ModRM, base: Reg, scale: Scale, disp: int, imm: Imm) -> bool {
    exists|d: Disp| disp_val(d) == disp && d !is Label && w == #[trigger] asm(v, k, op, mm, Rm { base, mode: Mode::Ind(scale, d) }, imm)
}
pub broadcast proof fn lemma_enc_len_b(k: Rex, op: Seq<u8>, mm: ModRM, rm: Rm, imm: Imm)
    ensures (#[trigger] enc_bytes(k, op, mm, rm, imm)).len() <= 7 + op.len() + imm_bytes(imm).len(),
{
    lemma_enc_len(k, op, mm, rm, imm);
}
pub broadcast proof fn lemma_emit_reloc_emit(v: JitV, a: Seq<u8>, l: DestLabel, at: int, off: int, b: Seq<u8>)
    requires v.wf(), v.haslab(l), 0 <= at, v.cur().counter + a.len() + b.len() <= PS(),
    ensures #[trigger] j_emit(j_reloc(j_emit(v, a), l, at, off), b) == j_app(v, a + b, Some((l, at + a.len(), off))),
{
    lemma_emit_app(v, a, b, Some((l, at, off)));
}
/// the same bytes grouped differently (second attempt only: costly)
pub broadcast proof fn lemma_emit_ext(v: JitV, a: Seq<u8>, b: Seq<u8>)
    requires a =~= b,
    ensures #[trigger] j_emit(v, a) == #[trigger] j_emit(v, b),
{
}
pub broadcast proof fn lemma_app_ext(v: JitV, a: Seq<u8>, b: Seq<u8>, r: Option<(DestLabel, int, int)>)
    requires a =~= b,
    ensures #[trigger] j_app(v, a, r) == #[trigger] j_app(v, b, r),
{
}
pub broadcast group group_asm {
    lemma_arr1, lemma_arr2, lemma_arr3, lemma_enc_len_b, lemma_emit_facts, lemma_emit_app, lemma_emit_emit, lemma_emit_reloc_emit,
}
pub broadcast group group_seq {
    lemma_arr1, lemma_arr2, lemma_arr3, lemma_enc_len_b, lemma_emit_facts,
}
pub broadcast group group_asm2 {
    lemma_arr1, lemma_arr2, lemma_arr3, lemma_enc_len_b, lemma_emit_facts, lemma_emit_app, lemma_emit_emit, lemma_emit_reloc_emit, lemma_emit_ext, lemma_app_ext,
}
pub broadcast group group_seq2 {
    lemma_arr1, lemma_arr2, lemma_arr3, lemma_enc_len_b, lemma_emit_facts, lemma_emit_reloc_emit, lemma_emit_ext, lemma_app_ext,
}
