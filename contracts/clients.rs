pub mod clients {
use super::*;
use super::history::*;

// Each call of the interface is the step the theorems speak about, on the real
// functions: a caller is checked against the contracts of the code in /repo.

pub fn h_new() -> (j: JitMemory)
    ensures good(j.v()), j.v().page == 0, j.v().labels.len() == 0,
{
    let j = JitMemory::new();
    proof { lemma_good_new(j.v()); }
    j
}

pub fn h_label(j: &mut JitMemory) -> (r: DestLabel)
    requires good(old(j).v()), legal(old(j).v(), Op::Label),
    ensures good(final(j).v()), final(j).v() == step(old(j).v(), Op::Label), r.0 == old(j).v().labels.len(),
{
    hide(good);
    proof { assert(j.v().inv()) by { reveal(good); } lemma_step_good(j.v(), Op::Label);  }
    j.label()
}

pub fn h_bind(j: &mut JitMemory, l: DestLabel)
    requires good(old(j).v()), legal(old(j).v(), Op::Bind(l)),
    ensures good(final(j).v()), final(j).v() == step(old(j).v(), Op::Bind(l)),
{
    hide(good);
    proof { assert(j.v().inv()) by { reveal(good); } lemma_step_good(j.v(), Op::Bind(l));  }
    j.bind_label(l);
}

pub fn h_emit(j: &mut JitMemory, b: &[u8])
    requires good(old(j).v()), legal(old(j).v(), Op::App(b@, None)),
    ensures good(final(j).v()), final(j).v() == step(old(j).v(), Op::App(b@, None)),
{
    hide(good);
    proof { assert(j.v().inv()) by { reveal(good); } lemma_step_good(j.v(), Op::App(b@, None));  }
    j.emit(b);
}

pub fn h_jump(j: &mut JitMemory, b: &[u8], l: DestLabel)
    requires good(old(j).v()), legal(old(j).v(), Op::App(b@ + le32(0), Some((l, b@.len() as int, 4)))),
    ensures good(final(j).v()), final(j).v() == step(old(j).v(), Op::App(b@ + le32(0), Some((l, b@.len() as int, 4)))),
{
    hide(good);
    proof { assert(j.v().inv()) by { reveal(good); } lemma_step_good(j.v(), Op::App(b@ + le32(0), Some((l, b@.len() as int, 4))));  }
    j.enc_d(b, l);
}

pub fn h_encode(j: &mut JitMemory, op: &[u8], k: Rex, mm: ModRM, rm: Rm, imm: Imm)
    requires good(old(j).v()), legal(old(j).v(), Op::App(enc_bytes(k, op@, mm, rm, imm), enc_rel(k, op@, mm, rm, imm))), rm_ok(rm), reg_ok(mm_reg(mm)), rm_haslab(old(j).v(), rm), enc_legal(mm, rm),
    ensures good(final(j).v()), final(j).v() == step(old(j).v(), Op::App(enc_bytes(k, op@, mm, rm, imm), enc_rel(k, op@, mm, rm, imm))),
{
    hide(good);
    proof { assert(j.v().inv()) by { reveal(good); } lemma_step_good(j.v(), Op::App(enc_bytes(k, op@, mm, rm, imm), enc_rel(k, op@, mm, rm, imm)));  }
    j.encode(op, k, mm, rm, imm);
}

pub fn h_align4(j: &mut JitMemory)
    requires good(old(j).v()), legal(old(j).v(), Op::Align(4)),
    ensures good(final(j).v()), final(j).v() == step(old(j).v(), Op::Align(4)),
{
    hide(good);
    proof { assert(j.v().inv()) by { reveal(good); } lemma_step_good(j.v(), Op::Align(4)); assert(j.v().cur().wf()); }
    j.align4();
}

pub fn h_align8(j: &mut JitMemory)
    requires good(old(j).v()), legal(old(j).v(), Op::Align(8)),
    ensures good(final(j).v()), final(j).v() == step(old(j).v(), Op::Align(8)),
{
    hide(good);
    proof { assert(j.v().inv()) by { reveal(good); } lemma_step_good(j.v(), Op::Align(8)); assert(j.v().cur().wf()); }
    j.align8();
}

pub fn h_align16(j: &mut JitMemory)
    requires good(old(j).v()), legal(old(j).v(), Op::Align(16)),
    ensures good(final(j).v()), final(j).v() == step(old(j).v(), Op::Align(16)),
{
    hide(good);
    proof { assert(j.v().inv()) by { reveal(good); } lemma_step_good(j.v(), Op::Align(16)); assert(j.v().cur().wf()); }
    j.align16();
}

pub fn h_align_page(j: &mut JitMemory)
    requires good(old(j).v()), legal(old(j).v(), Op::Align(4096)),
    ensures good(final(j).v()), final(j).v() == step(old(j).v(), Op::Align(4096)),
{
    hide(good);
    proof { assert(j.v().inv()) by { reveal(good); } lemma_step_good(j.v(), Op::Align(4096)); assert(j.v().cur().wf()); }
    j.align_page();
}

pub fn h_const_f64(j: &mut JitMemory, x: f64) -> (r: DestLabel)
    requires good(old(j).v()), legal(old(j).v(), Op::Const(DataType::U64(f64_bits(x)))),
    ensures good(final(j).v()), final(j).v() == step(old(j).v(), Op::Const(DataType::U64(f64_bits(x)))), r.0 == old(j).v().labels.len(),
{
    hide(good);
    proof { assert(j.v().inv()) by { reveal(good); } lemma_step_good(j.v(), Op::Const(DataType::U64(f64_bits(x))));  }
    j.const_f64(x)
}

pub fn h_const_i64(j: &mut JitMemory, x: i64) -> (r: DestLabel)
    requires good(old(j).v()), legal(old(j).v(), Op::Const(DataType::U64(x as u64))),
    ensures good(final(j).v()), final(j).v() == step(old(j).v(), Op::Const(DataType::U64(x as u64))), r.0 == old(j).v().labels.len(),
{
    hide(good);
    proof { assert(j.v().inv()) by { reveal(good); } lemma_step_good(j.v(), Op::Const(DataType::U64(x as u64)));  }
    j.const_i64(x)
}

pub fn h_const_i32(j: &mut JitMemory, x: i32) -> (r: DestLabel)
    requires good(old(j).v()), legal(old(j).v(), Op::Const(DataType::U32(x as u32))),
    ensures good(final(j).v()), final(j).v() == step(old(j).v(), Op::Const(DataType::U32(x as u32))), r.0 == old(j).v().labels.len(),
{
    hide(good);
    proof { assert(j.v().inv()) by { reveal(good); } lemma_step_good(j.v(), Op::Const(DataType::U32(x as u32)));  }
    j.const_i32(x)
}

pub fn h_constant(j: &mut JitMemory, x: usize) -> (r: DestLabel)
    requires good(old(j).v()), legal(old(j).v(), Op::Const(DataType::Bytes(x))),
    ensures good(final(j).v()), final(j).v() == step(old(j).v(), Op::Const(DataType::Bytes(x))), r.0 == old(j).v().labels.len(),
{
    hide(good);
    proof { assert(j.v().inv()) by { reveal(good); } lemma_step_good(j.v(), Op::Const(DataType::Bytes(x)));  }
    j.constant(x)
}

pub fn h_abs_address(j: &mut JitMemory, x: DestLabel) -> (r: DestLabel)
    requires good(old(j).v()), legal(old(j).v(), Op::Const(DataType::AbsAddress(x))),
    ensures good(final(j).v()), final(j).v() == step(old(j).v(), Op::Const(DataType::AbsAddress(x))), r.0 == old(j).v().labels.len(),
{
    hide(good);
    proof { assert(j.v().inv()) by { reveal(good); } lemma_step_good(j.v(), Op::Const(DataType::AbsAddress(x)));  }
    j.abs_address(x)
}

pub fn h_const_align8(j: &mut JitMemory) -> (r: DestLabel)
    requires good(old(j).v()), legal(old(j).v(), Op::Const(DataType::Align8)),
    ensures good(final(j).v()), final(j).v() == step(old(j).v(), Op::Const(DataType::Align8)), r.0 == old(j).v().labels.len(),
{
    hide(good);
    proof { assert(j.v().inv()) by { reveal(good); } lemma_step_good(j.v(), Op::Const(DataType::Align8));  }
    j.const_align8()
}

pub fn h_data_i64(j: &mut JitMemory, x: i64) -> (r: DestLabel)
    requires good(old(j).v()), legal(old(j).v(), Op::Data(DataType::U64(x as u64))),
    ensures good(final(j).v()), final(j).v() == step(old(j).v(), Op::Data(DataType::U64(x as u64))), r.0 == old(j).v().labels.len(),
{
    hide(good);
    proof { assert(j.v().inv()) by { reveal(good); } lemma_step_good(j.v(), Op::Data(DataType::U64(x as u64)));  }
    j.data_i64(x)
}

pub fn h_data_i32(j: &mut JitMemory, x: i32) -> (r: DestLabel)
    requires good(old(j).v()), legal(old(j).v(), Op::Data(DataType::U32(x as u32))),
    ensures good(final(j).v()), final(j).v() == step(old(j).v(), Op::Data(DataType::U32(x as u32))), r.0 == old(j).v().labels.len(),
{
    hide(good);
    proof { assert(j.v().inv()) by { reveal(good); } lemma_step_good(j.v(), Op::Data(DataType::U32(x as u32)));  }
    j.data_i32(x)
}

pub fn h_data(j: &mut JitMemory, x: usize) -> (r: DestLabel)
    requires good(old(j).v()), legal(old(j).v(), Op::Data(DataType::Bytes(x))),
    ensures good(final(j).v()), final(j).v() == step(old(j).v(), Op::Data(DataType::Bytes(x))), r.0 == old(j).v().labels.len(),
{
    hide(good);
    proof { assert(j.v().inv()) by { reveal(good); } lemma_step_good(j.v(), Op::Data(DataType::Bytes(x)));  }
    j.data(x)
}

pub fn h_select(j: &mut JitMemory, p: usize)
    requires good(old(j).v()), legal(old(j).v(), Op::Select(p as int)),
    ensures good(final(j).v()), final(j).v() == step(old(j).v(), Op::Select(p as int)),
{
    hide(good);
    proof { assert(j.v().inv()) by { reveal(good); } lemma_step_good(j.v(), Op::Select(p as int));  }
    j.select_page(p);
}

pub fn h_patch(j: &mut JitMemory, l: DestLabel, d: DestLabel)
    requires good(old(j).v()), legal(old(j).v(), Op::Patch(old(j).v().addr(l), d)), old(j).v().haslab(l), old(j).v().lab(l).loc is Some, old(j).v().lab(l).loc->Some_0.1.0 + 5 <= PS(),
    ensures good(final(j).v()), final(j).v() == step(old(j).v(), Op::Patch(old(j).v().addr(l), d)),
{
    hide(good);
    proof { assert(j.v().inv()) by { reveal(good); } lemma_step_good(j.v(), Op::Patch(j.v().addr(l), d));  }
    j.apply_jmp_patch(l, d);
}

pub fn h_patch_at(j: &mut JitMemory, p: CodePtr, d: DestLabel)
    requires good(old(j).v()), legal(old(j).v(), Op::Patch(p.0.0 as int, d)),
    ensures good(final(j).v()), final(j).v() == step(old(j).v(), Op::Patch(p.0.0 as int, d)),
{
    hide(good);
    proof { assert(j.v().inv()) by { reveal(good); } lemma_step_good(j.v(), Op::Patch(p.0.0 as int, d));  }
    j.apply_jmp_patch_address(p, d);
}

pub fn h_finalize(j: &mut JitMemory)
    requires good(old(j).v()), legal(old(j).v(), Op::Finalize),
    ensures good(final(j).v()), final(j).v() == step(old(j).v(), Op::Finalize),
{
    hide(good);
    proof { assert(j.v().inv()) by { reveal(good); } lemma_step_good(j.v(), Op::Finalize); theorem_finalize(j.v()); }
    j.finalize();
}

} // mod clients
