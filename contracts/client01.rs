pub mod client01 {
use super::*;
use super::decode::*;

/// On the real encoder: the bytes it leaves in memory decode to the operands given.
pub fn h_encode(j: &mut JitMemory, op: &[u8], k: Rex, mm: ModRM, rm: Rm, imm: Imm)
    requires
        old(j).v().inv(), rm_ok(rm), reg_ok(mm_reg(mm)), mm_ok(mm), rm_haslab(old(j).v(), rm), enc_legal(mm, rm),
        old(j).v().room(enc_bytes(k, op@, mm, rm, imm).len() as int),
    ensures ({
        let c = old(j).v().cur().counter;
        let e = final(j).v().cur().counter;
        let m = final(j).v().cur().mem.subrange(c, e);
        let n = enc_rex(k, mm, rm).len() as int;
        let o = dec(if n == 0 { 0 } else { m[0] }, m.skip(n + op@.len()));
        &&& n == 0 || (n == 1 && m[0] & 0xf0 == 0x40)
        &&& n == 1 ==> rex_w(m[0]) == (if k is REXW { 1int } else { 0int })
        &&& k is REXW ==> n == 1
        &&& m.subrange(n, n + op@.len()) == op@
        &&& o.reg == mm_bits(mm) && o.rm == denotes(rm)
        &&& m.skip(n + op@.len() + o.len) == imm_bytes(imm)
    }),
{
    hide(enc_rex); hide(enc_ms); hide(imm_bytes); hide(disp_bytes); hide(enc_disp); hide(dec); hide(denotes); hide(bit); hide(mm_bits); hide(JitV::refs_ok); hide(enc_legal); hide(rm_ok);
    let ghost v = j.v();
    proof { theorem_decode(k, op@, mm, rm, imm); }
    j.encode(op, k, mm, rm, imm);
    proof { lemma_app_bytes(v, enc_bytes(k, op@, mm, rm, imm), enc_rel(k, op@, mm, rm, imm)); lemma_parts(j.v().cur().mem.subrange(v.cur().counter, j.v().cur().counter), k, op@, mm, rm, imm); }
}
proof fn lemma_app_bytes(v: JitV, b: Seq<u8>, rel: Option<(DestLabel, int, int)>)
    requires v.wf(), v.room(b.len() as int),
    ensures
        j_app(v, b, rel).cur().counter == v.cur().counter + b.len(),
        j_app(v, b, rel).cur().mem.subrange(v.cur().counter, v.cur().counter + b.len()) == b,
{
    assert(v.cur().wf());
    assert(j_app(v, b, rel).cur().mem.subrange(v.cur().counter, v.cur().counter + b.len()) =~= b);
}
proof fn lemma_parts(m: Seq<u8>, k: Rex, op: Seq<u8>, mm: ModRM, rm: Rm, imm: Imm)
    requires m == enc_bytes(k, op, mm, rm, imm), enc_legal(mm, rm), rm_ok(rm), reg_ok(mm_reg(mm)), mm_ok(mm),
    ensures ({
        let n = enc_rex(k, mm, rm).len() as int;
        let o = dec(if n == 0 { 0 } else { m[0] }, m.skip(n + op.len()));
        &&& n == 0 || (n == 1 && m[0] & 0xf0 == 0x40)
        &&& n == 1 ==> rex_w(m[0]) == (if k is REXW { 1int } else { 0int })
        &&& k is REXW ==> n == 1
        &&& m.subrange(n, n + op.len()) == op
        &&& o.reg == mm_bits(mm) && o.rm == denotes(rm)
        &&& m.skip(n + op.len() + o.len) == imm_bytes(imm)
    }),
{
    hide(enc_ms); hide(imm_bytes); hide(disp_bytes); hide(enc_disp); hide(dec); hide(denotes); hide(bit); hide(rex_byte);
    theorem_decode(k, op, mm, rm, imm);
    let r = enc_rex(k, mm, rm);
    let n = r.len() as int;
    let b = enc_ms(mm, rm) + disp_bytes(enc_disp(rm)) + imm_bytes(imm);
    assert(m == r + op + b);
    assert(m.skip(n + op.len()) =~= b);
    assert(m.subrange(n, n + op.len()) =~= op);
    let o = dec(rex_of(r), b);
    assert(0 <= o.len) by { reveal(dec); }
    assert(m.skip(n + op.len() + o.len) =~= b.skip(o.len));
    assert(n == 1 ==> m[0] == r[0]);
}
} // mod client01
