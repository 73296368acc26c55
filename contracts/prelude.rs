// Prelude of the verified text: trusted primitives standing for what the
// extraction replaces, and the mathematical views the contracts speak about.
#![verifier::auto_ext_equal(assert, assert_by, ensures)]
#![allow(unused, non_snake_case, non_camel_case_types)]
use vstd::prelude::*;
use std::ops::{Add, Deref, DerefMut, Index, IndexMut, Sub};
verus! {

global size_of usize == 8;

// ---------------------------------------------------------------- trusted primitives

/// `strict()` is uninterpreted: every obligation is discharged for both values.
/// With strict() the inputs satisfy the documented ranges and no panic may be
/// reached; without it panics are allowed and the postconditions state what holds
/// whenever the call returns.
pub uninterp spec fn strict() -> bool;

/// Stands for panic!/unreachable!/unimplemented!/failed assert!.
#[verifier::external_body]
pub fn vpanic() -> !
    requires !strict(),
    ensures false,
{ panic!() }

pub trait VExpect<T>: Sized {
    spec fn has(self) -> bool;
    spec fn val(self) -> T;
    fn vexpect(self) -> (r: T)
        requires strict() ==> self.has(),
        ensures self.has(), r == self.val();
}
impl<T> VExpect<T> for Option<T> {
    open spec fn has(self) -> bool { self is Some }
    open spec fn val(self) -> T { self->Some_0 }
    fn vexpect(self) -> (r: T) { match self { Some(x) => x, None => vpanic() } }
}
impl<T, E> VExpect<T> for Result<T, E> {
    open spec fn has(self) -> bool { self is Ok }
    open spec fn val(self) -> T { self->Ok_0 }
    fn vexpect(self) -> (r: T) { match self { Ok(x) => x, Err(_) => vpanic() } }
}

#[derive(Copy, Clone, PartialEq, Eq, Structural)]
pub enum FnSel { F0, F1, F2, F3, F4, F5, F6, F7 }

/// std::num::NonZero, as far as the code uses it.
#[verifier::allow(autoderive_clone_without_spec)]
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
pub struct NonZero<T>(pub T);
impl NonZero<usize> {
    pub fn new(n: usize) -> (r: Option<NonZero<usize>>)
        ensures r == (if n == 0 { None::<NonZero<usize>> } else { Some(NonZero(n)) }),
    { if n == 0 { None } else { Some(NonZero(n)) } }
    pub fn get(self) -> (r: usize)
        ensures r == self.0,
    { self.0 }
    pub fn cmp(&self, other: &Self) -> (r: std::cmp::Ordering)
        ensures r == (if self.0 < other.0 { std::cmp::Ordering::Less } else if self.0 == other.0 { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater }),
    { if self.0 < other.0 { std::cmp::Ordering::Less } else if self.0 == other.0 { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater } }
    pub fn partial_cmp(&self, other: &Self) -> (r: Option<std::cmp::Ordering>)
        ensures r == Some(if self.0 < other.0 { std::cmp::Ordering::Less } else if self.0 == other.0 { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater }),
    { Some(self.cmp(other)) }
}

pub fn ptr_add(p: usize, n: usize) -> (r: usize)
    requires p + n <= usize::MAX,
    ensures r == p + n,
{ p + n }

/// `&*p`: reading one byte through a pointer; p must lie in the page.
#[verifier::external_body]
pub fn raw_byte(m: &MemPage, p: usize) -> (r: &u8)
    requires m.contents <= p, p - m.contents < m.mem@.len(),
    ensures *r == m.mem@[p - m.contents],
{ unimplemented!() }

/// `&mut *p`: p must lie in the page.
#[verifier::external_body]
pub fn raw_byte_mut(m: &mut MemPage, p: usize) -> (r: &mut u8)
    requires old(m).contents <= p, p - old(m).contents < old(m).mem@.len(),
    ensures
        *r == old(m).mem@[p - old(m).contents],
        final(m).mem@ == old(m).mem@.update(p - old(m).contents, *final(r)),
        final(m).contents == old(m).contents,
        final(m).counter == old(m).counter,
        final(m).constants == old(m).constants,
        final(m).data == old(m).data,
        final(m).code_len == old(m).code_len,
        final(m).code_block_top == old(m).code_block_top,
        final(m).code_block == old(m).code_block,
{ unimplemented!() }

/// Indexing a [_; 3] with any index: panics out of range (used in Deref impls only,
/// whose trait cannot carry a precondition).
#[verifier::external_body]
pub fn page_ix(i: usize) -> (r: usize)
    ensures i < 3, r == i,
{ unimplemented!() }

#[verifier::external_body]
pub fn raw_slice(m: &MemPage, p: usize, n: usize) -> (r: &[u8])
    requires m.contents <= p, p - m.contents + n <= m.mem@.len(),
    ensures r@ == m.mem@.subrange(p - m.contents, p - m.contents + n),
{ unimplemented!() }

/// `*(p as *mut [u8; 4]) = b`.
#[verifier::external_body]
pub fn raw_store4(j: &mut JitMemory, p: usize, b: [u8; 4])
    ensures
        final(j).page == old(j).page,
        final(j).labels == old(j).labels,
        final(j).v() == j_store(old(j).v(), p as int, b@),
{ unimplemented!() }

#[verifier::external_body]
pub fn fresh_mem() -> (r: Ghost<Seq<u8>>)
    ensures r@.len() == PAGE_SIZE,
{ unimplemented!() }

#[derive(Copy, Clone, PartialEq, Eq, Structural)]
pub enum Protection { NONE, READ, READ_WRITE, READ_EXECUTE, WRITE_EXECUTE, READ_WRITE_EXECUTE }
#[derive(Copy, Clone)]
pub struct Layout { pub size: usize, pub align: usize }
pub struct OsError { }
impl Layout {
    #[verifier::external_body]
    pub fn from_size_align(size: usize, align: usize) -> (r: Result<Layout, OsError>)
        ensures
            r is Ok <==> (align != 0 && align & sub(align, 1) == 0 && size + align - 1 <= isize::MAX),
            r is Ok ==> r->Ok_0 == (Layout { size, align }),
    { unimplemented!() }
}
/// Allocations and protection changes made so far, in order.
pub struct OsLog { pub allocs: Ghost<Seq<(int, Layout)>>, pub prots: Ghost<Seq<(int, int, Protection)>> }
impl OsLog {
    #[verifier::external_body]
    pub fn start() -> (r: OsLog)
        ensures r.allocs@.len() == 0, r.prots@.len() == 0,
    { unimplemented!() }
    /// std::alloc::alloc; null on failure.
    #[verifier::external_body]
    pub fn alloc(&mut self, l: Layout) -> (r: usize)
        requires l.size > 0,
        ensures
            final(self).prots == old(self).prots,
            final(self).allocs@ == old(self).allocs@.push((r as int, l)),
            r as int % l.align as int == 0,
            r + l.size <= 0x7fff_ffff_ffff,
            strict() ==> r != 0,
    { unimplemented!() }
    /// region::protect; fails on null.
    #[verifier::external_body]
    pub fn protect(&mut self, p: usize, n: usize, pr: Protection) -> (r: Result<(), OsError>)
        ensures
            final(self).allocs == old(self).allocs,
            r is Ok ==> p != 0 && final(self).prots@ == old(self).prots@.push((p as int, n as int, pr)),
            r is Err ==> final(self).prots@ == old(self).prots@,
            strict() && p != 0 ==> r is Ok,
    { unimplemented!() }
}
/// Protection of the byte at address a after the logged changes (the last one covering it).
pub open spec fn prot_at(log: Seq<(int, int, Protection)>, a: int) -> Option<Protection>
    decreases log.len()
{
    if log.len() == 0 { None }
    else if log.last().0 <= a < log.last().0 + log.last().1 { Some(log.last().2) }
    else { prot_at(log.drop_last(), a) }
}

pub assume_specification<T> [std::mem::take](dest: &mut T) -> (r: T)
    where T: std::default::Default
    ensures r == *old(dest), call_ensures(T::default, (), *final(dest));

pub uninterp spec fn f64_bits(x: f64) -> u64;
pub assume_specification [f64::to_bits](x: f64) -> (r: u64) ensures r == f64_bits(x);
// the host is little-endian (x86-64)
pub trait ToBytes<const N: usize>: Sized {
    spec fn le(self) -> Seq<u8>;
    fn host_bytes(self) -> (r: [u8; N]) ensures r@ == self.le();
}
impl ToBytes<8> for f64 {
    open spec fn le(self) -> Seq<u8> { le64(f64_bits(self)) }
    fn host_bytes(self) -> (r: [u8; 8]) { self.to_bits().host_bytes() }
}
impl ToBytes<8> for u64 {
    open spec fn le(self) -> Seq<u8> { le64(self) }
    fn host_bytes(self) -> (r: [u8; 8]) { let v = self; let r = [v as u8, (v >> 8) as u8, (v >> 16) as u8, (v >> 24) as u8, (v >> 32) as u8, (v >> 40) as u8, (v >> 48) as u8, (v >> 56) as u8]; proof { assert(r@ =~= le64(v)); } r }
}
impl ToBytes<8> for i64 {
    open spec fn le(self) -> Seq<u8> { le64(self as u64) }
    fn host_bytes(self) -> (r: [u8; 8]) { (self as u64).host_bytes() }
}
impl ToBytes<4> for u32 {
    open spec fn le(self) -> Seq<u8> { le32(self) }
    fn host_bytes(self) -> (r: [u8; 4]) { let v = self; let r = [v as u8, (v >> 8) as u8, (v >> 16) as u8, (v >> 24) as u8]; proof { assert(r@ =~= le32(v)); } r }
}
impl ToBytes<4> for i32 {
    open spec fn le(self) -> Seq<u8> { le32(self as u32) }
    fn host_bytes(self) -> (r: [u8; 4]) { (self as u32).host_bytes() }
}
impl ToBytes<2> for u16 {
    open spec fn le(self) -> Seq<u8> { le16(self) }
    fn host_bytes(self) -> (r: [u8; 2]) { let v = self; let r = [v as u8, (v >> 8) as u8]; proof { assert(r@ =~= le16(v)); } r }
}
impl ToBytes<2> for i16 {
    open spec fn le(self) -> Seq<u8> { le16(self as u16) }
    fn host_bytes(self) -> (r: [u8; 2]) { (self as u16).host_bytes() }
}
impl ToBytes<1> for u8 {
    open spec fn le(self) -> Seq<u8> { seq![self] }
    fn host_bytes(self) -> (r: [u8; 1]) { let r = [self]; proof { assert(r@ =~= seq![self]); } r }
}
impl ToBytes<1> for i8 {
    open spec fn le(self) -> Seq<u8> { seq![self as u8] }
    fn host_bytes(self) -> (r: [u8; 1]) { (self as u8).host_bytes() }
}
/// R36; verified, not assumed
pub fn next_multiple(x: usize, n: usize) -> (r: usize)
    requires n > 0, x + n - 1 <= usize::MAX,
    ensures r as int == align_up(x as int, n as int),
{
    proof { lemma_next_multiple(x as int, n as int); }
    let r = x % n;
    if r == 0 { x } else { x + (n - r) }
}
pub proof fn lemma_next_multiple(x: int, n: int)
    requires n > 0, x >= 0,
    ensures align_up(x, n) == (if x % n == 0 { x } else { x + (n - x % n) }), 0 <= x % n < n,
{
    let q = x / n;
    let m = x % n;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, n);
    vstd::arithmetic::div_mod::lemma_mod_bound(x, n);
    assert(n * q == q * n) by (nonlinear_arith);
    if m == 0 {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x + n - 1, n, q, n - 1);
    } else {
        assert((q + 1) * n == q * n + n) by (nonlinear_arith);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x + n - 1, n, q + 1, m - 1);
    }
}
pub fn u64_from_host(b: [u8; 8]) -> (r: u64) ensures le64(r) == b@ {
    let (b0, b1, b2, b3, b4, b5, b6, b7) = (b[0] as u64, b[1] as u64, b[2] as u64, b[3] as u64, b[4] as u64, b[5] as u64, b[6] as u64, b[7] as u64);
    let r = b0 | (b1 << 8) | (b2 << 16) | (b3 << 24) | (b4 << 32) | (b5 << 40) | (b6 << 48) | (b7 << 56);
    proof {
        assert(b0 < 256 && b1 < 256 && b2 < 256 && b3 < 256 && b4 < 256 && b5 < 256 && b6 < 256 && b7 < 256 ==> {
            let r = b0 | (b1 << 8) | (b2 << 16) | (b3 << 24) | (b4 << 32) | (b5 << 40) | (b6 << 48) | (b7 << 56);
            r as u8 == b0 as u8 && (r >> 8) as u8 == b1 as u8 && (r >> 16) as u8 == b2 as u8 && (r >> 24) as u8 == b3 as u8
            && (r >> 32) as u8 == b4 as u8 && (r >> 40) as u8 == b5 as u8 && (r >> 48) as u8 == b6 as u8 && (r >> 56) as u8 == b7 as u8
        }) by (bit_vector);
        assert(le64(r) =~= b@);
    }
    r
}

pub trait IntoRm: Sized {
    spec fn rm_spec(self) -> Rm;
    fn into_rm(self) -> (r: Rm) ensures r == self.rm_spec();
}
impl IntoRm for Rm {
    open spec fn rm_spec(self) -> Rm { self }
    fn into_rm(self) -> (r: Rm) { self }
}
impl IntoRm for Reg {
    open spec fn rm_spec(self) -> Rm { Rm { base: self, mode: Mode::Reg } }
    fn into_rm(self) -> (r: Rm) { Rm::from(self) }
}

// ---------------------------------------------------------------- views

#[verifier::ext_equal]
pub struct PageV {
    pub base: int,
    pub counter: int,
    pub constants: Seq<(DataType, DestLabel)>,
    pub data: Seq<(DataType, DestLabel)>,
    pub code_len: int,
    pub top: int,
    pub blocks: Seq<(Pos, Pos, Pos)>,
    pub mem: Seq<u8>,
}

#[verifier::ext_equal]
pub struct LabelV {
    pub loc: Option<(Page, Pos)>,
    pub target: Seq<TargetType>,
}

#[verifier::ext_equal]
pub struct JitV {
    pub page: int,
    pub pages: Seq<PageV>,
    pub labels: Seq<LabelV>,
}

pub open spec fn PS() -> int { 0x1000_0000 }

impl MemPage {
    pub open spec fn v(self) -> PageV {
        PageV {
            base: self.contents as int,
            counter: self.counter.0 as int,
            constants: self.constants@,
            data: self.data@,
            code_len: self.code_len as int,
            top: self.code_block_top.0 as int,
            blocks: self.code_block@,
            mem: self.mem@,
        }
    }
}
impl LabelInfo {
    pub open spec fn v(self) -> LabelV { LabelV { loc: self.loc, target: self.target@ } }
}
impl JitMemory {
    pub open spec fn v(self) -> JitV {
        JitV {
            page: self.page.0 as int,
            pages: Seq::new(3, |i: int| self.pages@[i].v()),
            labels: self.labels.v(),
        }
    }
}

impl PageV {
    /// Representation invariant of one region: position inside (or at the end of) it,
    /// recorded code length and block start behind the position, memory below 2^47.
    pub open spec fn wf(self) -> bool {
        &&& self.mem.len() == PS()
        &&& 0 <= self.top <= self.counter <= PS()
        &&& 0 <= self.code_len <= self.counter
        &&& 0 < self.base
        &&& self.base + PS() <= 0x7fff_ffff_ffff
    }
}
impl JitV {
    pub open spec fn wf(self) -> bool {
        &&& 0 <= self.page < 2
        &&& self.pages.len() == 3
        &&& forall|i: int| 0 <= i < 3 ==> (#[trigger] self.pages[i]).wf()
        &&& self.pages[1].base == self.pages[0].base + PS()
        &&& self.pages[2].base == self.pages[0].base + 2 * PS()
    }
    pub open spec fn cur(self) -> PageV { self.pages[self.page] }
    pub open spec fn room(self, n: int) -> bool { self.cur().counter + n <= PS() }
}

// ---------------------------------------------------------------- bytes

pub open spec fn splice(m: Seq<u8>, at: int, b: Seq<u8>) -> Seq<u8> {
    Seq::new(m.len(), |i: int| if at <= i < at + b.len() { b[i - at] } else { m[i] })
}
pub open spec fn le16(v: u16) -> Seq<u8> { seq![v as u8, (v >> 8) as u8] }
pub open spec fn le32(v: u32) -> Seq<u8> { seq![v as u8, (v >> 8) as u8, (v >> 16) as u8, (v >> 24) as u8] }
pub open spec fn le64(v: u64) -> Seq<u8> {
    seq![v as u8, (v >> 8) as u8, (v >> 16) as u8, (v >> 24) as u8, (v >> 32) as u8, (v >> 40) as u8, (v >> 48) as u8, (v >> 56) as u8]
}
pub open spec fn align_up(c: int, n: int) -> int { (c + n - 1) / n * n }

// ---------------------------------------------------------------- page transitions

pub open spec fn p_write(p: PageV, at: int, b: Seq<u8>) -> PageV { PageV { mem: splice(p.mem, at, b), ..p } }
pub open spec fn p_emit(p: PageV, b: Seq<u8>) -> PageV { PageV { mem: splice(p.mem, p.counter, b), counter: p.counter + b.len(), ..p } }
pub open spec fn p_align(p: PageV, n: int) -> PageV { PageV { counter: align_up(p.counter, n), ..p } }

// ---------------------------------------------------------------- buffer transitions

pub open spec fn item_ok(d: (DataType, DestLabel), n: int) -> bool {
    &&& d.1.0 < n
    &&& (d.0 matches DataType::AbsAddress(l) ==> l.0 < n)
}
pub open spec fn items_ok(s: Seq<(DataType, DestLabel)>, n: int) -> bool {
    forall|i: int| 0 <= i < s.len() ==> item_ok(#[trigger] s[i], n)
}
pub open spec fn target_ok(t: TargetType) -> bool {
    match t {
        TargetType::Rel { page, offset, pos } => page.0 < 3 && pos.0 <= PS(),
        TargetType::Abs { page, pos } => page.0 < 3 && pos.0 <= PS(),
    }
}
impl LabelV {
    pub open spec fn wf(self) -> bool {
        &&& (self.loc matches Some((p, q)) ==> p.0 < 3 && q.0 <= PS())
        &&& forall|j: int| 0 <= j < self.target.len() ==> target_ok(#[trigger] self.target[j])
    }
}
pub open spec fn labels_ok(s: Seq<LabelV>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).wf()
}
impl JitV {
    /// labels and pending items refer to existing labels and regions
    pub open spec fn refs_ok(self) -> bool {
        &&& labels_ok(self.labels)
        &&& forall|i: int| 0 <= i < 3 ==> items_ok((#[trigger] self.pages[i]).constants, self.labels.len() as int)
        &&& forall|i: int| 0 <= i < 3 ==> items_ok((#[trigger] self.pages[i]).data, self.labels.len() as int)
    }
    pub open spec fn inv(self) -> bool { self.wf() && self.refs_ok() }
    pub open spec fn lab(self, l: DestLabel) -> LabelV { self.labels[l.0 as int] }
    pub open spec fn haslab(self, l: DestLabel) -> bool { l.0 < self.labels.len() }
    /// address of a bound label
    pub open spec fn addr(self, l: DestLabel) -> int {
        self.pages[self.lab(l).loc->Some_0.0.0 as int].base + self.lab(l).loc->Some_0.1.0
    }
}

pub open spec fn j_upd(v: JitV, i: int, p: PageV) -> JitV { JitV { pages: v.pages.update(i, p), ..v } }
pub open spec fn j_emit(v: JitV, b: Seq<u8>) -> JitV { j_upd(v, v.page, p_emit(v.cur(), b)) }
pub open spec fn j_lupd(v: JitV, l: DestLabel, x: LabelV) -> JitV { JitV { labels: v.labels.update(l.0 as int, x), ..v } }
pub open spec fn j_newlabel(v: JitV) -> JitV { JitV { labels: v.labels.push(LabelV { loc: None, target: Seq::empty() }), ..v } }
pub open spec fn j_bind(v: JitV, page: Page, l: DestLabel) -> JitV {
    j_lupd(v, l, LabelV { loc: Some((page, Pos(v.pages[page.0 as int].counter as usize))), ..v.lab(l) })
}
pub open spec fn j_target(v: JitV, l: DestLabel, t: TargetType) -> JitV {
    j_lupd(v, l, LabelV { target: v.lab(l).target.push(t), ..v.lab(l) })
}
/// Request a constant (placed in the selected code region) / data item.
pub open spec fn j_const(v: JitV, d: DataType) -> JitV {
    let p = v.cur();
    j_upd(j_newlabel(v), v.page, PageV { constants: p.constants.push((d, DestLabel(v.labels.len() as usize))), ..p })
}
pub open spec fn j_data(v: JitV, d: DataType) -> JitV {
    let p = v.cur();
    j_upd(j_newlabel(v), v.page, PageV { data: p.data.push((d, DestLabel(v.labels.len() as usize))), ..p })
}
/// Retarget the five-byte jump at address p.
pub open spec fn j_patch(v: JitV, p: int, dest: DestLabel) -> JitV {
    j_store(v, p + 1, le32((v.addr(dest) - (p + 5)) as i32 as u32))
}
/// A reference of kind Rel recorded `at` bytes after the current position.
pub open spec fn j_reloc(v: JitV, l: DestLabel, at: int, off: int) -> JitV {
    j_target(v, l, TargetType::Rel { page: Page(v.page as usize), offset: off as u8, pos: Pos((v.cur().counter + at) as usize) })
}
/// Append bytes and, if given, record one reference to a label inside them:
/// (label, distance of the slot from the current position, distance of the end of
/// the instruction from the slot).
pub open spec fn j_app(v: JitV, b: Seq<u8>, rel: Option<(DestLabel, int, int)>) -> JitV {
    match rel {
        None => j_emit(v, b),
        Some((l, at, off)) => j_emit(j_reloc(v, l, at, off), b),
    }
}
/// Store through an absolute address (only addresses inside one region are specified).
pub open spec fn in_page(v: JitV, i: int, p: int, n: int) -> bool {
    0 <= i < 3 && v.pages[i].base <= p && p + n <= v.pages[i].base + PS()
}
pub uninterp spec fn j_store_elsewhere(v: JitV, p: int, b: Seq<u8>) -> JitV;
pub open spec fn j_store(v: JitV, p: int, b: Seq<u8>) -> JitV {
    if in_page(v, 0, p, b.len() as int) { j_upd(v, 0, p_write(v.pages[0], p - v.pages[0].base, b)) }
    else if in_page(v, 1, p, b.len() as int) { j_upd(v, 1, p_write(v.pages[1], p - v.pages[1].base, b)) }
    else if in_page(v, 2, p, b.len() as int) { j_upd(v, 2, p_write(v.pages[2], p - v.pages[2].base, b)) }
    else { j_store_elsewhere(v, p, b) }
}
impl Labels {
    pub open spec fn v(self) -> Seq<LabelV> { Seq::new(self.0@.len(), |i: int| self.0@[i].v()) }
}

// ---------------------------------------------------------------- lemmas on appending

pub broadcast proof fn lemma_emit_emit(v: JitV, a: Seq<u8>, b: Seq<u8>)
    requires v.wf(), v.cur().counter + a.len() + b.len() <= PS(),
    ensures #[trigger] j_emit(j_emit(v, a), b) == j_emit(v, a + b),
{
    assert(j_emit(j_emit(v, a), b).cur().mem =~= j_emit(v, a + b).cur().mem);
    assert(j_emit(j_emit(v, a), b) =~~= j_emit(v, a + b));
}
pub broadcast proof fn lemma_emit_nil(v: JitV, a: Seq<u8>)
    requires v.wf(), a.len() == 0,
    ensures #[trigger] j_emit(v, a) == v,
{
    assert(j_emit(v, a).cur().mem =~= v.cur().mem);
    assert(j_emit(v, a) =~~= v);
}
