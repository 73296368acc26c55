
// ---------------------------------------------------------------- pools and finalization

pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
pub open spec fn item_align(d: DataType) -> int {
    match d { DataType::U64(_) => 16, DataType::U32(_) => 4, DataType::Bytes(_) => 16, DataType::AbsAddress(_) => 8, DataType::Align8 => 8 }
}
pub open spec fn item_bytes(d: DataType) -> Seq<u8> {
    match d {
        DataType::U64(x) => le64(x),
        DataType::U32(x) => le32(x),
        DataType::Bytes(n) => zeros(n as int),
        DataType::AbsAddress(_) => le64(0),
        DataType::Align8 => Seq::empty(),
    }
}
pub open spec fn place_at(v: JitV, page: int, d: DataType) -> int { align_up(v.pages[page].counter, item_align(d)) }
pub open spec fn place_fits(v: JitV, page: int, d: DataType) -> bool { place_at(v, page, d) + item_bytes(d).len() <= PS() }
pub open spec fn j_palign(v: JitV, page: int, n: int) -> JitV { j_upd(v, page, p_align(v.pages[page], n)) }
pub open spec fn j_pemit(v: JitV, page: int, b: Seq<u8>) -> JitV { j_upd(v, page, p_emit(v.pages[page], b)) }
/// Align, bind the label, record the reference of an address item.
pub open spec fn sp_prep(v: JitV, page: int, it: (DataType, DestLabel)) -> JitV {
    let v1 = j_palign(v, page, item_align(it.0));
    let v2 = j_bind(v1, Page(page as usize), it.1);
    match it.0 {
        DataType::AbsAddress(l) => j_target(v2, l, TargetType::Abs { page: Page(page as usize), pos: Pos(v2.pages[page].counter as usize) }),
        _ => v2,
    }
}
pub open spec fn sp_place(v: JitV, page: int, it: (DataType, DestLabel)) -> JitV {
    j_pemit(sp_prep(v, page, it), page, item_bytes(it.0))
}
pub open spec fn sp_places(v: JitV, page: int, items: Seq<(DataType, DestLabel)>) -> JitV
    decreases items.len()
{
    if items.len() == 0 { v } else { sp_place(sp_places(v, page, items.drop_last()), page, items.last()) }
}
pub open spec fn places_fit(v: JitV, page: int, items: Seq<(DataType, DestLabel)>) -> bool
    decreases items.len()
{
    if items.len() == 0 { true } else {
        places_fit(v, page, items.drop_last()) && place_fits(sp_places(v, page, items.drop_last()), page, items.last().0)
    }
}
pub open spec fn clear_consts(v: JitV, id: int) -> JitV { j_upd(v, id, PageV { constants: Seq::empty(), ..v.pages[id] }) }
pub open spec fn clear_data(v: JitV, id: int) -> JitV { j_upd(v, id, PageV { data: Seq::empty(), ..v.pages[id] }) }
/// after the constants of the first n code regions have been placed
pub open spec fn sp_consts(v: JitV, n: int) -> JitV
    decreases n
{
    if n <= 0 { v } else {
        let w = sp_consts(v, n - 1);
        sp_places(clear_consts(w, n - 1), n - 1, w.pages[n - 1].constants)
    }
}
pub open spec fn consts_fit(v: JitV, n: int) -> bool
    decreases n
{
    if n <= 0 { true } else {
        let w = sp_consts(v, n - 1);
        consts_fit(v, n - 1) && places_fit(clear_consts(w, n - 1), n - 1, w.pages[n - 1].constants)
    }
}
pub open spec fn sp_data(v: JitV, n: int) -> JitV
    decreases n
{
    if n <= 0 { v } else {
        let w = sp_data(v, n - 1);
        sp_places(clear_data(w, n - 1), 2, w.pages[n - 1].data)
    }
}
pub open spec fn data_fit(v: JitV, n: int) -> bool
    decreases n
{
    if n <= 0 { true } else {
        let w = sp_data(v, n - 1);
        data_fit(v, n - 1) && places_fit(clear_data(w, n - 1), 2, w.pages[n - 1].data)
    }
}

// ---------------------------------------------------------------- relocation

pub open spec fn slot_page(t: TargetType) -> int {
    match t { TargetType::Rel { page, offset, pos } => page.0 as int, TargetType::Abs { page, pos } => page.0 as int }
}
pub open spec fn slot_pos(t: TargetType) -> int {
    match t { TargetType::Rel { page, offset, pos } => pos.0 as int, TargetType::Abs { page, pos } => pos.0 as int }
}
pub open spec fn slot_len(t: TargetType) -> int { if t is Rel { 4 } else { 8 } }
pub open spec fn slot_fits(t: TargetType) -> bool { slot_pos(t) + slot_len(t) <= PS() }
/// What the slot of t must hold when its label lies at address src.
pub open spec fn slot_bytes(pages: Seq<PageV>, src: int, t: TargetType) -> Seq<u8> {
    match t {
        TargetType::Rel { page, offset, pos } => le32((src - (pages[page.0 as int].base + pos.0 + offset)) as i32 as u32),
        TargetType::Abs { page, pos } => le64(src as u64),
    }
}
pub open spec fn rl_target(pages: Seq<PageV>, src: int, t: TargetType) -> Seq<PageV> {
    pages.update(slot_page(t), p_write(pages[slot_page(t)], slot_pos(t), slot_bytes(pages, src, t)))
}
pub open spec fn rl_targets(pages: Seq<PageV>, src: int, ts: Seq<TargetType>) -> Seq<PageV>
    decreases ts.len()
{
    if ts.len() == 0 { pages } else { rl_target(rl_targets(pages, src, ts.drop_last()), src, ts.last()) }
}
pub open spec fn loc_addr(pages: Seq<PageV>, loc: (Page, Pos)) -> int { pages[loc.0.0 as int].base + loc.1.0 }
pub open spec fn rl_label(pages: Seq<PageV>, l: LabelV) -> Seq<PageV> {
    match l.loc { Some(loc) => rl_targets(pages, loc_addr(pages, loc), l.target), None => pages }
}
pub open spec fn rl_labels(pages: Seq<PageV>, ls: Seq<LabelV>) -> Seq<PageV>
    decreases ls.len()
{
    if ls.len() == 0 { pages } else { rl_label(rl_labels(pages, ls.drop_last()), ls.last()) }
}
pub open spec fn done_label(l: LabelV) -> LabelV {
    if l.loc is Some { LabelV { loc: l.loc, target: Seq::empty() } } else { l }
}
pub open spec fn targets_fit(ts: Seq<TargetType>) -> bool { forall|j: int| 0 <= j < ts.len() ==> slot_fits(#[trigger] ts[j]) }
pub open spec fn label_fits(l: LabelV) -> bool { l.loc is Some ==> targets_fit(l.target) }
pub open spec fn relocs_fit(ls: Seq<LabelV>) -> bool { forall|i: int| 0 <= i < ls.len() ==> label_fits(#[trigger] ls[i]) }
pub open spec fn sp_relocs(v: JitV) -> JitV {
    JitV { pages: rl_labels(v.pages, v.labels), labels: Seq::new(v.labels.len(), |i: int| done_label(v.labels[i])), ..v }
}
pub open spec fn pages_wf(p: Seq<PageV>) -> bool {
    &&& p.len() == 3
    &&& forall|i: int| 0 <= i < 3 ==> (#[trigger] p[i]).wf()
    &&& p[1].base == p[0].base + PS()
    &&& p[2].base == p[0].base + 2 * PS()
}

// ---------------------------------------------------------------- finalize

pub open spec fn p_close(p: PageV) -> PageV {
    PageV { code_len: p.counter, blocks: p.blocks.push((Pos(p.top as usize), Pos(p.counter as usize), Pos(0))), ..p }
}
pub open spec fn p_end(p: PageV) -> PageV {
    PageV { blocks: p.blocks.update(p.blocks.len() - 1, (p.blocks.last().0, p.blocks.last().1, Pos(p.counter as usize))), ..p }
}
pub open spec fn p_top(p: PageV) -> PageV { PageV { top: p.counter, ..p } }
pub open spec fn j_close(v: JitV) -> JitV { JitV { pages: Seq::new(3, |i: int| p_close(v.pages[i])), ..v } }
pub open spec fn j_end(v: JitV) -> JitV { JitV { pages: Seq::new(3, |i: int| p_end(v.pages[i])), ..v } }
pub open spec fn j_top(v: JitV) -> JitV { JitV { pages: Seq::new(3, |i: int| p_top(v.pages[i])), ..v } }
/// everything placed, nothing relocated yet
pub open spec fn sp_placed(v: JitV) -> JitV { sp_data(sp_consts(j_close(v), 2), 2) }
pub open spec fn sp_finalize(v: JitV) -> JitV { j_top(sp_relocs(j_end(sp_placed(v)))) }
pub open spec fn finalize_fits(v: JitV) -> bool {
    &&& consts_fit(j_close(v), 2)
    &&& data_fit(sp_consts(j_close(v), 2), 2)
    &&& relocs_fit(sp_placed(v).labels)
}

// ---------------------------------------------------------------- lemmas

pub proof fn lemma_align_int(c: int, n: int)
    requires 0 <= c <= PS(), n == 4 || n == 8 || n == 16 || n == 4096,
    ensures c <= align_up(c, n) < c + n, align_up(c, n) <= PS(), align_up(c, n) % n == 0,
{
    let x = c + n - 1;
    let q = x / n;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, n);
    vstd::arithmetic::div_mod::lemma_mod_bound(x, n);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q, n);
    assert(n * q == q * n) by (nonlinear_arith);
    assert(q * n == x - x % n);
    let k: int = if n == 4 { 0x400_0000 } else if n == 8 { 0x200_0000 } else if n == 16 { 0x100_0000 } else { 0x1_0000 };
    assert(k * n == PS());
    if q > k { assert(q * n >= (k + 1) * n) by (nonlinear_arith) requires q >= k + 1, n > 0; assert((k + 1) * n == k * n + n) by (nonlinear_arith); }
    assert(q * n <= k * n) by (nonlinear_arith) requires q <= k, n > 0;
}
pub proof fn lemma_j_upd_inv(v: JitV, i: int, p: PageV)
    requires v.inv(), 0 <= i < 3, p.wf(), p.base == v.pages[i].base, items_ok(p.constants, v.labels.len() as int), items_ok(p.data, v.labels.len() as int),
    ensures j_upd(v, i, p).inv(),
{
    let w = j_upd(v, i, p);
    assert forall|k: int| 0 <= k < 3 implies (#[trigger] w.pages[k]).wf() by { assert(v.pages[k].wf()); }
    assert forall|k: int| 0 <= k < 3 implies items_ok((#[trigger] w.pages[k]).constants, w.labels.len() as int) by { assert(items_ok(v.pages[k].constants, v.labels.len() as int)); }
    assert forall|k: int| 0 <= k < 3 implies items_ok((#[trigger] w.pages[k]).data, w.labels.len() as int) by { assert(items_ok(v.pages[k].data, v.labels.len() as int)); }
}
pub proof fn lemma_prep_inv(v: JitV, page: int, it: (DataType, DestLabel))
    requires v.inv(), 0 <= page < 3, item_ok(it, v.labels.len() as int),
    ensures
        sp_prep(v, page, it).inv(),
        sp_prep(v, page, it).page == v.page,
        sp_prep(v, page, it).labels.len() == v.labels.len(),
        sp_prep(v, page, it).pages[page].counter == place_at(v, page, it.0),
{
    let v1 = j_palign(v, page, item_align(it.0));
    assert(v.pages[page].wf());
    lemma_align_int(v.pages[page].counter, item_align(it.0));
    lemma_j_upd_inv(v, page, v1.pages[page]);
    assert(v1.lab(it.1).wf());
    lemma_lupd_inv(v1, it.1, LabelV { loc: Some((Page(page as usize), Pos(v1.pages[page].counter as usize))), ..v1.lab(it.1) });
    let v2 = j_bind(v1, Page(page as usize), it.1);
    if let DataType::AbsAddress(l) = it.0 {
        let t = TargetType::Abs { page: Page(page as usize), pos: Pos(v2.pages[page].counter as usize) };
        assert(v2.lab(l).wf());
        assert(v2.pages[page].wf());
        lemma_lupd_inv(v2, l, LabelV { target: v2.lab(l).target.push(t), ..v2.lab(l) });
    }
}
pub proof fn lemma_place_inv(v: JitV, page: int, it: (DataType, DestLabel))
    requires v.inv(), 0 <= page < 3, item_ok(it, v.labels.len() as int), place_fits(v, page, it.0),
    ensures
        sp_place(v, page, it).inv(),
        sp_place(v, page, it).page == v.page,
        sp_place(v, page, it).labels.len() == v.labels.len(),
{
    lemma_prep_inv(v, page, it);
    let w = sp_prep(v, page, it);
    assert(w.pages[page].wf());
    lemma_j_upd_inv(w, page, p_emit(w.pages[page], item_bytes(it.0)));
}
pub proof fn lemma_places_inv(v: JitV, page: int, items: Seq<(DataType, DestLabel)>)
    requires v.inv(), 0 <= page < 3, items_ok(items, v.labels.len() as int), places_fit(v, page, items),
    ensures
        sp_places(v, page, items).inv(),
        sp_places(v, page, items).page == v.page,
        sp_places(v, page, items).labels.len() == v.labels.len(),
    decreases items.len()
{
    if items.len() > 0 {
        lemma_places_inv(v, page, items.drop_last());
        assert(item_ok(items[items.len() - 1], v.labels.len() as int));
        lemma_place_inv(sp_places(v, page, items.drop_last()), page, items.last());
    }
}
/// unfolding at the front of the loop: one more item
pub proof fn lemma_places_step(v: JitV, page: int, items: Seq<(DataType, DestLabel)>, k: int)
    requires 0 <= k < items.len(),
    ensures
        sp_places(v, page, items.take(k + 1)) == sp_place(sp_places(v, page, items.take(k)), page, items[k]),
        places_fit(v, page, items.take(k + 1)) == (places_fit(v, page, items.take(k)) && place_fits(sp_places(v, page, items.take(k)), page, items[k].0)),
{
    assert(items.take(k + 1).drop_last() =~= items.take(k));
    assert(items.take(k + 1).last() == items[k]);
}
pub proof fn lemma_places_fit_prefix(v: JitV, page: int, items: Seq<(DataType, DestLabel)>, k: int)
    requires places_fit(v, page, items), 0 <= k <= items.len(),
    ensures places_fit(v, page, items.take(k)),
    decreases items.len() - k
{
    if k < items.len() {
        lemma_places_fit_prefix(v, page, items, k + 1);
        lemma_places_step(v, page, items, k);
    } else {
        assert(items.take(k) =~= items);
    }
}
pub proof fn lemma_places_fit_prefix2(v: JitV, page: int, items: Seq<(DataType, DestLabel)>, k: int)
    requires 0 <= k <= items.len(),
    ensures places_fit(v, page, items) ==> places_fit(v, page, items.take(k)),
{
    if places_fit(v, page, items) { lemma_places_fit_prefix(v, page, items, k); }
}
pub proof fn lemma_place_inv2(v: JitV, page: int, it: (DataType, DestLabel))
    requires v.inv(), 0 <= page < 3, item_ok(it, v.labels.len() as int),
    ensures
        place_fits(v, page, it.0) ==> sp_place(v, page, it).inv() && sp_place(v, page, it).page == v.page && sp_place(v, page, it).labels.len() == v.labels.len(),
        item_bytes(it.0).len() == 0 ==> sp_place(v, page, it) == sp_prep(v, page, it),
{
    if item_bytes(it.0).len() == 0 {
        lemma_prep_inv(v, page, it);
        assert(sp_prep(v, page, it).pages[page].wf());
        assert(sp_place(v, page, it) =~~= sp_prep(v, page, it));
    }
    if place_fits(v, page, it.0) { lemma_place_inv(v, page, it); }
}

/// everything but memory contents agrees
pub open spec fn pages_same(a: Seq<PageV>, b: Seq<PageV>) -> bool {
    &&& a.len() == b.len()
    &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] page_same(a[i], b[i])
}
pub open spec fn page_same(a: PageV, b: PageV) -> bool { a == (PageV { mem: a.mem, ..b }) && a.mem.len() == b.mem.len() }
pub proof fn lemma_rlt_step(pages: Seq<PageV>, src: int, ts: Seq<TargetType>, k: int)
    requires 0 <= k < ts.len(),
    ensures
        rl_targets(pages, src, ts.take(k + 1)) == rl_target(rl_targets(pages, src, ts.take(k)), src, ts[k]),
        targets_fit(ts.take(k + 1)) == (targets_fit(ts.take(k)) && slot_fits(ts[k])),
{
    assert(ts.take(k + 1).drop_last() =~= ts.take(k));
    assert(ts.take(k + 1).last() == ts[k]);
    if targets_fit(ts.take(k + 1)) {
        assert forall|j: int| 0 <= j < k implies slot_fits(#[trigger] ts.take(k)[j]) by { assert(slot_fits(ts.take(k + 1)[j])); }
        assert(slot_fits(ts.take(k + 1)[k]));
    }
    if targets_fit(ts.take(k)) && slot_fits(ts[k]) {
        assert forall|j: int| 0 <= j < k + 1 implies slot_fits(#[trigger] ts.take(k + 1)[j]) by { if j < k { assert(slot_fits(ts.take(k)[j])); } }
    }
}
pub proof fn lemma_rl_step(pages: Seq<PageV>, ls: Seq<LabelV>, k: int)
    requires 0 <= k < ls.len(),
    ensures
        rl_labels(pages, ls.take(k + 1)) == rl_label(rl_labels(pages, ls.take(k)), ls[k]),
        relocs_fit(ls.take(k + 1)) == (relocs_fit(ls.take(k)) && label_fits(ls[k])),
{
    assert(ls.take(k + 1).drop_last() =~= ls.take(k));
    assert(ls.take(k + 1).last() == ls[k]);
    if relocs_fit(ls.take(k + 1)) {
        assert forall|j: int| 0 <= j < k implies label_fits(#[trigger] ls.take(k)[j]) by { assert(label_fits(ls.take(k + 1)[j])); }
        assert(label_fits(ls.take(k + 1)[k]));
    }
    if relocs_fit(ls.take(k)) && label_fits(ls[k]) {
        assert forall|j: int| 0 <= j < k + 1 implies label_fits(#[trigger] ls.take(k + 1)[j]) by { if j < k { assert(label_fits(ls.take(k)[j])); } }
    }
}
pub proof fn lemma_rlt_same(pages: Seq<PageV>, src: int, ts: Seq<TargetType>)
    requires forall|j: int| 0 <= j < ts.len() ==> target_ok(#[trigger] ts[j]), pages.len() == 3,
    ensures pages_same(rl_targets(pages, src, ts), pages),
    decreases ts.len()
{
    if ts.len() > 0 {
        let t2 = ts.drop_last();
        assert forall|j: int| 0 <= j < t2.len() implies target_ok(#[trigger] t2[j]) by { assert(target_ok(ts[j])); }
        lemma_rlt_same(pages, src, t2);
        assert(target_ok(ts[ts.len() - 1]));
        let q = rl_targets(pages, src, t2);
        let r = rl_target(q, src, ts.last());
        assert forall|i: int| 0 <= i < 3 implies #[trigger] page_same(r[i], pages[i]) by { assert(page_same(q[i], pages[i])); }
    } else {
        assert forall|i: int| 0 <= i < 3 implies #[trigger] page_same(pages[i], pages[i]) by { }
    }
}
pub proof fn lemma_rl_same(pages: Seq<PageV>, ls: Seq<LabelV>)
    requires labels_ok(ls), pages.len() == 3,
    ensures pages_same(rl_labels(pages, ls), pages),
    decreases ls.len()
{
    if ls.len() > 0 {
        let l2 = ls.drop_last();
        assert forall|j: int| 0 <= j < l2.len() implies (#[trigger] l2[j]).wf() by { assert(ls[j].wf()); }
        lemma_rl_same(pages, l2);
        assert(ls[ls.len() - 1].wf());
        let q = rl_labels(pages, l2);
        if let Some(loc) = ls.last().loc {
            lemma_rlt_same(q, loc_addr(q, loc), ls.last().target);
            let r = rl_label(q, ls.last());
            assert forall|i: int| 0 <= i < 3 implies #[trigger] page_same(r[i], pages[i]) by { assert(page_same(r[i], q[i])); assert(page_same(q[i], pages[i])); }
        }
    } else {
        assert forall|i: int| 0 <= i < 3 implies #[trigger] page_same(pages[i], pages[i]) by { }
    }
}
pub proof fn lemma_same_inv(v: JitV, w: JitV)
    requires v.inv(), w.page == v.page, pages_same(w.pages, v.pages), labels_ok(w.labels), w.labels.len() == v.labels.len(),
    ensures w.inv(),
{
    assert forall|i: int| 0 <= i < 3 implies (#[trigger] w.pages[i]).wf() && items_ok(w.pages[i].constants, w.labels.len() as int) && items_ok(w.pages[i].data, w.labels.len() as int) by {
        assert(page_same(w.pages[i], v.pages[i]));
        assert(v.pages[i].wf());
    }
    assert(page_same(w.pages[0], v.pages[0]) && page_same(w.pages[1], v.pages[1]) && page_same(w.pages[2], v.pages[2]));
}
pub proof fn lemma_relocs_inv(v: JitV)
    requires v.inv(),
    ensures sp_relocs(v).inv(), pages_same(sp_relocs(v).pages, v.pages),
{
    lemma_rl_same(v.pages, v.labels);
    assert forall|i: int| 0 <= i < v.labels.len() implies (#[trigger] sp_relocs(v).labels[i]).wf() by { assert(v.labels[i].wf()); }
    lemma_same_inv(v, sp_relocs(v));
}
pub proof fn lemma_same_trans(a: Seq<PageV>, b: Seq<PageV>, c: Seq<PageV>)
    requires pages_same(a, b), pages_same(b, c),
    ensures pages_same(a, c),
{
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] page_same(a[i], c[i]) by { assert(page_same(a[i], b[i])); assert(page_same(b[i], c[i])); }
}
pub proof fn lemma_close_inv(v: JitV)
    requires v.inv(),
    ensures j_close(v).inv(),
{
    assert forall|i: int| 0 <= i < 3 implies (#[trigger] j_close(v).pages[i]).wf() && items_ok(j_close(v).pages[i].constants, v.labels.len() as int) && items_ok(j_close(v).pages[i].data, v.labels.len() as int) by { assert(v.pages[i].wf()); }
}
pub proof fn lemma_end_inv(v: JitV)
    requires v.inv(),
    ensures j_end(v).inv(),
{
    assert forall|i: int| 0 <= i < 3 implies (#[trigger] j_end(v).pages[i]).wf() && items_ok(j_end(v).pages[i].constants, v.labels.len() as int) && items_ok(j_end(v).pages[i].data, v.labels.len() as int) by { assert(v.pages[i].wf()); }
}
pub proof fn lemma_top_inv(v: JitV)
    requires v.inv(),
    ensures j_top(v).inv(),
{
    assert forall|i: int| 0 <= i < 3 implies (#[trigger] j_top(v).pages[i]).wf() && items_ok(j_top(v).pages[i].constants, v.labels.len() as int) && items_ok(j_top(v).pages[i].data, v.labels.len() as int) by { assert(v.pages[i].wf()); }
}
pub open spec fn blocks_same(v: JitV, w: JitV) -> bool {
    forall|i: int| 0 <= i < 3 ==> (#[trigger] v.pages[i]).blocks == w.pages[i].blocks && v.pages[i].top == w.pages[i].top && v.pages[i].code_len == w.pages[i].code_len && v.pages[i].base == w.pages[i].base
}
pub proof fn lemma_places_blocks(v: JitV, page: int, items: Seq<(DataType, DestLabel)>)
    requires v.pages.len() == 3, 0 <= page < 3,
    ensures blocks_same(v, sp_places(v, page, items)), sp_places(v, page, items).pages.len() == 3,
    decreases items.len()
{
    if items.len() > 0 { lemma_places_blocks(v, page, items.drop_last()); }
}
pub proof fn lemma_placed_blocks(v: JitV)
    requires v.inv(),
    ensures blocks_same(j_close(v), sp_placed(v)), sp_placed(v).pages.len() == 3,
        forall|i: int| 0 <= i < 3 ==> (#[trigger] sp_placed(v).pages[i]).blocks.len() > 0,
{
    reveal_with_fuel(sp_consts, 3);
    reveal_with_fuel(sp_data, 3);
    let a = j_close(v);
    let b = sp_consts(a, 1);
    lemma_places_blocks(clear_consts(a, 0), 0, a.pages[0].constants);
    lemma_places_blocks(clear_consts(b, 1), 1, b.pages[1].constants);
    let c = sp_consts(a, 2);
    let d = sp_data(c, 1);
    lemma_places_blocks(clear_data(c, 0), 2, c.pages[0].data);
    lemma_places_blocks(clear_data(d, 1), 2, d.pages[1].data);
    assert forall|i: int| 0 <= i < 3 implies (#[trigger] a.pages[i]).blocks == sp_placed(v).pages[i].blocks && a.pages[i].top == sp_placed(v).pages[i].top && a.pages[i].code_len == sp_placed(v).pages[i].code_len && a.pages[i].base == sp_placed(v).pages[i].base by {
        assert(clear_consts(a, 0).pages[i].blocks == b.pages[i].blocks);
        assert(clear_consts(b, 1).pages[i].blocks == c.pages[i].blocks);
        assert(clear_data(c, 0).pages[i].blocks == d.pages[i].blocks);
        assert(clear_data(d, 1).pages[i].blocks == sp_placed(v).pages[i].blocks);
    }
    assert forall|i: int| 0 <= i < 3 implies (#[trigger] sp_placed(v).pages[i]).blocks.len() > 0 by { assert(a.pages[i].blocks.len() > 0); }
}
