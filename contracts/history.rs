pub mod history {
use super::*;

// ---------------------------------------------------------------- theorems over histories
//
// good(v) is the inductive invariant of a buffer driven through its interface by
// whole instructions; it is established by new() and preserved by every transition
// below (these are the postconditions of the functions of the crate).

pub open spec fn inslot(t: TargetType, p: int, k: int) -> bool { slot_page(t) == p && slot_pos(t) <= k < slot_pos(t) + slot_len(t) }
pub open spec fn sdisj(t: TargetType, u: TargetType) -> bool {
    slot_page(t) != slot_page(u) || slot_pos(t) + slot_len(t) <= slot_pos(u) || slot_pos(u) + slot_len(u) <= slot_pos(t)
}
pub open spec fn ts_disj(ts: Seq<TargetType>) -> bool {
    forall|i: int, j: int| 0 <= i < ts.len() && 0 <= j < ts.len() && i != j ==> sdisj(#[trigger] ts[i], #[trigger] ts[j])
}
pub open spec fn slotat(ls: Seq<LabelV>, i: int, j: int) -> bool { 0 <= i < ls.len() && 0 <= j < ls[i].target.len() }
pub open spec fn slots_disj(ls: Seq<LabelV>) -> bool {
    forall|i: int, j: int, a: int, b: int| #[trigger] slotat(ls, i, j) && #[trigger] slotat(ls, a, b) && !(i == a && j == b) ==> sdisj(ls[i].target[j], ls[a].target[b])
}
/// every pending slot lies in bytes already emitted
pub open spec fn slots_in(v: JitV) -> bool {
    forall|i: int, j: int| #[trigger] slotat(v.labels, i, j) ==> {
        let t = v.labels[i].target[j];
        target_ok(t) && slot_pos(t) + slot_len(t) <= v.pages[slot_page(t)].counter
    }
}
pub open spec fn slots_ok(v: JitV) -> bool { slots_disj(v.labels) && slots_in(v) }
/// pending items: constants of code regions 0 and 1, data requested from them
pub open spec fn items(v: JitV, s: int) -> Seq<(DataType, DestLabel)> {
    if s == 0 { v.pages[0].constants } else if s == 1 { v.pages[1].constants } else if s == 2 { v.pages[0].data } else { v.pages[1].data }
}
pub open spec fn hasitem(v: JitV, s: int, a: int) -> bool { 0 <= s < 4 && 0 <= a < items(v, s).len() }
pub open spec fn pool_ok(v: JitV) -> bool {
    forall|s: int, a: int, t: int, b: int| #[trigger] hasitem(v, s, a) && #[trigger] hasitem(v, t, b) && !(s == t && a == b) ==> items(v, s)[a].1 != items(v, t)[b].1
}
/// block records of one region are contiguous, ordered, and end at `top`
pub open spec fn blocks_ok(p: PageV) -> bool {
    &&& forall|i: int| 0 <= i < p.blocks.len() ==> (#[trigger] p.blocks[i]).0.0 <= p.blocks[i].1.0 <= p.blocks[i].2.0 && p.blocks[i].0.0 == (if i == 0 { 0int } else { p.blocks[i - 1].2.0 as int })
    &&& p.top == (if p.blocks.len() == 0 { 0int } else { p.blocks.last().2.0 as int })
    &&& p.code_len == (if p.blocks.len() == 0 { 0int } else { p.blocks.last().1.0 as int })
}
pub open spec fn good(v: JitV) -> bool {
    &&& v.inv()
    &&& slots_ok(v)
    &&& pool_ok(v)
    &&& forall|i: int| 0 <= i < 3 ==> blocks_ok(#[trigger] v.pages[i])
}

// -- relocation

pub open spec fn holds(pages: Seq<PageV>, src: int, t: TargetType) -> bool {
    pages[slot_page(t)].mem.subrange(slot_pos(t), slot_pos(t) + slot_len(t)) == slot_bytes(pages, src, t)
}
pub proof fn lemma_rlt(pages: Seq<PageV>, src: int, ts: Seq<TargetType>)
    requires
        pages_wf(pages), ts_disj(ts), targets_fit(ts),
        forall|j: int| 0 <= j < ts.len() ==> target_ok(#[trigger] ts[j]),
    ensures
        pages_wf(rl_targets(pages, src, ts)),
        pages_same(rl_targets(pages, src, ts), pages),
        forall|p: int, k: int| 0 <= p < 3 && 0 <= k < PS() && (forall|j: int| 0 <= j < ts.len() ==> !inslot(#[trigger] ts[j], p, k)) ==> (#[trigger] rl_targets(pages, src, ts)[p].mem[k]) == pages[p].mem[k],
        forall|j: int| 0 <= j < ts.len() ==> holds(rl_targets(pages, src, ts), src, #[trigger] ts[j]),
    decreases ts.len()
{
    lemma_rlt_same(pages, src, ts);
    let r = rl_targets(pages, src, ts);
    assert forall|i: int| 0 <= i < 3 implies (#[trigger] r[i]).wf() by { assert(page_same(r[i], pages[i])); assert(pages[i].wf()); }
    assert(page_same(r[0], pages[0]) && page_same(r[1], pages[1]) && page_same(r[2], pages[2]));
    if ts.len() > 0 {
        let t2 = ts.drop_last();
        let n = ts.len() - 1;
        assert forall|i: int, j: int| 0 <= i < t2.len() && 0 <= j < t2.len() && i != j implies sdisj(#[trigger] t2[i], #[trigger] t2[j]) by { assert(sdisj(ts[i], ts[j])); }
        assert forall|j: int| 0 <= j < t2.len() implies slot_fits(#[trigger] t2[j]) && target_ok(t2[j]) by { assert(slot_fits(ts[j])); assert(target_ok(ts[j])); }
        lemma_rlt(pages, src, t2);
        let q = rl_targets(pages, src, t2);
        let t = ts.last();
        assert(target_ok(ts[n]) && slot_fits(ts[n]));
        assert(page_same(q[slot_page(t)], pages[slot_page(t)]));
        assert(q[slot_page(t)].wf());
        assert(slot_bytes(q, src, t).len() == slot_len(t));
        assert forall|p: int, k: int| 0 <= p < 3 && 0 <= k < PS() && (forall|j: int| 0 <= j < ts.len() ==> !inslot(#[trigger] ts[j], p, k)) implies (#[trigger] r[p].mem[k]) == pages[p].mem[k] by {
            assert(!inslot(ts[n], p, k));
            assert forall|j: int| 0 <= j < t2.len() implies !inslot(#[trigger] t2[j], p, k) by { assert(!inslot(ts[j], p, k)); }
            assert(q[p].mem[k] == pages[p].mem[k]);
            assert(q[p].wf());
        }
        assert forall|j: int| 0 <= j < ts.len() implies holds(r, src, #[trigger] ts[j]) by {
            if j < n {
                assert(t2[j] == ts[j]);
                assert(holds(q, src, t2[j]));
                assert(sdisj(ts[j], ts[n]));
                assert(target_ok(ts[j]));
                let u = ts[j];
                assert(slot_fits(u));
                assert(page_same(q[slot_page(u)], pages[slot_page(u)]));
                assert(q[slot_page(u)].wf());
                assert(slot_bytes(r, src, u) == slot_bytes(q, src, u));
                assert(r[slot_page(u)].mem.subrange(slot_pos(u), slot_pos(u) + slot_len(u)) =~= q[slot_page(u)].mem.subrange(slot_pos(u), slot_pos(u) + slot_len(u)));
            } else {
                assert(slot_bytes(r, src, t) == slot_bytes(q, src, t));
                assert(r[slot_page(t)].mem.subrange(slot_pos(t), slot_pos(t) + slot_len(t)) =~= slot_bytes(q, src, t));
            }
        }
    }
}
pub open spec fn bound_slot(ls: Seq<LabelV>, i: int, j: int) -> bool { slotat(ls, i, j) && ls[i].loc is Some }
pub proof fn lemma_rl(pages: Seq<PageV>, ls: Seq<LabelV>)
    requires pages_wf(pages), labels_ok(ls), slots_disj(ls), relocs_fit(ls),
    ensures
        pages_wf(rl_labels(pages, ls)),
        pages_same(rl_labels(pages, ls), pages),
        forall|p: int, k: int| 0 <= p < 3 && 0 <= k < PS() && (forall|i: int, j: int| #[trigger] bound_slot(ls, i, j) ==> !inslot(ls[i].target[j], p, k)) ==> (#[trigger] rl_labels(pages, ls)[p].mem[k]) == pages[p].mem[k],
        forall|i: int, j: int| #[trigger] bound_slot(ls, i, j) ==> holds(rl_labels(pages, ls), loc_addr(pages, ls[i].loc->Some_0), ls[i].target[j]),
    decreases ls.len()
{
    lemma_rl_same(pages, ls);
    let r = rl_labels(pages, ls);
    assert forall|i: int| 0 <= i < 3 implies (#[trigger] r[i]).wf() by { assert(page_same(r[i], pages[i])); assert(pages[i].wf()); }
    assert(page_same(r[0], pages[0]) && page_same(r[1], pages[1]) && page_same(r[2], pages[2]));
    if ls.len() > 0 {
        let l2 = ls.drop_last();
        let n = ls.len() - 1;
        assert forall|i: int| 0 <= i < l2.len() implies (#[trigger] l2[i]).wf() && label_fits(l2[i]) by { assert(ls[i].wf()); assert(label_fits(ls[i])); }
        assert forall|i: int, j: int, a: int, b: int| #[trigger] slotat(l2, i, j) && #[trigger] slotat(l2, a, b) && !(i == a && j == b) implies sdisj(l2[i].target[j], l2[a].target[b]) by {
            assert(slotat(ls, i, j)); assert(slotat(ls, a, b));
        }
        lemma_rl(pages, l2);
        let q = rl_labels(pages, l2);
        let x = ls.last();
        assert(ls[n].wf() && label_fits(ls[n]));
        assert(page_same(q[0], pages[0]) && page_same(q[1], pages[1]) && page_same(q[2], pages[2]));
        let ts = x.target;
        assert(ts_disj(ts)) by {
            assert forall|i: int, j: int| 0 <= i < ts.len() && 0 <= j < ts.len() && i != j implies sdisj(#[trigger] ts[i], #[trigger] ts[j]) by {
                assert(slotat(ls, n, i)); assert(slotat(ls, n, j));
            }
        }
        if let Some(loc) = x.loc {
            let src = loc_addr(q, loc);
            lemma_rlt(q, src, ts);
            assert forall|p: int, k: int| 0 <= p < 3 && 0 <= k < PS() && (forall|i: int, j: int| #[trigger] bound_slot(ls, i, j) ==> !inslot(ls[i].target[j], p, k)) implies (#[trigger] r[p].mem[k]) == pages[p].mem[k] by {
                assert forall|j: int| 0 <= j < ts.len() implies !inslot(#[trigger] ts[j], p, k) by { assert(bound_slot(ls, n, j)); }
                assert forall|i: int, j: int| #[trigger] bound_slot(l2, i, j) implies !inslot(l2[i].target[j], p, k) by { assert(bound_slot(ls, i, j)); }
                assert(q[p].mem[k] == pages[p].mem[k]);
            }
            assert forall|i: int, j: int| #[trigger] bound_slot(ls, i, j) implies holds(r, loc_addr(pages, ls[i].loc->Some_0), ls[i].target[j]) by {
                if i < n {
                    let u = ls[i].target[j];
                    assert(bound_slot(l2, i, j));
                    assert(ls[i].wf()); assert(target_ok(u));
                    assert(label_fits(ls[i])); assert(slot_fits(u));
                    let s2 = loc_addr(pages, ls[i].loc->Some_0);
                    assert(holds(q, s2, u));
                    assert(page_same(r[slot_page(u)], pages[slot_page(u)]));
                    assert(slot_bytes(r, s2, u) == slot_bytes(q, s2, u));
                    assert forall|k: int| slot_pos(u) <= k < slot_pos(u) + slot_len(u) implies r[slot_page(u)].mem[k] == q[slot_page(u)].mem[k] by {
                        assert forall|b: int| 0 <= b < ts.len() implies !inslot(#[trigger] ts[b], slot_page(u), k) by {
                            assert(slotat(ls, i, j)); assert(slotat(ls, n, b));
                            assert(sdisj(u, ls[n].target[b]));
                        }
                    }
                    assert(q[slot_page(u)].wf());
                    assert(r[slot_page(u)].mem.subrange(slot_pos(u), slot_pos(u) + slot_len(u)) =~= q[slot_page(u)].mem.subrange(slot_pos(u), slot_pos(u) + slot_len(u)));
                } else {
                    assert(holds(r, src, ts[j]));
                }
            }
        } else {
            assert(r == q);
            assert forall|p: int, k: int| 0 <= p < 3 && 0 <= k < PS() && (forall|i: int, j: int| #[trigger] bound_slot(ls, i, j) ==> !inslot(ls[i].target[j], p, k)) implies (#[trigger] r[p].mem[k]) == pages[p].mem[k] by {
                assert forall|i: int, j: int| #[trigger] bound_slot(l2, i, j) implies !inslot(l2[i].target[j], p, k) by { assert(bound_slot(ls, i, j)); }
                assert(q[p].mem[k] == pages[p].mem[k]);
            }
            assert forall|i: int, j: int| #[trigger] bound_slot(ls, i, j) implies holds(r, loc_addr(pages, ls[i].loc->Some_0), ls[i].target[j]) by {
                assert(bound_slot(l2, i, j));
            }
        }
    }
}

// -- pools

/// the slot lies behind what was emitted before
pub open spec fn new_slot(v: JitV, t: TargetType) -> bool { slot_pos(t) >= v.pages[slot_page(t)].counter }
/// page q of w continues page q of v: bytes appended, bookkeeping untouched
pub open spec fn pgrow(v: PageV, w: PageV) -> bool {
    &&& w.base == v.base && w.top == v.top && w.code_len == v.code_len && w.blocks == v.blocks
    &&& v.counter <= w.counter
    &&& w.mem.len() == v.mem.len()
    &&& forall|k: int| 0 <= k < v.counter ==> #[trigger] w.mem[k] == v.mem[k]
}
/// w continues v: bytes appended, labels bound, references added behind the old bytes.
pub open spec fn grow(v: JitV, w: JitV) -> bool {
    &&& w.page == v.page
    &&& w.pages.len() == 3
    &&& forall|q: int| 0 <= q < 3 ==> pgrow(v.pages[q], #[trigger] w.pages[q])
    &&& w.labels.len() == v.labels.len()
    &&& forall|i: int| 0 <= i < v.labels.len() ==> (#[trigger] w.labels[i]).target.len() >= v.labels[i].target.len()
    &&& forall|i: int, j: int| #[trigger] slotat(v.labels, i, j) ==> w.labels[i].target[j] == v.labels[i].target[j]
    &&& forall|i: int, j: int| #[trigger] slotat(w.labels, i, j) && !slotat(v.labels, i, j) ==> new_slot(v, w.labels[i].target[j])
}
pub proof fn lemma_grow_trans(u: JitV, v: JitV, w: JitV)
    requires grow(u, v), grow(v, w), slots_in(w), slots_in(v),
    ensures grow(u, w),
{
    assert forall|i: int| 0 <= i < u.labels.len() implies (#[trigger] w.labels[i]).target.len() >= u.labels[i].target.len() by { assert(v.labels[i].target.len() >= u.labels[i].target.len()); }
    assert forall|i: int, j: int| #[trigger] slotat(u.labels, i, j) implies w.labels[i].target[j] == u.labels[i].target[j] by { assert(v.labels[i].target.len() >= u.labels[i].target.len()); assert(slotat(v.labels, i, j)); }
    assert forall|i: int, j: int| #[trigger] slotat(w.labels, i, j) && !slotat(u.labels, i, j) implies new_slot(u, w.labels[i].target[j]) by {
        let t = w.labels[i].target[j];
        assert(target_ok(t));
        assert(pgrow(u.pages[slot_page(t)], v.pages[slot_page(t)]));
        if slotat(v.labels, i, j) { assert(new_slot(u, v.labels[i].target[j])); } else { assert(new_slot(v, t)); }
    }
    assert forall|q: int| 0 <= q < 3 implies pgrow(u.pages[q], #[trigger] w.pages[q]) by {
        assert(pgrow(u.pages[q], v.pages[q])); assert(pgrow(v.pages[q], w.pages[q]));
    }
}
pub proof fn lemma_grow_refl(v: JitV)
    requires v.inv(),
    ensures grow(v, v),
{ }
/// no pending slot touches these bytes
pub open spec fn clear(v: JitV, page: int, lo: int, hi: int) -> bool {
    forall|i: int, j: int| #[trigger] slotat(v.labels, i, j) ==> {
        let t = v.labels[i].target[j];
        slot_page(t) != page || slot_pos(t) + slot_len(t) <= lo || hi <= slot_pos(t)
    }
}
pub proof fn lemma_place(v: JitV, page: int, it: (DataType, DestLabel))
    requires v.inv(), slots_ok(v), 0 <= page < 3, item_ok(it, v.labels.len() as int), place_fits(v, page, it.0),
    ensures
        sp_place(v, page, it).inv(),
        slots_ok(sp_place(v, page, it)),
        grow(v, sp_place(v, page, it)),
        forall|t: int| 0 <= t < 4 ==> #[trigger] items(sp_place(v, page, it), t) == items(v, t),
        !(it.0 is AbsAddress) ==> clear(sp_place(v, page, it), page, place_at(v, page, it.0), place_at(v, page, it.0) + item_bytes(it.0).len()),
        sp_place(v, page, it).pages[page].counter == place_at(v, page, it.0) + item_bytes(it.0).len(),
        v.pages[page].counter <= place_at(v, page, it.0),
        place_at(v, page, it.0) % item_align(it.0) == 0,
        sp_place(v, page, it).labels[it.1.0 as int].loc == Some((Page(page as usize), Pos(place_at(v, page, it.0) as usize))),
        forall|i: int| 0 <= i < v.labels.len() && i != it.1.0 ==> (#[trigger] sp_place(v, page, it).labels[i]).loc == v.labels[i].loc,
        sp_place(v, page, it).pages[page].mem.subrange(place_at(v, page, it.0), place_at(v, page, it.0) + item_bytes(it.0).len()) == item_bytes(it.0),
        it.0 matches DataType::AbsAddress(l) ==> {
            let n = sp_place(v, page, it).labels[l.0 as int].target.len() - 1;
            slotat(sp_place(v, page, it).labels, l.0 as int, n) && sp_place(v, page, it).labels[l.0 as int].target[n] == (TargetType::Abs { page: Page(page as usize), pos: Pos(place_at(v, page, it.0) as usize) })
        },
{
    lemma_place_inv(v, page, it);
    lemma_prep_inv(v, page, it);
    assert(v.pages[page].wf());
    let c = place_at(v, page, it.0);
    lemma_align_int(v.pages[page].counter, item_align(it.0));
    let w = sp_place(v, page, it);
    assert(w.pages[page].wf());
    assert(w.pages[page].mem.subrange(c, c + item_bytes(it.0).len()) =~= item_bytes(it.0));
    assert(forall|i: int, j: int| #[trigger] slotat(v.labels, i, j) ==> w.labels[i].target[j] == v.labels[i].target[j]);
    assert forall|i: int, j: int| #[trigger] slotat(w.labels, i, j) implies slotat(v.labels, i, j) && w.labels[i].target[j] == v.labels[i].target[j] || (it.0 matches DataType::AbsAddress(l) && i == l.0 && j == v.labels[i].target.len() && w.labels[i].target[j] == (TargetType::Abs { page: Page(page as usize), pos: Pos(c as usize) })) by { }
    assert(slots_in(w)) by {
        assert forall|i: int, j: int| #[trigger] slotat(w.labels, i, j) implies ({
            let t = w.labels[i].target[j];
            target_ok(t) && slot_pos(t) + slot_len(t) <= w.pages[slot_page(t)].counter }) by {
            if slotat(v.labels, i, j) { let t = v.labels[i].target[j]; assert(target_ok(t)); assert(w.pages[slot_page(t)].counter >= v.pages[slot_page(t)].counter); }
        }
    }
    assert(slots_disj(w.labels)) by {
        assert forall|i: int, j: int, a: int, b: int| #[trigger] slotat(w.labels, i, j) && #[trigger] slotat(w.labels, a, b) && !(i == a && j == b) implies sdisj(w.labels[i].target[j], w.labels[a].target[b]) by {
            if slotat(v.labels, i, j) && slotat(v.labels, a, b) { }
            else if slotat(v.labels, i, j) { let t = v.labels[i].target[j]; assert(slot_pos(t) + slot_len(t) <= v.pages[slot_page(t)].counter); }
            else { let t = v.labels[a].target[b]; assert(slotat(v.labels, a, b)); assert(slot_pos(t) + slot_len(t) <= v.pages[slot_page(t)].counter); }
        }
    }
}
pub open spec fn place_pos(v: JitV, page: int, its: Seq<(DataType, DestLabel)>, k: int) -> int {
    place_at(sp_places(v, page, its.take(k)), page, its[k].0)
}
pub open spec fn labels_distinct(its: Seq<(DataType, DestLabel)>) -> bool {
    forall|a: int, b: int| 0 <= a < its.len() && 0 <= b < its.len() && a != b ==> (#[trigger] its[a]).1 != (#[trigger] its[b]).1
}
/// what the pool theorem says about item k, in the final state w
pub open spec fn placed_at(w: JitV, page: int, pos: int, it: (DataType, DestLabel)) -> bool {
    &&& pos % item_align(it.0) == 0
    &&& pos + item_bytes(it.0).len() <= w.pages[page].counter
    &&& w.lab(it.1).loc == Some((Page(page as usize), Pos(pos as usize)))
    &&& w.pages[page].mem.subrange(pos, pos + item_bytes(it.0).len()) == item_bytes(it.0)
    &&& (!(it.0 is AbsAddress) ==> clear(w, page, pos, pos + item_bytes(it.0).len()))
    &&& (it.0 matches DataType::AbsAddress(l) ==> exists|j: int| #[trigger] slotat(w.labels, l.0 as int, j) && w.labels[l.0 as int].target[j] == (TargetType::Abs { page: Page(page as usize), pos: Pos(pos as usize) }))
}
pub proof fn lemma_placed_grow(v: JitV, w: JitV, page: int, pos: int, it: (DataType, DestLabel))
    requires v.inv(), w.inv(), grow(v, w), slots_in(w), 0 <= page < 3, 0 <= pos, placed_at(v, page, pos, it), item_ok(it, v.labels.len() as int), w.lab(it.1).loc == v.lab(it.1).loc,
    ensures placed_at(w, page, pos, it),
{
    let n = item_bytes(it.0).len() as int;
    assert(v.pages[page].wf());
    assert(pgrow(v.pages[page], w.pages[page]));
    assert(w.pages[page].wf());
    assert(w.pages[page].mem.subrange(pos, pos + n) =~= v.pages[page].mem.subrange(pos, pos + n)) by {
        assert forall|i: int| 0 <= i < n implies #[trigger] w.pages[page].mem[pos + i] == v.pages[page].mem[pos + i] by { }
    }
    if !(it.0 is AbsAddress) {
        assert forall|i: int, j: int| #[trigger] slotat(w.labels, i, j) implies ({
            let t = w.labels[i].target[j];
            slot_page(t) != page || slot_pos(t) + slot_len(t) <= pos || pos + n <= slot_pos(t) }) by {
            if slotat(v.labels, i, j) { } else { assert(new_slot(v, w.labels[i].target[j])); }
        }
    }
    if let DataType::AbsAddress(l) = it.0 {
        let j = choose|j: int| #[trigger] slotat(v.labels, l.0 as int, j) && v.labels[l.0 as int].target[j] == (TargetType::Abs { page: Page(page as usize), pos: Pos(pos as usize) });
        assert(slotat(v.labels, l.0 as int, j));
        assert(w.labels[l.0 as int].target.len() >= v.labels[l.0 as int].target.len());
        assert(slotat(w.labels, l.0 as int, j));
    }
}
pub proof fn lemma_places(v: JitV, page: int, its: Seq<(DataType, DestLabel)>)
    requires v.inv(), slots_ok(v), 0 <= page < 3, items_ok(its, v.labels.len() as int), places_fit(v, page, its), labels_distinct(its),
    ensures
        sp_places(v, page, its).inv(),
        slots_ok(sp_places(v, page, its)),
        grow(v, sp_places(v, page, its)),
        forall|t: int| 0 <= t < 4 ==> #[trigger] items(sp_places(v, page, its), t) == items(v, t),
        forall|i: int| 0 <= i < v.labels.len() && (forall|a: int| 0 <= a < its.len() ==> (#[trigger] its[a]).1.0 != i) ==> (#[trigger] sp_places(v, page, its).labels[i]).loc == v.labels[i].loc,
        forall|a: int| 0 <= a < its.len() ==> v.pages[page].counter <= #[trigger] place_pos(v, page, its, a) && placed_at(sp_places(v, page, its), page, place_pos(v, page, its, a), its[a]),
        forall|a: int, b: int| 0 <= a < b < its.len() ==> #[trigger] place_pos(v, page, its, a) + item_bytes(its[a].0).len() <= #[trigger] place_pos(v, page, its, b),
    decreases its.len()
{
    if its.len() > 0 {
        let i2 = its.drop_last();
        let n = its.len() - 1;
        let it = its.last();
        assert forall|a: int| 0 <= a < i2.len() implies item_ok(#[trigger] i2[a], v.labels.len() as int) by { assert(item_ok(its[a], v.labels.len() as int)); }
        assert forall|a: int, b: int| 0 <= a < i2.len() && 0 <= b < i2.len() && a != b implies (#[trigger] i2[a]).1 != (#[trigger] i2[b]).1 by { assert(its[a].1 != its[b].1); }
        lemma_places(v, page, i2);
        let u = sp_places(v, page, i2);
        assert(item_ok(its[n], v.labels.len() as int));
        lemma_place(u, page, it);
        let w = sp_places(v, page, its);
        assert(w == sp_place(u, page, it));
        lemma_grow_trans(v, u, w);
        assert forall|t: int| 0 <= t < 4 implies #[trigger] items(w, t) == items(v, t) by { assert(items(u, t) == items(v, t)); }
        assert(its.take(n) =~= i2);
        assert(place_pos(v, page, its, n) == place_at(u, page, it.0));
        assert forall|a: int| 0 <= a < n implies #[trigger] place_pos(v, page, its, a) == place_pos(v, page, i2, a) by { assert(its.take(a) =~= i2.take(a)); assert(its[a] == i2[a]); }
        assert forall|i: int| 0 <= i < v.labels.len() && (forall|a: int| 0 <= a < its.len() ==> (#[trigger] its[a]).1.0 != i) implies (#[trigger] w.labels[i]).loc == v.labels[i].loc by {
            assert(its[n].1.0 != i);
            assert forall|a: int| 0 <= a < i2.len() implies (#[trigger] i2[a]).1.0 != i by { assert(its[a].1.0 != i); }
            assert(u.labels[i].loc == v.labels[i].loc);
        }
        assert forall|a: int| 0 <= a < its.len() implies v.pages[page].counter <= #[trigger] place_pos(v, page, its, a) && placed_at(w, page, place_pos(v, page, its, a), its[a]) by {
            if a < n {
                assert(i2[a] == its[a]);
                let pos = place_pos(v, page, i2, a);
                assert(placed_at(u, page, pos, i2[a]));
                assert(its[a].1 != its[n].1);
                assert(v.pages[page].wf());
                assert(item_ok(its[a], v.labels.len() as int));
                lemma_placed_grow(u, w, page, pos, its[a]);
            } else {
                if let DataType::AbsAddress(l) = it.0 {
                    let j = w.labels[l.0 as int].target.len() - 1;
                    assert(slotat(w.labels, l.0 as int, j));
                }
            }
        }
        assert forall|a: int, b: int| 0 <= a < b < its.len() implies #[trigger] place_pos(v, page, its, a) + item_bytes(its[a].0).len() <= #[trigger] place_pos(v, page, its, b) by {
            assert(i2[a] == its[a]);
            assert(placed_at(u, page, place_pos(v, page, i2, a), i2[a]));
            if b < n { assert(place_pos(v, page, i2, a) + item_bytes(i2[a].0).len() <= place_pos(v, page, i2, b)); }
        }
    } else {
        assert(slots_ok(v));
        lemma_grow_refl(v);
    }
}

// -- the four pools, in the order finalize() places them

pub open spec fn pg(s: int) -> int { if s < 2 { s } else { 2 } }
pub open spec fn clr(v: JitV, s: int) -> JitV { if s < 2 { clear_consts(v, s) } else { clear_data(v, s - 2) } }
pub open spec fn stage(v: JitV, s: int) -> JitV { sp_places(clr(v, s), pg(s), items(v, s)) }
pub open spec fn stages(v: JitV, n: int) -> JitV
    decreases n
{
    if n <= 0 { v } else { stage(stages(v, n - 1), n - 1) }
}
pub open spec fn stages_fit(v: JitV, n: int) -> bool
    decreases n
{
    if n <= 0 { true } else { stages_fit(v, n - 1) && places_fit(clr(stages(v, n - 1), n - 1), pg(n - 1), items(stages(v, n - 1), n - 1)) }
}
pub proof fn lemma_stages_eq(v: JitV)
    ensures
        sp_data(sp_consts(v, 2), 2) == stages(v, 4),
        (consts_fit(v, 2) && data_fit(sp_consts(v, 2), 2)) == stages_fit(v, 4),
{
    reveal_with_fuel(sp_consts, 3); reveal_with_fuel(sp_data, 3); reveal_with_fuel(consts_fit, 3); reveal_with_fuel(data_fit, 3);
    reveal_with_fuel(stages, 5); reveal_with_fuel(stages_fit, 5);
}
pub proof fn lemma_clr(v: JitV, s: int)
    requires v.inv(), slots_ok(v), pool_ok(v), 0 <= s < 4,
    ensures
        clr(v, s).inv(), slots_ok(clr(v, s)), grow(v, clr(v, s)), clr(v, s).labels == v.labels,
        forall|t: int| 0 <= t < 4 ==> #[trigger] items(clr(v, s), t) == (if t == s { Seq::empty() } else { items(v, t) }),
        labels_distinct(items(v, s)),
        items_ok(items(v, s), v.labels.len() as int),
        clr(v, s).pages[pg(s)].counter == v.pages[pg(s)].counter,
{
    let o = if s < 2 { s } else { s - 2 };
    assert(v.pages[o].wf());
    lemma_j_upd_inv(v, o, clr(v, s).pages[o]);
    let w = clr(v, s);
    assert forall|q: int| 0 <= q < 3 implies pgrow(v.pages[q], #[trigger] w.pages[q]) by { }
    assert(items_ok(v.pages[o].constants, v.labels.len() as int) && items_ok(v.pages[o].data, v.labels.len() as int));
    let its = items(v, s);
    assert forall|a: int, b: int| 0 <= a < its.len() && 0 <= b < its.len() && a != b implies (#[trigger] its[a]).1 != (#[trigger] its[b]).1 by {
        assert(hasitem(v, s, a)); assert(hasitem(v, s, b));
    }
    assert(slots_in(w)) by {
        assert forall|i: int, j: int| #[trigger] slotat(w.labels, i, j) implies ({
            let t = w.labels[i].target[j];
            target_ok(t) && slot_pos(t) + slot_len(t) <= w.pages[slot_page(t)].counter }) by { assert(slotat(v.labels, i, j)); }
    }
}
pub open spec fn item_pos(v: JitV, s: int, a: int) -> int { place_pos(clr(stages(v, s), s), pg(s), items(v, s), a) }
pub open spec fn item_len(v: JitV, s: int, a: int) -> int { item_bytes(items(v, s)[a].0).len() as int }
pub open spec fn apart(v: JitV, s: int, a: int, t: int, b: int) -> bool {
    item_pos(v, s, a) + item_len(v, s, a) <= item_pos(v, t, b) || item_pos(v, t, b) + item_len(v, t, b) <= item_pos(v, s, a)
}
/// label i is not the label of an item of the first n pools
pub open spec fn not_pool(v: JitV, n: int, i: int) -> bool {
    forall|s: int, a: int| #[trigger] hasitem(v, s, a) && s < n ==> items(v, s)[a].1.0 != i
}
pub proof fn lemma_stages(v: JitV, n: int)
    requires v.inv(), slots_ok(v), pool_ok(v), stages_fit(v, n), 0 <= n <= 4,
    ensures
        stages(v, n).inv(), slots_ok(stages(v, n)), pool_ok(stages(v, n)), grow(v, stages(v, n)),
        forall|t: int| 0 <= t < 4 ==> #[trigger] items(stages(v, n), t) == (if t < n { Seq::empty() } else { items(v, t) }),
        forall|i: int| 0 <= i < v.labels.len() && #[trigger] not_pool(v, n, i) ==> stages(v, n).labels[i].loc == v.labels[i].loc,
        forall|s: int, a: int| #[trigger] hasitem(v, s, a) && s < n ==> v.pages[pg(s)].counter <= item_pos(v, s, a) && placed_at(stages(v, n), pg(s), item_pos(v, s, a), items(v, s)[a]),
        forall|s: int, a: int, t: int, b: int| #[trigger] hasitem(v, s, a) && #[trigger] hasitem(v, t, b) && s < n && t < n && !(s == t && a == b) && pg(s) == pg(t) ==> apart(v, s, a, t, b),
    decreases n
{
    if n == 0 { lemma_grow_refl(v); } else {
        let m = n - 1;
        lemma_stages(v, m);
        let u = stages(v, m);
        let w = stages(v, n);
        lemma_clr(u, m);
        let c = clr(u, m);
        assert(items(u, m) == items(v, m));
        let its = items(v, m);
        lemma_places(c, pg(m), its);
        lemma_grow_trans(u, c, w);
        lemma_grow_trans(v, u, w);
        assert forall|t: int| 0 <= t < 4 implies #[trigger] items(w, t) == (if t < n { Seq::empty() } else { items(v, t) }) by {
            assert(items(c, t) == (if t == m { Seq::empty() } else { items(u, t) }));
            assert(items(u, t) == (if t < m { Seq::empty() } else { items(v, t) }));
        }
        assert forall|s: int, a: int, t: int, b: int| #[trigger] hasitem(w, s, a) && #[trigger] hasitem(w, t, b) && !(s == t && a == b) implies items(w, s)[a].1 != items(w, t)[b].1 by {
            assert(hasitem(v, s, a)); assert(hasitem(v, t, b));
        }
        assert forall|i: int| 0 <= i < v.labels.len() && #[trigger] not_pool(v, n, i) implies w.labels[i].loc == v.labels[i].loc by {
            assert(not_pool(v, m, i)) by {
                assert forall|s: int, a: int| #[trigger] hasitem(v, s, a) && s < m implies items(v, s)[a].1.0 != i by { }
            }
            assert forall|a: int| 0 <= a < its.len() implies (#[trigger] its[a]).1.0 != i by { assert(hasitem(v, m, a)); }
        }
        assert forall|s: int, a: int| #[trigger] hasitem(v, s, a) && s < n implies v.pages[pg(s)].counter <= item_pos(v, s, a) && placed_at(w, pg(s), item_pos(v, s, a), items(v, s)[a]) by {
            if s < m {
                let it = items(v, s)[a];
                assert(placed_at(u, pg(s), item_pos(v, s, a), it));
                assert(items_ok(items(v, s), v.labels.len() as int)) by { assert(v.pages[0].wf() && v.pages[1].wf()); }
                assert(item_ok(it, v.labels.len() as int));
                assert forall|b: int| 0 <= b < its.len() implies (#[trigger] its[b]).1.0 != it.1.0 by { assert(hasitem(v, m, b)); assert(items(v, s)[a].1 != items(v, m)[b].1); }
                assert(w.labels[it.1.0 as int].loc == c.labels[it.1.0 as int].loc);
                assert(v.pages[pg(s)].wf());
                lemma_placed_grow(u, w, pg(s), item_pos(v, s, a), it);
            } else {
                assert(item_pos(v, s, a) == place_pos(c, pg(m), its, a));
                assert(pgrow(v.pages[pg(m)], u.pages[pg(m)]));
            }
        }
        assert forall|s: int, a: int, t: int, b: int| #[trigger] hasitem(v, s, a) && #[trigger] hasitem(v, t, b) && s < n && t < n && !(s == t && a == b) && pg(s) == pg(t) implies apart(v, s, a, t, b) by {
            if s < m && t < m { }
            else if s == m && t == m {
                if a < b { assert(place_pos(c, pg(m), its, a) + item_bytes(its[a].0).len() <= place_pos(c, pg(m), its, b)); }
                else { assert(place_pos(c, pg(m), its, b) + item_bytes(its[b].0).len() <= place_pos(c, pg(m), its, a)); }
            }
            else if s < m { assert(placed_at(u, pg(s), item_pos(v, s, a), items(v, s)[a])); assert(c.pages[pg(m)].counter <= place_pos(c, pg(m), its, b)); }
            else { assert(placed_at(u, pg(t), item_pos(v, t, b), items(v, t)[b])); assert(c.pages[pg(m)].counter <= place_pos(c, pg(m), its, a)); }
        }
    }
}

// -- the invariant is established and preserved

pub proof fn lemma_good_new(v: JitV)
    requires
        v.inv(), v.labels.len() == 0,
        forall|i: int| 0 <= i < 3 ==> (#[trigger] v.pages[i]).counter == 0 && v.pages[i].code_len == 0 && v.pages[i].top == 0
            && v.pages[i].blocks.len() == 0 && v.pages[i].constants.len() == 0 && v.pages[i].data.len() == 0,
    ensures good(v),
{ }
/// one region changes its bytes or moves its position forward
pub proof fn lemma_good_upd(v: JitV, i: int, p: PageV)
    requires
        good(v), 0 <= i < 3, p.wf(), v.pages[i].counter <= p.counter,
        p == (PageV { counter: p.counter, mem: p.mem, ..v.pages[i] }),
    ensures good(j_upd(v, i, p)),
{
    lemma_j_upd_inv(v, i, p);
    let w = j_upd(v, i, p);
    assert(slots_in(w)) by {
        assert forall|a: int, b: int| #[trigger] slotat(w.labels, a, b) implies ({
            let t = w.labels[a].target[b];
            target_ok(t) && slot_pos(t) + slot_len(t) <= w.pages[slot_page(t)].counter }) by { assert(slotat(v.labels, a, b)); }
    }
    lemma_items_same(v, w);
    assert forall|q: int| 0 <= q < 3 implies blocks_ok(#[trigger] w.pages[q]) by { assert(blocks_ok(v.pages[q])); }
}
pub proof fn lemma_items_same(v: JitV, w: JitV)
    requires pool_ok(v), w.pages.len() == 3, forall|q: int| 0 <= q < 3 ==> (#[trigger] w.pages[q]).constants == v.pages[q].constants && w.pages[q].data == v.pages[q].data,
    ensures pool_ok(w), forall|s: int| 0 <= s < 4 ==> #[trigger] items(w, s) == items(v, s),
{
    assert(w.pages[0].constants == v.pages[0].constants && w.pages[1].constants == v.pages[1].constants && w.pages[0].data == v.pages[0].data && w.pages[1].data == v.pages[1].data);
    assert forall|s: int, a: int, t: int, b: int| #[trigger] hasitem(w, s, a) && #[trigger] hasitem(w, t, b) && !(s == t && a == b) implies items(w, s)[a].1 != items(w, t)[b].1 by {
        assert(hasitem(v, s, a)); assert(hasitem(v, t, b));
    }
}
pub open spec fn rel_ok(v: JitV, b: Seq<u8>, rel: Option<(DestLabel, int, int)>) -> bool {
    rel matches Some((l, at, off)) ==> v.haslab(l) && 0 <= at && at + 4 <= b.len()
}
pub proof fn lemma_good_app(v: JitV, b: Seq<u8>, rel: Option<(DestLabel, int, int)>)
    requires good(v), v.room(b.len() as int), rel_ok(v, b, rel),
    ensures good(j_app(v, b, rel)),
{
    assert(v.cur().wf());
    match rel {
        None => { lemma_good_upd(v, v.page, p_emit(v.cur(), b)); }
        Some((l, at, off)) => {
            // emit first, then the reference: the same state
            let e = j_emit(v, b);
            lemma_good_upd(v, v.page, p_emit(v.cur(), b));
            let t = TargetType::Rel { page: Page(v.page as usize), offset: off as u8, pos: Pos((v.cur().counter + at) as usize) };
            let w = j_target(e, l, t);
            assert(w =~~= j_app(v, b, rel));
            assert(e.lab(l).wf());
            lemma_lupd_inv(e, l, LabelV { target: e.lab(l).target.push(t), ..e.lab(l) });
            lemma_items_same(v, w);
            assert forall|i: int, j: int| #[trigger] slotat(w.labels, i, j) implies slotat(v.labels, i, j) && w.labels[i].target[j] == v.labels[i].target[j] || (i == l.0 && j == v.labels[i].target.len() && w.labels[i].target[j] == t) by { }
            assert forall|i: int, j: int| #[trigger] slotat(w.labels, i, j) implies ({
                let t = w.labels[i].target[j];
                target_ok(t) && slot_pos(t) + slot_len(t) <= w.pages[slot_page(t)].counter }) by {
                if slotat(v.labels, i, j) { let t = v.labels[i].target[j]; assert(w.pages[slot_page(t)].counter >= v.pages[slot_page(t)].counter); }
            }
            assert forall|i: int, j: int, a: int, c: int| #[trigger] slotat(w.labels, i, j) && #[trigger] slotat(w.labels, a, c) && !(i == a && j == c) implies sdisj(w.labels[i].target[j], w.labels[a].target[c]) by {
                if slotat(v.labels, i, j) && slotat(v.labels, a, c) { }
                else if slotat(v.labels, i, j) { let u = v.labels[i].target[j]; assert(slot_pos(u) + slot_len(u) <= v.pages[slot_page(u)].counter); }
                else { assert(slotat(v.labels, a, c)); let u = v.labels[a].target[c]; assert(slot_pos(u) + slot_len(u) <= v.pages[slot_page(u)].counter); }
            }
            assert forall|q: int| 0 <= q < 3 implies blocks_ok(#[trigger] w.pages[q]) by { assert(blocks_ok(e.pages[q])); }
        }
    }
}
/// every ModRM instruction is such a step
pub proof fn lemma_enc_rel_ok(k: Rex, op: Seq<u8>, mm: ModRM, rm: Rm, imm: Imm)
    ensures
        enc_rel(k, op, mm, rm, imm) matches Some((l, at, off)) ==> 0 <= at && at + 4 <= enc_bytes(k, op, mm, rm, imm).len() && mode_disp(rm.mode) == Disp::Label(l),
{
    hide(enc_head); hide(imm_bytes);
    reveal(enc_bytes); reveal(enc_rel);
    if let Disp::Label(l) = enc_disp(rm) {
        assert(disp_bytes(enc_disp(rm)).len() == 4);
        assert(mode_disp(rm.mode) == Disp::Label(l));
    }
}
pub proof fn lemma_good_asm(v: JitV, k: Rex, op: Seq<u8>, mm: ModRM, rm: Rm, imm: Imm)
    requires good(v), rm_haslab(v, rm), v.room(enc_bytes(k, op, mm, rm, imm).len() as int),
    ensures good(asm(v, k, op, mm, rm, imm)),
{
    hide(good);
    lemma_enc_rel_ok(k, op, mm, rm, imm);
    lemma_good_app(v, enc_bytes(k, op, mm, rm, imm), enc_rel(k, op, mm, rm, imm));
}
pub proof fn lemma_good_align(v: JitV, n: int)
    requires good(v), n == 4 || n == 8 || n == 16 || n == 4096,
    ensures good(j_palign(v, v.page, n)),
{
    assert(v.cur().wf());
    lemma_align_int(v.cur().counter, n);
    lemma_good_upd(v, v.page, p_align(v.cur(), n));
}
pub proof fn lemma_good_label(v: JitV)
    requires good(v),
    ensures good(j_newlabel(v)),
{
    let w = j_newlabel(v);
    assert(labels_ok(w.labels)) by { assert forall|i: int| 0 <= i < w.labels.len() implies (#[trigger] w.labels[i]).wf() by { if i < v.labels.len() { assert(v.labels[i].wf()); } } }
    assert forall|i: int| 0 <= i < 3 implies items_ok((#[trigger] w.pages[i]).constants, w.labels.len() as int) && items_ok(w.pages[i].data, w.labels.len() as int) by {
        let p = v.pages[i];
        assert(items_ok(p.constants, v.labels.len() as int) && items_ok(p.data, v.labels.len() as int));
        assert forall|a: int| 0 <= a < p.constants.len() implies item_ok(#[trigger] p.constants[a], w.labels.len() as int) by { assert(item_ok(p.constants[a], v.labels.len() as int)); }
        assert forall|a: int| 0 <= a < p.data.len() implies item_ok(#[trigger] p.data[a], w.labels.len() as int) by { assert(item_ok(p.data[a], v.labels.len() as int)); }
    }
    assert forall|i: int, j: int| #[trigger] slotat(w.labels, i, j) implies slotat(v.labels, i, j) && w.labels[i] == v.labels[i] by { }
    lemma_items_same(v, w);
}
pub proof fn lemma_good_bind(v: JitV, l: DestLabel)
    requires good(v), v.haslab(l),
    ensures good(j_bind(v, Page(v.page as usize), l)),
{
    let w = j_bind(v, Page(v.page as usize), l);
    assert(v.cur().wf()); assert(v.lab(l).wf());
    lemma_lupd_inv(v, l, w.lab(l));
    assert forall|i: int, j: int| #[trigger] slotat(w.labels, i, j) implies slotat(v.labels, i, j) && w.labels[i].target == v.labels[i].target by { }
    lemma_items_same(v, w);
}
pub open spec fn d_ok(v: JitV, d: DataType) -> bool { d matches DataType::AbsAddress(l) ==> v.haslab(l) }
pub proof fn lemma_good_item(v: JitV, d: DataType)
    requires good(v), d_ok(v, d), v.labels.len() <= usize::MAX,
    ensures good(j_const(v, d)), good(j_data(v, d)),
{
    lemma_good_label(v);
    let u = j_newlabel(v);
    let n = v.labels.len();
    let it = (d, DestLabel(n as usize));
    let p = u.cur();
    assert(p.wf());
    let x = j_const(v, d);
    let y = j_data(v, d);
    assert(items_ok(p.constants.push(it), u.labels.len() as int)) by {
        assert forall|a: int| 0 <= a < p.constants.push(it).len() implies item_ok(#[trigger] p.constants.push(it)[a], u.labels.len() as int) by { if a < p.constants.len() { assert(item_ok(p.constants[a], u.labels.len() as int)); } }
    }
    assert(items_ok(p.data.push(it), u.labels.len() as int)) by {
        assert forall|a: int| 0 <= a < p.data.push(it).len() implies item_ok(#[trigger] p.data.push(it)[a], u.labels.len() as int) by { if a < p.data.len() { assert(item_ok(p.data[a], u.labels.len() as int)); } }
    }
    lemma_j_upd_inv(u, v.page, x.pages[v.page]);
    lemma_j_upd_inv(u, v.page, y.pages[v.page]);
    lemma_item_pool(v, x, v.page, it);
    lemma_item_pool(v, y, v.page + 2, it);
    assert forall|i: int, j: int| #[trigger] slotat(u.labels, i, j) implies slotat(v.labels, i, j) && u.labels[i] == v.labels[i] by { }
    assert forall|q: int| 0 <= q < 3 implies blocks_ok(#[trigger] x.pages[q]) by { assert(blocks_ok(v.pages[q])); }
    assert forall|q: int| 0 <= q < 3 implies blocks_ok(#[trigger] y.pages[q]) by { assert(blocks_ok(v.pages[q])); }
}
pub proof fn lemma_item_pool(v: JitV, w: JitV, s: int, it: (DataType, DestLabel))
    requires
        v.inv(), pool_ok(v), 0 <= s < 4, it.1.0 == v.labels.len(),
        forall|t: int| 0 <= t < 4 ==> #[trigger] items(w, t) == (if t == s { items(v, t).push(it) } else { items(v, t) }),
    ensures pool_ok(w),
{
    assert forall|t: int, b: int| #[trigger] hasitem(v, t, b) implies items(v, t)[b].1.0 < v.labels.len() by {
        let n = v.labels.len() as int;
        assert(items_ok(v.pages[0].constants, n) && items_ok(v.pages[1].constants, n) && items_ok(v.pages[0].data, n) && items_ok(v.pages[1].data, n));
        assert(item_ok(items(v, t)[b], n));
    }
    assert forall|t: int, a: int, u: int, b: int| #[trigger] hasitem(w, t, a) && #[trigger] hasitem(w, u, b) && !(t == u && a == b) implies items(w, t)[a].1 != items(w, u)[b].1 by {
        assert(items(w, t) == (if t == s { items(v, t).push(it) } else { items(v, t) }));
        assert(items(w, u) == (if u == s { items(v, u).push(it) } else { items(v, u) }));
        if hasitem(v, t, a) && hasitem(v, u, b) { }
    }
}
pub proof fn lemma_good_select(v: JitV, p: int)
    requires good(v), 0 <= p < 2,
    ensures good(JitV { page: p, ..v }),
{
    let w = JitV { page: p, ..v };
    assert(w.inv());
    lemma_items_same(v, w);
    assert(slots_in(w)) by {
        assert forall|i: int, j: int| #[trigger] slotat(w.labels, i, j) implies ({
            let t = w.labels[i].target[j];
            target_ok(t) && slot_pos(t) + slot_len(t) <= w.pages[slot_page(t)].counter }) by { assert(slotat(v.labels, i, j)); }
    }
}
pub proof fn lemma_good_patch(v: JitV, q: int, p: int, l: DestLabel)
    requires good(v), in_page(v, q, p, 5),
    ensures
        good(j_patch(v, p, l)),
        // exactly the four displacement bytes change
        j_patch(v, p, l).labels == v.labels,
        forall|a: int, k: int| 0 <= a < 3 && 0 <= k < PS() && !(a == q && p + 1 <= v.pages[q].base + k < p + 5) ==> (#[trigger] j_patch(v, p, l).pages[a].mem[k]) == v.pages[a].mem[k],
        j_patch(v, p, l).pages[q].mem.subrange(p + 1 - v.pages[q].base, p + 5 - v.pages[q].base) == le32((v.addr(l) - (p + 5)) as i32 as u32),
{
    let b = le32((v.addr(l) - (p + 5)) as i32 as u32);
    assert(v.pages[0].wf() && v.pages[1].wf() && v.pages[2].wf());
    assert(b.len() == 4);
    assert(j_patch(v, p, l) == j_upd(v, q, p_write(v.pages[q], p + 1 - v.pages[q].base, b)));
    lemma_good_upd(v, q, p_write(v.pages[q], p + 1 - v.pages[q].base, b));
    let w = j_patch(v, p, l);
    assert(w.pages[q].mem.subrange(p + 1 - v.pages[q].base, p + 5 - v.pages[q].base) =~= b);
}

// -- finalize

pub open spec fn item_done(v: JitV, w: JitV, s: int, a: int) -> bool {
    let it = items(v, s)[a];
    let pos = item_pos(j_close(v), s, a);
    &&& v.pages[pg(s)].counter <= pos
    &&& pos % item_align(it.0) == 0
    &&& pos + item_bytes(it.0).len() <= w.pages[pg(s)].counter
    &&& w.lab(it.1).loc == Some((Page(pg(s) as usize), Pos(pos as usize)))
    &&& w.pages[pg(s)].mem.subrange(pos, pos + item_bytes(it.0).len()) == (match it.0 {
            DataType::AbsAddress(l) => if w.lab(l).loc is Some { le64(w.addr(l) as u64) } else { le64(0) },
            d => item_bytes(d),
        })
}
pub open spec fn items_apart(v: JitV, s: int, a: int, t: int, b: int) -> bool { pg(s) == pg(t) && !(s == t && a == b) ==> apart(j_close(v), s, a, t, b) }
/// a slot recorded before the call whose label has a position after it
pub open spec fn resolved(v: JitV, w: JitV, i: int, j: int) -> bool { slotat(v.labels, i, j) && w.labels[i].loc is Some }
pub open spec fn wpage(v: PageV, u: PageV, r: PageV, w: PageV) -> bool {
    &&& w.base == v.base && u.base == v.base
    &&& w.blocks == v.blocks.push((Pos(v.top as usize), Pos(v.counter as usize), Pos(w.counter as usize)))
    &&& w.code_len == v.counter && w.top == w.counter && w.counter >= v.counter && w.counter == u.counter
    &&& w.mem == r.mem && w.constants == u.constants && w.data == u.data
    &&& forall|k: int| 0 <= k < v.counter ==> #[trigger] u.mem[k] == v.mem[k]
}
/// the parts of finalize(), and how the final state is put together
pub open spec fn fin_facts(v: JitV) -> bool {
    let c = j_close(v); let u = sp_placed(v); let e = j_end(u); let w = sp_finalize(v);
    let r = rl_labels(e.pages, e.labels);
    &&& c.inv() && u.inv() && e.inv() && w.inv()
    &&& slots_ok(c) && slots_ok(u)
    &&& grow(c, u)
    &&& relocs_fit(e.labels)
    &&& e.labels == u.labels && c.labels == v.labels
    &&& forall|p: int| 0 <= p < 3 ==> (#[trigger] e.pages[p]).mem == u.pages[p].mem && e.pages[p].base == v.pages[p].base
    &&& w.labels.len() == v.labels.len() && u.labels.len() == v.labels.len()
    &&& forall|i: int| 0 <= i < v.labels.len() ==> (#[trigger] w.labels[i]) == done_label(u.labels[i])
    &&& forall|p: int| 0 <= p < 3 ==> wpage(v.pages[p], u.pages[p], r[p], #[trigger] w.pages[p])
    &&& r.len() == 3 && w.page == v.page
    &&& forall|p: int| 0 <= p < 3 ==> (#[trigger] c.pages[p]).counter == v.pages[p].counter
    &&& forall|s: int| 0 <= s < 4 ==> #[trigger] items(c, s) == items(v, s)
}
pub proof fn lemma_fin_facts(v: JitV)
    requires good(v), consts_fit(j_close(v), 2), data_fit(sp_consts(j_close(v), 2), 2),
    ensures fin_facts(v), finalize_fits(v), stages_fit(j_close(v), 4), sp_placed(v) == stages(j_close(v), 4), pool_ok(j_close(v)),
{
    let c = j_close(v);
    lemma_close_inv(v);
    lemma_items_same(v, c);
    assert(slots_in(c)) by {
        assert forall|i: int, j: int| #[trigger] slotat(c.labels, i, j) implies ({
            let t = c.labels[i].target[j];
            target_ok(t) && slot_pos(t) + slot_len(t) <= c.pages[slot_page(t)].counter }) by { assert(slotat(v.labels, i, j)); }
    }
    lemma_stages_eq(c);
    lemma_stages(c, 4);
    let u = sp_placed(v);
    let e = j_end(u);
    lemma_placed_blocks(v);
    lemma_end_inv(u);
    assert forall|i: int| 0 <= i < e.labels.len() implies label_fits(#[trigger] e.labels[i]) by {
        assert forall|j: int| 0 <= j < e.labels[i].target.len() implies slot_fits(#[trigger] e.labels[i].target[j]) by {
            assert(slotat(u.labels, i, j));
            let t = u.labels[i].target[j];
            assert(u.pages[slot_page(t)].wf());
        }
    }
    lemma_relocs_inv(e);
    let r = sp_relocs(e);
    lemma_top_inv(r);
    let w = sp_finalize(v);
    assert(w == j_top(r));
    assert forall|p: int| 0 <= p < 3 implies (#[trigger] e.pages[p]).mem == u.pages[p].mem && e.pages[p].base == v.pages[p].base by { assert(pgrow(c.pages[p], u.pages[p])); }
    assert forall|p: int| 0 <= p < 3 implies wpage(v.pages[p], u.pages[p], r.pages[p], #[trigger] w.pages[p]) by {
        let x = v.pages[p]; let cp = c.pages[p]; let up = u.pages[p]; let ep = e.pages[p]; let rp = r.pages[p]; let wp = w.pages[p];
        assert(page_same(rp, ep));
        assert(pgrow(cp, up));
        assert(cp == p_close(x)); assert(ep == p_end(up)); assert(wp == p_top(rp));
        assert(cp.blocks == up.blocks);
        let b0 = (Pos(x.top as usize), Pos(x.counter as usize), Pos(0));
        assert(up.blocks == x.blocks.push(b0));
        assert(up.blocks.last() == b0);
        assert(wp.blocks =~= x.blocks.push((Pos(x.top as usize), Pos(x.counter as usize), Pos(wp.counter as usize))));
        assert forall|k: int| 0 <= k < x.counter implies #[trigger] up.mem[k] == x.mem[k] by { assert(k < cp.counter); }
        assert(wp.top == wp.counter);
        assert(wp.code_len == x.counter);
    }
}
pub proof fn lemma_fin_good(v: JitV)
    requires good(v), fin_facts(v), forall|s: int| 0 <= s < 4 ==> (#[trigger] items(sp_placed(v), s)).len() == 0,
    ensures good(sp_finalize(v)), forall|s: int| 0 <= s < 4 ==> (#[trigger] items(sp_finalize(v), s)).len() == 0,
{
    hide(sp_placed); hide(sp_finalize); hide(rl_labels);
    let u = sp_placed(v); let w = sp_finalize(v);
    assert(w.pages[0].base == v.pages[0].base && w.pages[1].base == v.pages[1].base && w.pages[2].base == v.pages[2].base);
    assert forall|s: int| 0 <= s < 4 implies (#[trigger] items(w, s)) == items(u, s) by { }
    assert forall|s: int| 0 <= s < 4 implies (#[trigger] items(w, s)).len() == 0 by { assert(items(w, s) == items(u, s)); }
    assert(pool_ok(w));
    assert forall|i: int, j: int| #[trigger] slotat(w.labels, i, j) implies slotat(u.labels, i, j) && w.labels[i] == u.labels[i] by { assert(w.labels[i] == done_label(u.labels[i])); }
    assert(slots_in(w)) by {
        assert forall|i: int, j: int| #[trigger] slotat(w.labels, i, j) implies ({
            let t = w.labels[i].target[j];
            target_ok(t) && slot_pos(t) + slot_len(t) <= w.pages[slot_page(t)].counter }) by { assert(slotat(u.labels, i, j)); let t = u.labels[i].target[j]; assert(w.pages[slot_page(t)].counter == u.pages[slot_page(t)].counter); }
    }
    assert(slots_disj(w.labels)) by {
        assert forall|i: int, j: int, a: int, b: int| #[trigger] slotat(w.labels, i, j) && #[trigger] slotat(w.labels, a, b) && !(i == a && j == b) implies sdisj(w.labels[i].target[j], w.labels[a].target[b]) by {
            assert(slotat(u.labels, i, j)); assert(slotat(u.labels, a, b));
        }
    }
    assert forall|p: int| 0 <= p < 3 implies blocks_ok(#[trigger] w.pages[p]) by {
        assert(blocks_ok(v.pages[p])); assert(v.pages[p].wf()); assert(u.pages[p].wf());
        assert(w.pages[p].base == v.pages[p].base);
    }
}
pub proof fn lemma_fin_slots(v: JitV)
    requires good(v), fin_facts(v),
    ensures
        forall|i: int, j: int| #[trigger] bound_slot(sp_placed(v).labels, i, j) ==> holds(sp_finalize(v).pages, loc_addr(v.pages, sp_finalize(v).labels[i].loc->Some_0), sp_placed(v).labels[i].target[j]),
        forall|i: int, j: int| #[trigger] resolved(v, sp_finalize(v), i, j) ==> holds(sp_finalize(v).pages, loc_addr(v.pages, sp_finalize(v).labels[i].loc->Some_0), v.labels[i].target[j]),
        forall|i: int, j: int| #[trigger] slotat(v.labels, i, j) && sp_finalize(v).labels[i].loc is None ==> slotat(sp_finalize(v).labels, i, j) && sp_finalize(v).labels[i].target[j] == v.labels[i].target[j],
{
    hide(sp_placed); hide(sp_finalize); hide(rl_labels); hide(j_close); hide(j_end);
    let c = j_close(v); let u = sp_placed(v); let e = j_end(u); let w = sp_finalize(v);
    lemma_rl(e.pages, e.labels);
    let r = rl_labels(e.pages, e.labels);
    assert forall|i: int, j: int| #[trigger] bound_slot(u.labels, i, j) implies holds(w.pages, loc_addr(v.pages, w.labels[i].loc->Some_0), u.labels[i].target[j]) by {
        let t = u.labels[i].target[j];
        assert(slotat(u.labels, i, j));
        assert(u.labels[i].wf());
        assert(bound_slot(e.labels, i, j));
        let l = u.labels[i].loc->Some_0;
        assert(w.labels[i] == done_label(u.labels[i]));
        assert(loc_addr(e.pages, l) == loc_addr(v.pages, l)) by { assert(e.pages[l.0.0 as int].base == v.pages[l.0.0 as int].base); }
        assert(holds(r, loc_addr(e.pages, l), t));
        assert(wpage(v.pages[slot_page(t)], u.pages[slot_page(t)], r[slot_page(t)], w.pages[slot_page(t)]));
        assert(page_same(r[slot_page(t)], e.pages[slot_page(t)]));
        assert(slot_bytes(w.pages, loc_addr(v.pages, l), t) == slot_bytes(r, loc_addr(v.pages, l), t));
    }
    assert forall|i: int, j: int| #[trigger] resolved(v, w, i, j) implies holds(w.pages, loc_addr(v.pages, w.labels[i].loc->Some_0), v.labels[i].target[j]) by {
        assert(slotat(c.labels, i, j));
        assert(u.labels[i].target.len() >= c.labels[i].target.len());
        assert(w.labels[i] == done_label(u.labels[i]));
        assert(bound_slot(u.labels, i, j));
    }
    assert forall|i: int, j: int| #[trigger] slotat(v.labels, i, j) && w.labels[i].loc is None implies slotat(w.labels, i, j) && w.labels[i].target[j] == v.labels[i].target[j] by {
        assert(slotat(c.labels, i, j));
        assert(u.labels[i].target.len() >= c.labels[i].target.len());
        assert(w.labels[i] == done_label(u.labels[i]));
    }
}
pub proof fn lemma_fin_bytes(v: JitV)
    requires good(v), fin_facts(v),
    ensures
        forall|p: int, k: int| 0 <= p < 3 && 0 <= k < v.pages[p].counter && (forall|i: int, j: int| #[trigger] resolved(v, sp_finalize(v), i, j) ==> !inslot(v.labels[i].target[j], p, k)) ==> (#[trigger] sp_finalize(v).pages[p].mem[k]) == v.pages[p].mem[k],
        // bytes outside all resolved slots are as placed
        forall|p: int, k: int| 0 <= p < 3 && 0 <= k < PS() && (forall|i: int, j: int| #[trigger] bound_slot(sp_placed(v).labels, i, j) ==> !inslot(sp_placed(v).labels[i].target[j], p, k)) ==> (#[trigger] sp_finalize(v).pages[p].mem[k]) == sp_placed(v).pages[p].mem[k],
{
    hide(sp_placed); hide(sp_finalize); hide(rl_labels); hide(j_close); hide(j_end);
    let c = j_close(v); let u = sp_placed(v); let e = j_end(u); let w = sp_finalize(v);
    lemma_rl(e.pages, e.labels);
    let r = rl_labels(e.pages, e.labels);
    assert forall|p: int, k: int| 0 <= p < 3 && 0 <= k < PS() && (forall|i: int, j: int| #[trigger] bound_slot(u.labels, i, j) ==> !inslot(u.labels[i].target[j], p, k)) implies (#[trigger] w.pages[p].mem[k]) == u.pages[p].mem[k] by {
        assert forall|i: int, j: int| #[trigger] bound_slot(e.labels, i, j) implies !inslot(e.labels[i].target[j], p, k) by { assert(bound_slot(u.labels, i, j)); }
        assert(r[p].mem[k] == e.pages[p].mem[k]);
        assert(wpage(v.pages[p], u.pages[p], r[p], w.pages[p]));
    }
    assert forall|p: int, k: int| 0 <= p < 3 && 0 <= k < v.pages[p].counter && (forall|i: int, j: int| #[trigger] resolved(v, w, i, j) ==> !inslot(v.labels[i].target[j], p, k)) implies (#[trigger] w.pages[p].mem[k]) == v.pages[p].mem[k] by {
        assert(v.pages[p].wf());
        assert forall|i: int, j: int| #[trigger] bound_slot(u.labels, i, j) implies !inslot(u.labels[i].target[j], p, k) by {
            assert(slotat(u.labels, i, j));
            let t = u.labels[i].target[j];
            assert(w.labels[i] == done_label(u.labels[i]));
            if slotat(c.labels, i, j) { assert(slotat(v.labels, i, j)); assert(resolved(v, w, i, j)); } else { assert(new_slot(c, t)); assert(target_ok(t)); assert(c.pages[slot_page(t)].counter == v.pages[slot_page(t)].counter); }
        }
        assert(w.pages[p].mem[k] == u.pages[p].mem[k]);
        assert(wpage(v.pages[p], u.pages[p], r[p], w.pages[p]));
    }
}
/// an item at pos survives relocation: its bytes are its own, or the address of its label
pub proof fn lemma_item_kept(v: JitV, u: JitV, w: JitV, p: int, pos: int, it: (DataType, DestLabel))
    requires
        u.inv(), w.inv(), slots_ok(u), 0 <= p < 3, 0 <= pos, item_ok(it, u.labels.len() as int), placed_at(u, p, pos, it),
        w.labels.len() == u.labels.len(),
        forall|i: int| 0 <= i < u.labels.len() ==> (#[trigger] w.labels[i]) == done_label(u.labels[i]),
        w.pages[p].counter == u.pages[p].counter,
        forall|q: int| 0 <= q < 3 ==> (#[trigger] w.pages[q]).base == v.pages[q].base,
        forall|i: int, j: int| #[trigger] bound_slot(u.labels, i, j) ==> holds(w.pages, loc_addr(v.pages, w.labels[i].loc->Some_0), u.labels[i].target[j]),
        forall|q: int, k: int| 0 <= q < 3 && 0 <= k < PS() && (forall|i: int, j: int| #[trigger] bound_slot(u.labels, i, j) ==> !inslot(u.labels[i].target[j], q, k)) ==> (#[trigger] w.pages[q].mem[k]) == u.pages[q].mem[k],
    ensures
        pos + item_bytes(it.0).len() <= w.pages[p].counter,
        w.lab(it.1).loc == Some((Page(p as usize), Pos(pos as usize))),
        w.pages[p].mem.subrange(pos, pos + item_bytes(it.0).len()) == (match it.0 {
            DataType::AbsAddress(l) => if w.lab(l).loc is Some { le64(w.addr(l) as u64) } else { le64(0) },
            d => item_bytes(d),
        }),
{
    let n = item_bytes(it.0).len() as int;
    assert(u.pages[p].wf()); assert(w.pages[p].wf());
    assert(w.lab(it.1) == done_label(u.lab(it.1)));
    if let DataType::AbsAddress(l) = it.0 {
        let j = choose|j: int| #[trigger] slotat(u.labels, l.0 as int, j) && u.labels[l.0 as int].target[j] == (TargetType::Abs { page: Page(p as usize), pos: Pos(pos as usize) });
        let t = u.labels[l.0 as int].target[j];
        assert(slotat(u.labels, l.0 as int, j));
        assert(w.lab(l) == done_label(u.lab(l)));
        if w.lab(l).loc is Some {
            assert(bound_slot(u.labels, l.0 as int, j));
            assert(holds(w.pages, loc_addr(v.pages, w.lab(l).loc->Some_0), t));
            assert(u.labels[l.0 as int].wf());
            let q = w.lab(l).loc->Some_0.0.0 as int;
            assert(w.pages[q].base == v.pages[q].base);
            assert(n == 8);
            assert(w.addr(l) == loc_addr(v.pages, w.lab(l).loc->Some_0));
        } else {
            assert forall|k: int| pos <= k < pos + n implies w.pages[p].mem[k] == u.pages[p].mem[k] by {
                assert forall|i: int, b: int| #[trigger] bound_slot(u.labels, i, b) implies !inslot(u.labels[i].target[b], p, k) by {
                    assert(slotat(u.labels, i, b)); assert(slotat(u.labels, l.0 as int, j));
                    assert(sdisj(u.labels[i].target[b], t));
                }
            }
            assert(w.pages[p].mem.subrange(pos, pos + n) =~= u.pages[p].mem.subrange(pos, pos + n));
        }
    } else {
        assert(clear(u, p, pos, pos + n));
        assert forall|k: int| pos <= k < pos + n implies w.pages[p].mem[k] == u.pages[p].mem[k] by {
            assert forall|i: int, b: int| #[trigger] bound_slot(u.labels, i, b) implies !inslot(u.labels[i].target[b], p, k) by { assert(slotat(u.labels, i, b)); }
        }
        assert(w.pages[p].mem.subrange(pos, pos + n) =~= u.pages[p].mem.subrange(pos, pos + n));
    }
}
pub proof fn lemma_fin_item(v: JitV, s: int, a: int)
    requires
        good(v), fin_facts(v), hasitem(v, s, a),
        v.pages[pg(s)].counter <= item_pos(j_close(v), s, a),
        placed_at(sp_placed(v), pg(s), item_pos(j_close(v), s, a), items(v, s)[a]),
    ensures item_done(v, sp_finalize(v), s, a),
{
    hide(sp_placed); hide(sp_finalize); hide(rl_labels); hide(j_close); hide(j_end); hide(item_pos);
    let c = j_close(v); let u = sp_placed(v); let e = j_end(u); let w = sp_finalize(v);
    let r = rl_labels(e.pages, e.labels);
    lemma_fin_slots(v);
    lemma_fin_bytes(v);
    let it = items(v, s)[a];
    let pos = item_pos(c, s, a);
    assert(items_ok(items(v, s), v.labels.len() as int)) by { let n = v.labels.len() as int; assert(items_ok(v.pages[0].constants, n) && items_ok(v.pages[1].constants, n) && items_ok(v.pages[0].data, n) && items_ok(v.pages[1].data, n)); }
    assert(item_ok(items(v, s)[a], v.labels.len() as int));
    assert(v.pages[pg(s)].wf());
    assert(wpage(v.pages[pg(s)], u.pages[pg(s)], r[pg(s)], w.pages[pg(s)]));
    assert forall|q: int| 0 <= q < 3 implies (#[trigger] w.pages[q]).base == v.pages[q].base by { assert(wpage(v.pages[q], u.pages[q], r[q], w.pages[q])); }
    lemma_item_kept(v, u, w, pg(s), pos, it);
    assert(pos % item_align(it.0) == 0);
}
pub proof fn theorem_finalize(v: JitV)
    requires good(v), consts_fit(j_close(v), 2), data_fit(sp_consts(j_close(v), 2), 2),
    ensures
        finalize_fits(v),
        good(sp_finalize(v)),
        // C06: every recorded slot whose label is bound holds what its label's address demands
        forall|i: int, j: int| #[trigger] resolved(v, sp_finalize(v), i, j) ==> holds(sp_finalize(v).pages, loc_addr(v.pages, sp_finalize(v).labels[i].loc->Some_0), v.labels[i].target[j]),
        // C06: the other references stay recorded
        forall|i: int, j: int| #[trigger] slotat(v.labels, i, j) && sp_finalize(v).labels[i].loc is None ==> slotat(sp_finalize(v).labels, i, j) && sp_finalize(v).labels[i].target[j] == v.labels[i].target[j],
        // C08: no other emitted byte changes
        forall|p: int, k: int| 0 <= p < 3 && 0 <= k < v.pages[p].counter && (forall|i: int, j: int| #[trigger] resolved(v, sp_finalize(v), i, j) ==> !inslot(v.labels[i].target[j], p, k)) ==> (#[trigger] sp_finalize(v).pages[p].mem[k]) == v.pages[p].mem[k],
        // C07: every requested item is placed, aligned, behind the code, apart from the others, with its value
        forall|s: int, a: int| #[trigger] hasitem(v, s, a) ==> item_done(v, sp_finalize(v), s, a),
        forall|s: int, a: int, t: int, b: int| #[trigger] hasitem(v, s, a) && #[trigger] hasitem(v, t, b) ==> items_apart(v, s, a, t, b),
        forall|s: int| 0 <= s < 4 ==> (#[trigger] items(sp_finalize(v), s)).len() == 0,
        // C10: labels that are not labels of pending items keep their position; regions stay
        sp_finalize(v).labels.len() == v.labels.len(),
        sp_finalize(v).page == v.page,
        forall|i: int| 0 <= i < v.labels.len() && #[trigger] not_pool(v, 4, i) ==> sp_finalize(v).labels[i].loc == v.labels[i].loc,
        // C11: one block per region, from the end of the previous one
        forall|p: int| 0 <= p < 3 ==> {
            let w = #[trigger] sp_finalize(v).pages[p];
            &&& w.base == v.pages[p].base
            &&& w.blocks == v.pages[p].blocks.push((Pos(v.pages[p].top as usize), Pos(v.pages[p].counter as usize), Pos(w.counter as usize)))
            &&& w.code_len == v.pages[p].counter && w.top == w.counter && w.counter >= v.pages[p].counter
        },
{
    hide(sp_placed); hide(sp_finalize); hide(rl_labels); hide(j_close); hide(j_end); hide(item_pos); hide(stages); hide(finalize_fits); hide(placed_at); hide(item_done);
    let c = j_close(v); let u = sp_placed(v); let e = j_end(u); let w = sp_finalize(v);
    let r = rl_labels(e.pages, e.labels);
    lemma_fin_facts(v);
    lemma_stages(c, 4);
    assert forall|s: int| 0 <= s < 4 implies (#[trigger] items(u, s)).len() == 0 by { }
    lemma_fin_good(v);
    lemma_fin_slots(v);
    lemma_fin_bytes(v);
    assert forall|s: int, a: int| #[trigger] hasitem(v, s, a) implies item_done(v, w, s, a) by {
        assert(items(c, s) == items(v, s));
        assert(hasitem(c, s, a));
        assert(c.pages[pg(s)].counter == v.pages[pg(s)].counter);
        lemma_fin_item(v, s, a);
    }
    assert forall|s: int, a: int, t: int, b: int| #[trigger] hasitem(v, s, a) && #[trigger] hasitem(v, t, b) implies items_apart(v, s, a, t, b) by { assert(items(c, s) == items(v, s)); assert(items(c, t) == items(v, t)); assert(hasitem(c, s, a)); assert(hasitem(c, t, b)); }
    assert forall|i: int| 0 <= i < v.labels.len() && #[trigger] not_pool(v, 4, i) implies w.labels[i].loc == v.labels[i].loc by {
        assert(not_pool(c, 4, i)) by { assert forall|s: int, a: int| #[trigger] hasitem(c, s, a) && s < 4 implies items(c, s)[a].1.0 != i by { assert(items(c, s) == items(v, s)); assert(hasitem(v, s, a)); } }
        assert(w.labels[i] == done_label(u.labels[i]));
    }
    assert forall|p: int| 0 <= p < 3 implies ({
            let w = #[trigger] w.pages[p];
            &&& w.base == v.pages[p].base
            &&& w.blocks == v.pages[p].blocks.push((Pos(v.pages[p].top as usize), Pos(v.pages[p].counter as usize), Pos(w.counter as usize)))
            &&& w.code_len == v.pages[p].counter && w.top == w.counter && w.counter >= v.pages[p].counter
        }) by { assert(wpage(v.pages[p], u.pages[p], r[p], w.pages[p])); }
}

// -- histories: any sequence of calls

/// A call, as far as the state is concerned. App is every instruction and every emit.
pub enum Op {
    Label,
    Bind(DestLabel),
    App(Seq<u8>, Option<(DestLabel, int, int)>),
    Align(int),
    Const(DataType),
    Data(DataType),
    Select(int),
    Patch(int, DestLabel),
    Finalize,
}
pub open spec fn step(v: JitV, op: Op) -> JitV {
    match op {
        Op::Label => j_newlabel(v),
        Op::Bind(l) => j_bind(v, Page(v.page as usize), l),
        Op::App(b, rel) => j_app(v, b, rel),
        Op::Align(n) => j_palign(v, v.page, n),
        Op::Const(d) => j_const(v, d),
        Op::Data(d) => j_data(v, d),
        Op::Select(p) => JitV { page: p, ..v },
        Op::Patch(p, l) => j_patch(v, p, l),
        Op::Finalize => sp_finalize(v),
    }
}
/// what the caller owes: existing labels, each bound once, room, a patch inside one region
pub open spec fn legal(v: JitV, op: Op) -> bool {
    match op {
        Op::Label => true,
        Op::Bind(l) => v.haslab(l) && v.lab(l).loc is None && not_pool(v, 4, l.0 as int),
        Op::App(b, rel) => v.room(b.len() as int) && rel_ok(v, b, rel),
        Op::Align(n) => n == 4 || n == 8 || n == 16 || n == 4096,
        Op::Const(d) => d_ok(v, d) && v.labels.len() <= usize::MAX,
        Op::Data(d) => d_ok(v, d) && v.labels.len() <= usize::MAX,
        Op::Select(p) => 0 <= p < 2,
        Op::Patch(p, l) => v.haslab(l) && v.lab(l).loc is Some && exists|q: int| in_page(v, q, p, 5),
        Op::Finalize => consts_fit(j_close(v), 2) && data_fit(sp_consts(j_close(v), 2), 2),
    }
}
pub open spec fn run(v: JitV, ops: Seq<Op>) -> JitV
    decreases ops.len()
{
    if ops.len() == 0 { v } else { step(run(v, ops.drop_last()), ops.last()) }
}
pub open spec fn legal_run(v: JitV, ops: Seq<Op>) -> bool
    decreases ops.len()
{
    if ops.len() == 0 { true } else { legal_run(v, ops.drop_last()) && legal(run(v, ops.drop_last()), ops.last()) }
}
pub proof fn lemma_step_good(v: JitV, op: Op)
    requires good(v), legal(v, op),
    ensures good(step(v, op)),
{
    hide(good); hide(sp_finalize); hide(not_pool);
    match op {
        Op::Label => lemma_good_label(v),
        Op::Bind(l) => lemma_good_bind(v, l),
        Op::App(b, rel) => lemma_good_app(v, b, rel),
        Op::Align(n) => lemma_good_align(v, n),
        Op::Const(d) => lemma_good_item(v, d),
        Op::Data(d) => lemma_good_item(v, d),
        Op::Select(p) => lemma_good_select(v, p),
        Op::Patch(p, l) => { let q = choose|q: int| in_page(v, q, p, 5); lemma_good_patch(v, q, p, l); },
        Op::Finalize => theorem_finalize(v),
    }
}
/// The invariant holds after every legal history.
pub proof fn theorem_run(v: JitV, ops: Seq<Op>)
    requires good(v), legal_run(v, ops),
    ensures good(run(v, ops)),
    decreases ops.len()
{
    hide(good);
    if ops.len() > 0 {
        theorem_run(v, ops.drop_last());
        lemma_step_good(run(v, ops.drop_last()), ops.last());
    }
}

// -- C10: what is bound stays where it is; regions do not move; records are only appended

pub open spec fn settled(v: JitV, i: int) -> bool { 0 <= i < v.labels.len() && v.labels[i].loc is Some && not_pool(v, 4, i) }
pub open spec fn still(v: JitV, w: JitV, i: int) -> bool { settled(w, i) && w.labels[i].loc == v.labels[i].loc }
pub open spec fn frame(v: JitV, w: JitV) -> bool {
    &&& w.labels.len() >= v.labels.len()
    &&& forall|p: int| 0 <= p < 3 ==> (#[trigger] w.pages[p]).base == v.pages[p].base && w.pages[p].counter >= v.pages[p].counter && w.pages[p].blocks.len() >= v.pages[p].blocks.len() && w.pages[p].blocks.take(v.pages[p].blocks.len() as int) == v.pages[p].blocks
}
pub proof fn lemma_not_pool(v: JitV, w: JitV, i: int)
    requires not_pool(v, 4, i), forall|s: int| 0 <= s < 4 ==> #[trigger] items(w, s) == items(v, s),
    ensures not_pool(w, 4, i),
{
    assert forall|s: int, a: int| #[trigger] hasitem(w, s, a) && s < 4 implies items(w, s)[a].1.0 != i by { assert(items(w, s) == items(v, s)); assert(hasitem(v, s, a)); }
}
pub proof fn lemma_patch_page(v: JitV, p: int, l: DestLabel) -> (q: int)
    requires good(v), legal(v, Op::Patch(p, l)),
    ensures
        in_page(v, q, p, 5),
        j_patch(v, p, l) == j_upd(v, q, p_write(v.pages[q], p + 1 - v.pages[q].base, le32((v.addr(l) - (p + 5)) as i32 as u32))),
{
    hide(good); hide(le32); hide(PageV::wf); hide(p_write); hide(not_pool); hide(JitV::refs_ok);
    assert(v.wf()) by { reveal(good); }
    let q = choose|q: int| in_page(v, q, p, 5);
    let b = le32((v.addr(l) - (p + 5)) as i32 as u32);
    assert(b.len() == 4) by { reveal(le32); }
    assert(v.pages.len() == 3 && v.pages[1].base == v.pages[0].base + PS() && v.pages[2].base == v.pages[0].base + 2 * PS());
    assert(j_patch(v, p, l) == j_store(v, p + 1, b));
    assert(in_page(v, q, p + 1, 4));
    assert(q == 0 || q == 1 || q == 2);
    q
}
pub proof fn lemma_step_frame(v: JitV, op: Op)
    requires good(v), legal(v, op),
    ensures frame(v, step(v, op)),
{
    hide(good); hide(not_pool); hide(sp_finalize); hide(j_patch); hide(rel_ok); hide(consts_fit); hide(data_fit); hide(JitV::refs_ok);
    assert(v.wf()) by { reveal(good); }
    let w = step(v, op);
    assert(v.cur().wf());
    assert forall|p: int| 0 <= p < 3 implies (#[trigger] v.pages[p]).blocks.take(v.pages[p].blocks.len() as int) == v.pages[p].blocks by { assert(v.pages[p].blocks.take(v.pages[p].blocks.len() as int) =~= v.pages[p].blocks); }
    match op {
        Op::Align(n) => { lemma_align_int(v.cur().counter, n); },
        Op::Patch(p, l) => { let q = lemma_patch_page(v, p, l); },
        Op::Finalize => { lemma_fin_frame(v); },
        _ => { },
    }
}
pub proof fn lemma_fin_frame(v: JitV)
    requires good(v), legal(v, Op::Finalize),
    ensures frame(v, sp_finalize(v)),
{
    hide(good); hide(sp_finalize); hide(not_pool); hide(item_done); hide(items_apart); hide(holds); hide(consts_fit); hide(data_fit);
    theorem_finalize(v);
    let w = sp_finalize(v);
    assert forall|p: int| 0 <= p < 3 implies (#[trigger] w.pages[p]).base == v.pages[p].base && w.pages[p].counter >= v.pages[p].counter && w.pages[p].blocks.len() >= v.pages[p].blocks.len() && w.pages[p].blocks.take(v.pages[p].blocks.len() as int) == v.pages[p].blocks by {
        assert(w.pages[p].blocks.take(v.pages[p].blocks.len() as int) =~= v.pages[p].blocks);
    }
}
pub proof fn lemma_step_label(v: JitV, op: Op, i: int)
    requires good(v), legal(v, op), settled(v, i),
    ensures still(v, step(v, op), i),
{
    hide(sp_finalize); hide(good);
    assert(v.inv()) by { reveal(good); }
    let w = step(v, op);
    assert(v.cur().wf());
    match op {
        Op::Const(d) => { lemma_np_item(v, w, v.page, (d, DestLabel(v.labels.len() as usize)), i); },
        Op::Data(d) => { lemma_np_item(v, w, v.page + 2, (d, DestLabel(v.labels.len() as usize)), i); },
        Op::Patch(p, l) => { let q = lemma_patch_page(v, p, l); lemma_not_pool(v, w, i); },
        Op::Finalize => {
            theorem_finalize(v);
            assert forall|s: int, a: int| #[trigger] hasitem(w, s, a) && s < 4 implies items(w, s)[a].1.0 != i by { assert(items(w, s).len() == 0); }
        },
        _ => { lemma_not_pool(v, w, i); },
    }
}
pub proof fn lemma_np_item(v: JitV, w: JitV, s: int, it: (DataType, DestLabel), i: int)
    requires
        not_pool(v, 4, i), 0 <= s < 4, it.1.0 != i,
        forall|t: int| 0 <= t < 4 ==> #[trigger] items(w, t) == (if t == s { items(v, t).push(it) } else { items(v, t) }),
    ensures not_pool(w, 4, i),
{
    assert forall|t: int, a: int| #[trigger] hasitem(w, t, a) && t < 4 implies items(w, t)[a].1.0 != i by {
        assert(items(w, t) == (if t == s { items(v, t).push(it) } else { items(v, t) }));
        if hasitem(v, t, a) { }
    }
}
pub proof fn theorem_labels(v: JitV, ops: Seq<Op>, i: int)
    requires good(v), legal_run(v, ops), settled(v, i),
    ensures still(v, run(v, ops), i), frame(v, run(v, ops)),
    decreases ops.len()
{
    hide(good); hide(step); hide(legal); hide(not_pool);
    if ops.len() > 0 {
        let u = run(v, ops.drop_last());
        theorem_run(v, ops.drop_last());
        theorem_labels(v, ops.drop_last(), i);
        lemma_step_label(u, ops.last(), i);
        lemma_step_frame(u, ops.last());
        lemma_frame_trans(v, u, step(u, ops.last()));
    } else {
        assert forall|p: int| 0 <= p < 3 implies (#[trigger] v.pages[p]).blocks.take(v.pages[p].blocks.len() as int) == v.pages[p].blocks by { assert(v.pages[p].blocks.take(v.pages[p].blocks.len() as int) =~= v.pages[p].blocks); }
    }
}
pub proof fn lemma_frame_trans(u: JitV, v: JitV, w: JitV)
    requires frame(u, v), frame(v, w),
    ensures frame(u, w),
{
    assert forall|p: int| 0 <= p < 3 implies (#[trigger] w.pages[p]).base == u.pages[p].base && w.pages[p].counter >= u.pages[p].counter && w.pages[p].blocks.len() >= u.pages[p].blocks.len() && w.pages[p].blocks.take(u.pages[p].blocks.len() as int) == u.pages[p].blocks by {
        assert(v.pages[p].base == u.pages[p].base);
        let n = u.pages[p].blocks.len() as int;
        assert(w.pages[p].blocks.take(n) =~= v.pages[p].blocks.take(n)) by {
            assert forall|k: int| 0 <= k < n implies w.pages[p].blocks[k] == v.pages[p].blocks[k] by { assert(v.pages[p].blocks[k] == w.pages[p].blocks.take(v.pages[p].blocks.len() as int)[k]); }
        }
    }
}

// -- C08/C10: emitted bytes outside references stay

pub open spec fn quiet(v: JitV, p: int, k: int) -> bool {
    &&& 0 <= p < 3 && 0 <= k < v.pages[p].counter
    &&& forall|i: int, j: int| #[trigger] slotat(v.labels, i, j) ==> !inslot(v.labels[i].target[j], p, k)
}
/// op does not patch the byte k of region p
pub open spec fn spares(v: JitV, op: Op, p: int, k: int) -> bool {
    op matches Op::Patch(a, l) ==> !(a + 1 <= v.pages[p].base + k < a + 5)
}
pub open spec fn spares_run(v: JitV, ops: Seq<Op>, p: int, k: int) -> bool
    decreases ops.len()
{
    if ops.len() == 0 { true } else { spares_run(v, ops.drop_last(), p, k) && spares(run(v, ops.drop_last()), ops.last(), p, k) }
}
pub proof fn lemma_step_quiet(v: JitV, op: Op, p: int, k: int)
    requires good(v), legal(v, op), quiet(v, p, k), spares(v, op, p, k),
    ensures quiet(step(v, op), p, k), step(v, op).pages[p].mem[k] == v.pages[p].mem[k],
{
    hide(sp_finalize); hide(not_pool); hide(pool_ok); hide(slots_disj); hide(blocks_ok);
    let w = step(v, op);
    assert(v.cur().wf()); assert(v.pages[p].wf());
    match op {
        Op::App(b, rel) => {
            assert(w.pages[p].mem[k] == v.pages[p].mem[k]);
            if let Some((l, at, off)) = rel {
                assert forall|i: int, j: int| #[trigger] slotat(w.labels, i, j) implies !inslot(w.labels[i].target[j], p, k) by {
                    if slotat(v.labels, i, j) { assert(w.labels[i].target[j] == v.labels[i].target[j]); }
                }
            } else { assert(w.labels == v.labels); }
        },
        Op::Align(n) => { lemma_align_int(v.cur().counter, n); assert(w.labels == v.labels); },
        Op::Patch(a, l) => { let q = lemma_patch_page(v, a, l); assert(w.labels == v.labels); },
        Op::Finalize => {
            assert(forall|s: int, a: int| #[trigger] hasitem(v, s, a) ==> true);
            lemma_fin_quiet(v, p, k);
        },
        _ => {
            assert forall|i: int, j: int| #[trigger] slotat(w.labels, i, j) implies !inslot(w.labels[i].target[j], p, k) by { assert(slotat(v.labels, i, j)); assert(w.labels[i].target[j] == v.labels[i].target[j]); }
        },
    }
}
pub proof fn lemma_fin_quiet(v: JitV, p: int, k: int)
    requires good(v), legal(v, Op::Finalize), quiet(v, p, k),
    ensures quiet(sp_finalize(v), p, k), sp_finalize(v).pages[p].mem[k] == v.pages[p].mem[k],
{
    hide(sp_placed); hide(sp_finalize); hide(rl_labels); hide(j_close); hide(j_end); hide(not_pool); hide(pool_ok); hide(slots_disj); hide(blocks_ok); hide(item_done); hide(items_apart); hide(holds);
    theorem_finalize(v);
    lemma_fin_facts(v);
    let c = j_close(v); let u = sp_placed(v); let w = sp_finalize(v);
    assert forall|i: int, j: int| #[trigger] resolved(v, w, i, j) implies !inslot(v.labels[i].target[j], p, k) by { assert(slotat(v.labels, i, j)); }
    assert(w.pages[p].mem[k] == v.pages[p].mem[k]);
    assert forall|i: int, j: int| #[trigger] slotat(w.labels, i, j) implies !inslot(w.labels[i].target[j], p, k) by {
        assert(w.labels[i] == done_label(u.labels[i]));
        assert(slotat(u.labels, i, j));
        let t = u.labels[i].target[j];
        if slotat(c.labels, i, j) { assert(slotat(v.labels, i, j)); assert(u.labels[i].target[j] == c.labels[i].target[j]); }
        else { assert(new_slot(c, t)); assert(target_ok(t)); assert(c.pages[slot_page(t)].counter == v.pages[slot_page(t)].counter); }
    }
    assert(w.pages[p].counter >= v.pages[p].counter);
}
pub proof fn theorem_bytes(v: JitV, ops: Seq<Op>, p: int, k: int)
    requires good(v), legal_run(v, ops), quiet(v, p, k), spares_run(v, ops, p, k),
    ensures quiet(run(v, ops), p, k), run(v, ops).pages[p].mem[k] == v.pages[p].mem[k],
    decreases ops.len()
{
    hide(good); hide(step); hide(legal); hide(quiet); hide(spares);
    if ops.len() > 0 {
        let u = run(v, ops.drop_last());
        theorem_run(v, ops.drop_last());
        theorem_bytes(v, ops.drop_last(), p, k);
        lemma_step_quiet(u, ops.last(), p, k);
    }
}

// -- C06: a recorded reference is kept until its label is bound at a finalize(); from
//    then on its slot holds what the label's address demands.

pub open spec fn pending(v: JitV, i: int, t: TargetType) -> bool { exists|j: int| #[trigger] slotat(v.labels, i, j) && v.labels[i].target[j] == t }
pub open spec fn done(v: JitV, i: int, t: TargetType) -> bool {
    &&& settled(v, i)
    &&& target_ok(t) && slot_fits(t)
    &&& holds(v.pages, loc_addr(v.pages, v.labels[i].loc->Some_0), t)
    &&& forall|k: int| slot_pos(t) <= k < slot_pos(t) + slot_len(t) ==> #[trigger] quiet(v, slot_page(t), k)
}
pub open spec fn spares_ref(v: JitV, op: Op, t: TargetType) -> bool {
    forall|k: int| slot_pos(t) <= k < slot_pos(t) + slot_len(t) ==> #[trigger] spares(v, op, slot_page(t), k)
}
pub open spec fn spares_ref_run(v: JitV, ops: Seq<Op>, t: TargetType) -> bool
    decreases ops.len()
{
    if ops.len() == 0 { true } else { spares_ref_run(v, ops.drop_last(), t) && spares_ref(run(v, ops.drop_last()), ops.last(), t) }
}
pub proof fn lemma_step_done(v: JitV, op: Op, i: int, t: TargetType)
    requires good(v), legal(v, op), done(v, i, t), spares_ref(v, op, t),
    ensures done(step(v, op), i, t),
{
    hide(sp_finalize); hide(not_pool); hide(quiet); hide(spares); hide(legal); hide(step);
    let w = step(v, op);
    lemma_step_label(v, op, i);
    lemma_step_frame(v, op);
    lemma_step_good(v, op);
    let q = slot_page(t);
    assert forall|k: int| slot_pos(t) <= k < slot_pos(t) + slot_len(t) implies #[trigger] quiet(w, q, k) && w.pages[q].mem[k] == v.pages[q].mem[k] by {
        assert(quiet(v, q, k)); assert(spares(v, op, q, k));
        lemma_step_quiet(v, op, q, k);
    }
    assert(v.labels[i].wf());
    let l = v.labels[i].loc->Some_0;
    assert(w.pages[l.0.0 as int].base == v.pages[l.0.0 as int].base);
    assert(w.pages[q].base == v.pages[q].base);
    assert(v.pages[q].wf()); assert(w.pages[q].wf());
    assert forall|k: int| slot_pos(t) <= k < slot_pos(t) + slot_len(t) implies #[trigger] w.pages[q].mem[k] == v.pages[q].mem[k] by { assert(quiet(w, q, k)); }
    assert(w.pages[q].mem.subrange(slot_pos(t), slot_pos(t) + slot_len(t)) =~= v.pages[q].mem.subrange(slot_pos(t), slot_pos(t) + slot_len(t)));
}
pub proof fn lemma_fin_pending(v: JitV, i: int, t: TargetType)
    requires good(v), legal(v, Op::Finalize), pending(v, i, t),
    ensures if sp_finalize(v).labels[i].loc is Some { done(sp_finalize(v), i, t) } else { pending(sp_finalize(v), i, t) },
{
    hide(sp_placed); hide(sp_finalize); hide(rl_labels); hide(j_close); hide(j_end); hide(pool_ok); hide(blocks_ok); hide(item_done); hide(items_apart);
    theorem_finalize(v);
    lemma_fin_facts(v);
    let c = j_close(v); let u = sp_placed(v); let w = sp_finalize(v);
    let j = choose|j: int| #[trigger] slotat(v.labels, i, j) && v.labels[i].target[j] == t;
    assert(slotat(v.labels, i, j));
    assert(target_ok(t));
    let q = slot_page(t);
    assert(v.pages[q].wf());
    if w.labels[i].loc is Some {
        assert(resolved(v, w, i, j));
        assert(holds(w.pages, loc_addr(v.pages, w.labels[i].loc->Some_0), t));
        assert(w.labels[i].wf());
        let l = w.labels[i].loc->Some_0;
        assert(w.pages[l.0.0 as int].base == v.pages[l.0.0 as int].base);
        assert(not_pool(w, 4, i)) by {
            assert forall|s: int, a: int| #[trigger] hasitem(w, s, a) && s < 4 implies items(w, s)[a].1.0 != i by { assert(items(w, s).len() == 0); }
        }
        assert(slotat(c.labels, i, j));
        assert(u.labels[i].target[j] == t);
        assert(slotat(u.labels, i, j)) by { assert(u.labels[i].target.len() >= c.labels[i].target.len()); }
        assert(w.labels[i] == done_label(u.labels[i]));
        assert forall|k: int| slot_pos(t) <= k < slot_pos(t) + slot_len(t) implies #[trigger] quiet(w, q, k) by {
            assert(w.pages[q].counter >= v.pages[q].counter);
            assert forall|a: int, b: int| #[trigger] slotat(w.labels, a, b) implies !inslot(w.labels[a].target[b], q, k) by {
                assert(w.labels[a] == done_label(u.labels[a]));
                assert(slotat(u.labels, a, b));
                assert(sdisj(u.labels[a].target[b], u.labels[i].target[j]));
            }
        }
    } else {
        assert(slotat(w.labels, i, j) && w.labels[i].target[j] == t);
    }
}
pub proof fn lemma_step_pending(v: JitV, op: Op, i: int, t: TargetType)
    requires good(v), legal(v, op), pending(v, i, t), !(op is Finalize),
    ensures pending(step(v, op), i, t),
{
    hide(good); hide(not_pool);
    assert(v.inv()) by { reveal(good); }
    let w = step(v, op);
    let j = choose|j: int| #[trigger] slotat(v.labels, i, j) && v.labels[i].target[j] == t;
    assert(slotat(v.labels, i, j));
    match op {
        Op::Patch(p, l) => { let q = lemma_patch_page(v, p, l); assert(w.labels == v.labels); },
        _ => { },
    }
    assert(slotat(w.labels, i, j) && w.labels[i].target[j] == t);
}
pub open spec fn kept(v: JitV, i: int, t: TargetType) -> bool { pending(v, i, t) || done(v, i, t) }
pub proof fn theorem_refs(v: JitV, ops: Seq<Op>, i: int, t: TargetType)
    requires good(v), legal_run(v, ops), kept(v, i, t), spares_ref_run(v, ops, t),
    ensures
        kept(run(v, ops), i, t),
        ops.len() > 0 && ops.last() is Finalize && run(v, ops).labels[i].loc is Some ==> done(run(v, ops), i, t),
    decreases ops.len()
{
    hide(good); hide(legal); hide(pending); hide(done); hide(spares_ref); hide(sp_finalize);
    if ops.len() > 0 {
        let u = run(v, ops.drop_last());
        theorem_run(v, ops.drop_last());
        theorem_refs(v, ops.drop_last(), i, t);
        if done(u, i, t) { lemma_step_done(u, ops.last(), i, t); }
        else if ops.last() is Finalize { lemma_fin_pending(u, i, t); }
        else { lemma_step_pending(u, ops.last(), i, t); }
    }
}
} // mod history
