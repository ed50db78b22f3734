@file merge/transaction.rs
@wrap IndexedTransactions Holder BAD_TRANSACTION_INDEX
@pubfields IndexedTransactions Holder
@add 
impl IndexedTransactions {
    pub open spec fn arena(&self) -> Map<Index, Holder> { am(self.trn_arena) }
    /// The transactions of a date, in order of arrival.
    pub open spec fn on(&self, d: NaiveDate) -> Seq<Index> {
        if self.trns_by_date@.contains_key(d) { self.trns_by_date@[d]@ } else { Seq::empty() }
    }
    pub open spec fn wf(&self) -> bool {
        &&& forall|d: NaiveDate| (#[trigger] self.on(d)).no_duplicates()
        &&& forall|d: NaiveDate, j: int| 0 <= j < self.on(d).len() ==>
                self.arena().contains_key(#[trigger] self.on(d)[j]) && self.arena()[self.on(d)[j]].trn.raw.date == d
        &&& forall|i: Index| #[trigger] self.arena().contains_key(i) ==> self.on(self.arena()[i].trn.raw.date).contains(i)
    }
}

pub open spec fn firsts(s: Seq<(NaiveDate, Vec<Holder>)>) -> Seq<NaiveDate> { s.map_values(|e: (NaiveDate, Vec<Holder>)| e.0) }
pub open spec fn ascending(ds: Seq<NaiveDate>) -> bool { forall|i: int, j: int| 0 <= i < j < ds.len() ==> date_num(#[trigger] ds[i]) < date_num(#[trigger] ds[j]) }
impl IndexedTransactions {
    pub open spec fn held(&self, ks: Seq<Index>) -> Seq<Holder> { ks.map_values(|k: Index| self.arena()[k]) }
    pub open spec fn dated(&self, d: NaiveDate) -> spec_fn(Index) -> bool { |k: Index| self.arena()[k].trn.raw.date == d }
    /// The transactions of the given dates, one date after the other.
    pub open spec fn flat(&self, ds: Seq<NaiveDate>) -> Seq<Index> decreases ds.len() {
        if ds.len() == 0 { Seq::empty() } else { self.flat(ds.drop_last()) + self.on(ds.last()) }
    }
    /// The transactions in output order: all of them, once each, by date, and in order of arrival within a date.
    pub open spec fn ordered(&self, ks: Seq<Index>, r: Seq<Holder>) -> bool {
        &&& r == self.held(ks)
        &&& ks.no_duplicates()
        &&& forall|k: Index| #[trigger] ks.contains(k) <==> self.arena().contains_key(k)
        &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> date_num((#[trigger] r[i]).trn.raw.date) <= date_num((#[trigger] r[j]).trn.raw.date)
        &&& forall|d: NaiveDate| ks.filter(#[trigger] self.dated(d)) == self.on(d)
    }
    pub open spec fn entries(&self, s: Seq<(NaiveDate, Vec<Holder>)>) -> bool {
        &&& firsts(s).no_duplicates()
        &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1@ == self.held(self.on(s[i].0))
        &&& forall|d: NaiveDate| #[trigger] self.trns_by_date@.contains_key(d) ==> firsts(s).contains(d)
    }
    pub proof fn lemma_entries(&self, m: Seq<(NaiveDate, Vec<Index>)>, a: Seq<(NaiveDate, Vec<Holder>)>)
        requires
            a.len() <= m.len(),
            forall|k: NaiveDate| #[trigger] self.trns_by_date@.contains_key(k) ==> exists|i: int| 0 <= i < m.len() && (#[trigger] m[i]).0 == k,
            forall|i: int, j: int| 0 <= i < j < m.len() ==> (#[trigger] m[i]).0 != (#[trigger] m[j]).0,
            forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).0 == m[i].0 && a[i].1@ == self.held(self.on(a[i].0)),
        ensures a.len() == m.len() ==> self.entries(a),
    {
        if a.len() == m.len() {
        assert(firsts(a).no_duplicates()) by {
            assert forall|i: int, j: int| 0 <= i < firsts(a).len() && 0 <= j < firsts(a).len() && i != j implies firsts(a)[i] != firsts(a)[j] by {
                assert(a[i].0 == m[i].0 && a[j].0 == m[j].0);
                if i < j { assert(m[i].0 != m[j].0); } else { assert(m[j].0 != m[i].0); }
            }
        }
        assert forall|d: NaiveDate| #[trigger] self.trns_by_date@.contains_key(d) implies firsts(a).contains(d) by {
            let i = choose|i: int| 0 <= i < m.len() && (#[trigger] m[i]).0 == d;
            assert(a[i].0 == m[i].0); assert(firsts(a)[i] == d);
        }
        }
    }
    pub proof fn lemma_sorted(&self, a: Seq<(NaiveDate, Vec<Holder>)>, b: Seq<(NaiveDate, Vec<Holder>)>)
        requires
            self.entries(a), exists|p: Seq<int>| permuted(a, p, b),
            forall|i: int, j: int| #![trigger b[i], b[j]] 0 <= i < j < b.len() ==> int_cmp(date_num(b[i].0), date_num(b[j].0)) != std::cmp::Ordering::Greater,
        ensures self.entries(b), ascending(firsts(b)),
    {
        let p = choose|p: Seq<int>| permuted(a, p, b);
        assert(firsts(b).no_duplicates()) by {
            assert forall|i: int, j: int| 0 <= i < firsts(b).len() && 0 <= j < firsts(b).len() && i != j implies firsts(b)[i] != firsts(b)[j] by {
                assert(b[i] == a[p[i]] && b[j] == a[p[j]]);
                assert(firsts(a)[p[i]] == a[p[i]].0 && firsts(a)[p[j]] == a[p[j]].0);
            }
        }
        assert forall|d: NaiveDate| #[trigger] self.trns_by_date@.contains_key(d) implies firsts(b).contains(d) by {
            let i = choose|i: int| 0 <= i < firsts(a).len() && firsts(a)[i] == d;
            lemma_perm_onto(p, a.len() as int, i);
            let j = choose|j: int| 0 <= j < p.len() && p[j] == i;
            assert(firsts(b)[j] == b[j].0);
            assert(b[j] == a[p[j]]);
        }
        assert forall|i: int, j: int| 0 <= i < j < firsts(b).len() implies date_num(#[trigger] firsts(b)[i]) < date_num(#[trigger] firsts(b)[j]) by {
            assert(firsts(b)[i] == b[i].0 && firsts(b)[j] == b[j].0);
            if date_num(b[i].0) == date_num(b[j].0) { ax_date_inj(b[i].0, b[j].0); }
        }
    }
    pub proof fn lemma_flat(&self, ds: Seq<NaiveDate>)
        requires self.wf(), ascending(ds), forall|d: NaiveDate| #[trigger] self.trns_by_date@.contains_key(d) ==> ds.contains(d),
        ensures self.ordered(self.flat(ds), self.held(self.flat(ds))),
    {
        self.lemma_flat_part(ds);
        let ks = self.flat(ds);
        assert forall|k: Index| #[trigger] ks.contains(k) <==> self.arena().contains_key(k) by {
            if self.arena().contains_key(k) {
                let d = self.arena()[k].trn.raw.date;
                assert(self.on(d).contains(k));
            }
        }
        assert forall|d: NaiveDate| ks.filter(#[trigger] self.dated(d)) == self.on(d) by { }
        let r = self.held(ks);
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies date_num((#[trigger] r[i]).trn.raw.date) <= date_num((#[trigger] r[j]).trn.raw.date) by {
            assert(r[i] == self.arena()[ks[i]] && r[j] == self.arena()[ks[j]]);
        }
    }
    pub proof fn lemma_flat_part(&self, ds: Seq<NaiveDate>)
        requires self.wf(), ascending(ds),
        ensures
            self.flat(ds).no_duplicates(),
            forall|k: Index| #[trigger] self.flat(ds).contains(k) <==> self.arena().contains_key(k) && ds.contains(self.arena()[k].trn.raw.date),
            forall|i: int, j: int| 0 <= i < j < self.flat(ds).len() ==>
                date_num(self.arena()[#[trigger] self.flat(ds)[i]].trn.raw.date) <= date_num(self.arena()[#[trigger] self.flat(ds)[j]].trn.raw.date),
            forall|d: NaiveDate| self.flat(ds).filter(#[trigger] self.dated(d)) == (if ds.contains(d) { self.on(d) } else { Seq::empty() }),
        decreases ds.len(),
    {
        let f = self.flat(ds);
        if ds.len() == 0 {
            reveal(Seq::filter);
            assert forall|d: NaiveDate| f.filter(#[trigger] self.dated(d)) == Seq::<Index>::empty() by { assert(f.filter(self.dated(d)) =~= Seq::<Index>::empty()); }
        } else {
            let e = ds.drop_last(); let g = self.flat(e); let l = ds.last(); let o = self.on(l);
            assert(ascending(e)) by { assert forall|i: int, j: int| 0 <= i < j < e.len() implies date_num(#[trigger] e[i]) < date_num(#[trigger] e[j]) by { assert(e[i] == ds[i] && e[j] == ds[j]); } }
            self.lemma_flat_part(e);
            assert(f == g + o);
            assert(!e.contains(l)) by { if e.contains(l) { let i = choose|i: int| 0 <= i < e.len() && e[i] == l; assert(ds[i] == l && ds[ds.len() - 1] == l); } }
            assert forall|d: NaiveDate| #[trigger] ds.contains(d) <==> e.contains(d) || d == l by {
                assert(e.push(l) =~= ds);
                if d == l { assert(ds[ds.len() - 1] == d); }
                if e.contains(d) { let i = choose|i: int| 0 <= i < e.len() && e[i] == d; assert(ds[i] == d); }
                if ds.contains(d) && d != l { let i = choose|i: int| 0 <= i < ds.len() && ds[i] == d; assert(e[i] == d); }
            }
            assert forall|j: int| 0 <= j < o.len() implies self.arena().contains_key(#[trigger] o[j]) && self.arena()[o[j]].trn.raw.date == l by { assert(self.on(l)[j] == o[j]); }
            assert forall|k: Index| #[trigger] f.contains(k) <==> self.arena().contains_key(k) && ds.contains(self.arena()[k].trn.raw.date) by {
                if f.contains(k) {
                    let i = choose|i: int| 0 <= i < f.len() && f[i] == k;
                    if i < g.len() { assert(g[i] == k); assert(g.contains(k)); } else { assert(o[i - g.len()] == k); }
                }
                if self.arena().contains_key(k) && ds.contains(self.arena()[k].trn.raw.date) {
                    if self.arena()[k].trn.raw.date == l {
                        assert(o.contains(k)); let j = choose|j: int| 0 <= j < o.len() && o[j] == k; assert(f[g.len() + j] == k);
                    } else {
                        assert(g.contains(k)); let j = choose|j: int| 0 <= j < g.len() && g[j] == k; assert(f[j] == k);
                    }
                }
            }
            assert(f.no_duplicates()) by {
                assert(o.no_duplicates());
                assert forall|i: int, j: int| 0 <= i < f.len() && 0 <= j < f.len() && i != j implies f[i] != f[j] by {
                    if i < g.len() && j >= g.len() { assert(g.contains(f[i])); assert(f[j] == o[j - g.len()]); }
                    if j < g.len() && i >= g.len() { assert(g.contains(f[j])); assert(f[i] == o[i - g.len()]); }
                }
            }
            assert forall|i: int, j: int| 0 <= i < j < f.len() implies
                date_num(self.arena()[#[trigger] f[i]].trn.raw.date) <= date_num(self.arena()[#[trigger] f[j]].trn.raw.date) by {
                if j < g.len() { assert(g[i] == f[i] && g[j] == f[j]); }
                else if i >= g.len() { assert(f[i] == o[i - g.len()] && f[j] == o[j - g.len()]); }
                else {
                    assert(g.contains(f[i])); assert(f[j] == o[j - g.len()]);
                    let d = self.arena()[f[i]].trn.raw.date;
                    assert(e.contains(d));
                    let q = choose|q: int| 0 <= q < e.len() && e[q] == d;
                    assert(ds[q] == d && ds[ds.len() - 1] == l);
                }
            }
            assert forall|d: NaiveDate| f.filter(#[trigger] self.dated(d)) == (if ds.contains(d) { self.on(d) } else { Seq::empty() }) by {
                Seq::filter_distributes_over_add(g, o, self.dated(d));
                assert(g.filter(self.dated(d)) == (if e.contains(d) { self.on(d) } else { Seq::empty() }));
                if d == l { lemma_filter_all(o, self.dated(d)); } else { lemma_filter_none(o, self.dated(d)); }
                assert(ds.contains(d) <==> e.contains(d) || d == l);
                assert(g.filter(self.dated(d)) + o.filter(self.dated(d)) =~= (if ds.contains(d) { self.on(d) } else { Seq::empty() }));
            }
        }
    }
}

/// `b` is `a` with the new transaction `h` under the fresh index `i`.
pub proof fn lemma_trn_added(a: IndexedTransactions, h: Holder, i: Index, b: IndexedTransactions)
    requires
        a.wf(), !a.arena().contains_key(i), b.arena() == a.arena().insert(i, h),
        forall|d: NaiveDate| #[trigger] b.on(d) =~= (if d == h.trn.raw.date { a.on(d).push(i) } else { a.on(d) }),
    ensures b.wf(),
{
    assert forall|d: NaiveDate| (#[trigger] b.on(d)).no_duplicates() by {
        assert(a.on(d).no_duplicates());
        if a.on(d).contains(i) { let j = choose|j: int| 0 <= j < a.on(d).len() && a.on(d)[j] == i; assert(a.arena().contains_key(a.on(d)[j])); }
    }
    assert forall|d: NaiveDate, j: int| 0 <= j < b.on(d).len() implies
        b.arena().contains_key(#[trigger] b.on(d)[j]) && b.arena()[b.on(d)[j]].trn.raw.date == d by {
        if j < a.on(d).len() { assert(b.on(d)[j] == a.on(d)[j]); }
    }
    assert forall|k: Index| #[trigger] b.arena().contains_key(k) implies b.on(b.arena()[k].trn.raw.date).contains(k) by {
        let d = b.arena()[k].trn.raw.date;
        if k == i { assert(b.on(d).last() == i); }
        else {
            assert(a.arena().contains_key(k));
            let j = choose|j: int| 0 <= j < a.on(d).len() && a.on(d)[j] == k;
            assert(b.on(d)[j] == k);
        }
    }
}
/// `b` is `a` with the transaction `i` changed, but not its date.
pub proof fn lemma_trn_changed(a: IndexedTransactions, i: Index, b: IndexedTransactions)
    requires
        a.wf(), a.arena().contains_key(i), b.arena().contains_key(i), b.arena() == a.arena().insert(i, b.arena()[i]),
        b.arena()[i].trn == a.arena()[i].trn, b.trns_by_date == a.trns_by_date,
    ensures b.wf(), forall|d: NaiveDate| #[trigger] b.on(d) == a.on(d),
{
    assert forall|d: NaiveDate| #[trigger] b.on(d) == a.on(d) by {}
    assert forall|d: NaiveDate| (#[trigger] b.on(d)).no_duplicates() by { assert(a.on(d).no_duplicates()); }
    assert forall|d: NaiveDate, j: int| 0 <= j < b.on(d).len() implies
        b.arena().contains_key(#[trigger] b.on(d)[j]) && b.arena()[b.on(d)[j]].trn.raw.date == d by {
        assert(a.arena().contains_key(a.on(d)[j]));
    }
    assert forall|k: Index| #[trigger] b.arena().contains_key(k) implies b.on(b.arena()[k].trn.raw.date).contains(k) by {
        assert(a.arena().contains_key(k));
    }
}

@fn IndexedTransactions::new
@ret r
@spec
    ensures r.wf(), r.arena() == Map::<Index, Holder>::empty(), forall|d: NaiveDate| #[trigger] r.on(d) =~= Seq::<Index>::empty(),
@props C01 C06

@fn IndexedTransactions::get
@props C01 C02 C06
@ret r
@spec
    requires self.arena().contains_key($1),
    ensures *r == self.arena()[$1],

@fn IndexedTransactions::get_mut
@props C01 C02
@ret r
@spec
    requires old(self).arena().contains_key($1),
    ensures
        *r == old(self).arena()[$1],
        final(self).arena() == old(self).arena().insert($1, *final(r)),
        final(self).trns_by_date == old(self).trns_by_date,

@fn IndexedTransactions::add
@ret r
@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        !old(self).arena().contains_key(r),
        final(self).arena() == old(self).arena().insert(r, $1),
        forall|d: NaiveDate| #[trigger] final(self).on(d) =~= (if d == $1.trn.raw.date { old(self).on(d).push(r) } else { old(self).on(d) }),
@begin
    let ghost h0 = $1;
@tail
    proof { lemma_trn_added(*old(self), h0, vx_t, *self); }
@props C01 C06

@fn IndexedTransactions::add_post_to_trn
@spec
    requires old(self).wf(), old(self).arena().contains_key($1),
    ensures
        final(self).wf(),
        final(self).arena().dom() =~= old(self).arena().dom(),
        forall|t: Index| #[trigger] old(self).arena().contains_key(t) && t != $1 ==> final(self).arena()[t] == old(self).arena()[t],
        final(self).arena()[$1].trn == old(self).arena()[$1].trn,
        final(self).arena()[$1].postings@ == old(self).arena()[$1].postings@.push($2),
        forall|d: NaiveDate| #[trigger] final(self).on(d) == old(self).on(d),
@end
    proof { lemma_trn_changed(*old(self), $1, *self); }
@props C01 C06

@fn Holder::from_transaction_internal
@props C01 C06
@ret r
@spec
    ensures r.trn == $1, r.postings@ =~= Seq::<posting::Index>::empty(),

@fn Holder::into_transaction_postings
@props C01 C06
@ret r
@spec
    ensures r.trn == self.trn, r.posts == $1,

@fn Holder::iter_posting_indices
@props C01 C06
@ret r
@eager posting::Index
@spec
    ensures r@ == self.postings@,
@chain 0 vec
    invariant
        vx_it.seq().unref() == self.postings@,
        vx_acc@ =~= vx_it.seq().unref().take(vx_it.index() as int),
        vx_it.index() == vx_it.seq().len() ==> vx_acc@ =~= self.postings@,
---
    proof { assert(vx_it.seq().unref()[vx_it.index() as int] == *vx_it.seq()[vx_it.index() as int]); }


@fn IndexedTransactions::into_iter
@ret r
@eager Holder
@fattr #[verifier::loop_isolation(false)]
@replace `self.trns_by_date.into_iter()`
crate::vx::hm_into_vec(self.trns_by_date).into_iter()
@replace `date_trns.sort_by(`
crate::vx::vec_sort_by(&mut date_trns, 
@spec
    requires self.wf(),
    ensures exists|ks: Seq<Index>| #[trigger] self.ordered(ks, r@),
@props C01 C06 C21
@begin
    let ghost s0 = self;
    let ghost mut v1 = Seq::<(NaiveDate, Vec<Holder>)>::empty();
@closure sort_by
&(NaiveDate, Vec<Holder>) ; &(NaiveDate, Vec<Holder>)
-> (o: std::cmp::Ordering) ensures o == crate::vx::int_cmp(crate::vx::date_num(#1.0), crate::vx::date_num(#2.0))
@chain 0 vec Holder
    invariant
        vx_it.seq() == s0.on(date),
        vx_acc@ =~= s0.held(vx_it.seq().take(vx_it.index() as int)),
        vx_it.index() == vx_it.seq().len() ==> vx_acc@ =~= s0.held(s0.on(date)),
        forall|j: int| vx_it.index() <= j < s0.on(date).len() ==> am(trn_arena).contains_key(#[trigger] s0.on(date)[j]) && am(trn_arena)[s0.on(date)[j]] == s0.arena()[s0.on(date)[j]],
        forall|k: Index| #[trigger] s0.arena().contains_key(k) && s0.arena()[k].trn.raw.date != date && ar0.contains_key(k) ==> am(trn_arena).contains_key(k) && am(trn_arena)[k] == ar0[k],
---
    proof { assert(s0.on(date)[vx_it.index() as int] == vx_x); assert(s0.arena().contains_key(vx_x)); }
@chain 1 vec (NaiveDate, Vec<Holder>)
    invariant
        vx_acc@.len() == vx_it.index(),
        forall|i: int| 0 <= i < vx_it.seq().len() ==> s0.trns_by_date@.contains_key((#[trigger] vx_it.seq()[i]).0) && s0.trns_by_date@[vx_it.seq()[i].0] == vx_it.seq()[i].1,
        forall|k: NaiveDate| #[trigger] s0.trns_by_date@.contains_key(k) ==> exists|i: int| 0 <= i < vx_it.seq().len() && (#[trigger] vx_it.seq()[i]).0 == k,
        forall|i: int, j: int| 0 <= i < j < vx_it.seq().len() ==> (#[trigger] vx_it.seq()[i]).0 != (#[trigger] vx_it.seq()[j]).0,
        forall|i: int| 0 <= i < vx_acc@.len() ==> (#[trigger] vx_acc@[i]).0 == vx_it.seq()[i].0 && vx_acc@[i].1@ == s0.held(s0.on(vx_acc@[i].0)),
        forall|k: Index| #[trigger] s0.arena().contains_key(k) && !firsts(vx_acc@).contains(s0.arena()[k].trn.raw.date) ==> am(trn_arena).contains_key(k) && am(trn_arena)[k] == s0.arena()[k],
        vx_it.index() == vx_it.seq().len() ==> s0.entries(vx_acc@),
---
    let ghost ar0 = am(trn_arena);
    let ghost acc0 = vx_acc@;
    proof {
        let d = vx_x.0;
        assert(s0.on(d) == vx_x.1@);
        if firsts(acc0).contains(d) { let m = choose|m: int| 0 <= m < acc0.len() && firsts(acc0)[m] == d; assert(acc0[m].0 == vx_it.seq()[m].0); }
        assert(s0.on(d).no_duplicates());
    }
---
    proof {
        assert(firsts(vx_acc@) =~= firsts(acc0).push(date));
        assert forall|x: NaiveDate| #[trigger] firsts(vx_acc@).contains(x) <==> firsts(acc0).contains(x) || x == date by { lemma_push_contains(firsts(acc0), date, x); }
        s0.lemma_entries(vx_it.seq(), vx_acc@);
    }
---
    proof { v1 = vx_acc@; }
@chain 2 vec Holder
    invariant
        vx_it.seq() == v2,
        vx_acc@ =~= s0.held(s0.flat(firsts(v2).take(vx_it.index() as int))),
        vx_it.index() == vx_it.seq().len() ==> vx_acc@ =~= s0.held(s0.flat(firsts(v2))),
---
    let ghost acc1 = vx_acc@;
---
    proof {
        let i = vx_it.index() as int;
        let f = firsts(v2);
        assert(f[i] == v2[i].0);
        assert(f.take(i + 1).drop_last() =~= f.take(i));
        assert(f.take(i + 1).last() == v2[i].0);
        assert(s0.held(s0.flat(f.take(i + 1))) =~= s0.held(s0.flat(f.take(i))) + s0.held(s0.on(v2[i].0)));
        assert(f.take(f.len() as int) =~= f);
    }
---
    proof { s0.lemma_flat(firsts(v2)); }
---
    let ghost v2 = date_trns@;
    proof { s0.lemma_sorted(v1, v2); }
+++
    invariant
        vx_jt.seq() == v2[vx_it.index() as int].1@,
        vx_acc@ =~= acc1 + vx_jt.seq().take(vx_jt.index() as int),
        vx_jt.index() == vx_jt.seq().len() ==> vx_acc@ =~= acc1 + v2[vx_it.index() as int].1@,
