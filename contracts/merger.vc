@file mutcell.rs
@wrap MutCell State
@pubfields MutCell State
@add 
impl<T> MutCell<T> {
    pub open spec fn full(&self) -> bool { self.0 is Value }
    pub open spec fn v(&self) -> T { self.0->Value_0 }
}

@fn MutCell<T>::new
@props C02
@ret r
@spec
    ensures r.full(), r.v() == $1,

@fn MutCell<T>::into_inner
@props C02
@ret r
@spec
    requires self.full(),
    ensures r == self.v(),

@fn MutCell<T>::map_value
@props C02
@spec
    requires old(self).full(), call_requires($1, (old(self).v(),)),
    ensures final(self).full(), call_ensures($1, (old(self).v(),), final(self).v()),

@file merge/merger.rs
@wrap Merger UnmergedTransactions MergeActionsAccumulator MergeActions PostingMergeAction PendingTransaction TransactionMergeAction HashableTransactionIndex
@pubfields Merger MergeActionsAccumulator MergeActions PostingMergeAction PendingTransaction TransactionMergeAction HashableTransactionIndex
@add 
pub axiom fn ax_key_dest() ensures vstd::std_specs::hash::obeys_key_model::<posting::IndexHashable>();
pub axiom fn ax_key_parent() ensures vstd::std_specs::hash::obeys_key_model::<HashableTransactionIndex>();

pub open spec fn decides(m: posting::IndexedPostings, p: posting::Input, a: Option<PostingMergeAction>) -> bool {
    let c = p.posting.comment;
    let soft = m.soft(p.posting, p.trn_date);
    match a {
        Some(PostingMergeAction::MergeIntoExisting(i)) =>
            if m.any_hit(c) { m.hit(c, i) && forall|j: posting::Index| #[trigger] m.hit(c, j) ==> j == i } else { soft =~= seq![i] },
        Some(PostingMergeAction::New) => !m.any_hit(c) && soft.len() == 0,
        None => !m.any_hit(c) && soft.len() >= 2,
    }
}
/// The posting's fingerprints belong to several existing postings.
pub open spec fn torn(m: posting::IndexedPostings, p: PostingInternal) -> bool {
    exists|i: posting::Index, j: posting::Index| i != j && #[trigger] m.hit(p.comment, i) && #[trigger] m.hit(p.comment, j)
}
/// `t` names the existing posting `i` as a candidate.
pub open spec fn names(m: posting::IndexedPostings, i: posting::Index, t: String) -> bool {
    exists|fp: String| #[trigger] posting::fps(m.arena()[i].posting.comment).contains(fp) && t@ == "candidate-"@ + fp@
}
/// `q` is `p` with one candidate tag per posting of `s`.
pub open spec fn tagged(m: posting::IndexedPostings, p: PostingInternal, s: Seq<posting::Index>, q: PostingInternal) -> bool {
    &&& q.raw == p.raw && q.comment.lines == p.comment.lines && q.comment.value_tags == p.comment.value_tags
    &&& exists|ts: Seq<String>| ts.len() == s.len() && (forall|k: int| 0 <= k < s.len() ==> names(m, s[k], #[trigger] ts[k]))
            && q.comment.tags@ =~= p.comment.tags@.union(#[trigger] ts.to_set())
}
/// Some of the actions combine into a posting of transaction `t`.
pub open spec fn leads(m: posting::IndexedPostings, acts: Seq<(posting::Input, PostingMergeAction)>, t: transaction::Index) -> bool {
    exists|k: int| 0 <= k < acts.len() && (#[trigger] acts[k]).1 is MergeIntoExisting && m.arena()[acts[k].1->MergeIntoExisting_0].parent_trn == t
}
pub open spec fn known(m: posting::IndexedPostings, acts: Seq<(posting::Input, PostingMergeAction)>) -> bool {
    forall|k: int| 0 <= k < acts.len() && (#[trigger] acts[k]).1 is MergeIntoExisting ==> m.arena().contains_key(acts[k].1->MergeIntoExisting_0)
}
/// The actions combine into postings of different transactions.
pub open spec fn scattered(m: posting::IndexedPostings, acts: Seq<(posting::Input, PostingMergeAction)>) -> bool {
    exists|t: transaction::Index, u: transaction::Index| t != u && #[trigger] leads(m, acts, t) && #[trigger] leads(m, acts, u)
}
pub open spec fn all_new(acts: Seq<(posting::Input, PostingMergeAction)>) -> bool { forall|k: int| 0 <= k < acts.len() ==> (#[trigger] acts[k]).1 is New }
pub proof fn lemma_leads(m: posting::IndexedPostings, a: Seq<(posting::Input, PostingMergeAction)>, n: int, s: Set<HashableTransactionIndex>)
    requires 0 <= n < a.len(), forall|t: HashableTransactionIndex| #[trigger] s.contains(t) <==> leads(m, a.take(n), t.0),
    ensures
        !(a[n].1 is MergeIntoExisting) ==> forall|t: HashableTransactionIndex| #[trigger] s.contains(t) <==> leads(m, a.take(n + 1), t.0),
        a[n].1 is MergeIntoExisting ==> forall|t: HashableTransactionIndex|
            #[trigger] s.insert(HashableTransactionIndex(m.arena()[a[n].1->MergeIntoExisting_0].parent_trn)).contains(t) <==> leads(m, a.take(n + 1), t.0),
        n + 1 == a.len() ==> a.take(n + 1) == a,
{
    assert(n + 1 == a.len() ==> a.take(n + 1) =~= a);
    let b = a.take(n); let c = a.take(n + 1);
    assert(c =~= b.push(a[n]));
    assert forall|t: transaction::Index| #[trigger] leads(m, c, t) <==> leads(m, b, t) || a[n].1 is MergeIntoExisting && m.arena()[a[n].1->MergeIntoExisting_0].parent_trn == t by {
        if leads(m, b, t) { let k = choose|k: int| 0 <= k < b.len() && (#[trigger] b[k]).1 is MergeIntoExisting && m.arena()[b[k].1->MergeIntoExisting_0].parent_trn == t; assert(c[k] == b[k]); }
        if leads(m, c, t) { let k = choose|k: int| 0 <= k < c.len() && (#[trigger] c[k]).1 is MergeIntoExisting && m.arena()[c[k].1->MergeIntoExisting_0].parent_trn == t; if k < n { assert(c[k] == b[k]); } }
        assert(c[n] == a[n]);
    }
}
pub proof fn lemma_dest(m: posting::IndexedPostings, a: Seq<(posting::Input, PostingMergeAction)>, s: Set<HashableTransactionIndex>)
    requires forall|t: HashableTransactionIndex| #[trigger] s.contains(t) <==> leads(m, a, t.0),
    ensures
        s.len() <= 1 <==> !scattered(m, a), s.len() == 0 <==> all_new(a),
        s.len() <= 1 ==> forall|t: HashableTransactionIndex, u: transaction::Index| #[trigger] s.contains(t) && #[trigger] leads(m, a, u) ==> t.0 == u,
{
    if s.len() <= 1 {
        assert forall|t: HashableTransactionIndex, u: transaction::Index| #[trigger] s.contains(t) && #[trigger] leads(m, a, u) implies t.0 == u by {
            assert(s.contains(HashableTransactionIndex(u)));
            if t.0 != u {
                let d = set![t, HashableTransactionIndex(u)];
                vstd::set_lib::lemma_len_subset(d, s);
            }
        }
        assert forall|t: transaction::Index, u: transaction::Index| #[trigger] leads(m, a, t) && #[trigger] leads(m, a, u) implies t == u by {
            assert(s.contains(HashableTransactionIndex(t)));
        }
    } else {
        let t = s.choose();
        assert(s.contains(t));
        let r = s.remove(t);
        let u = r.choose();
        assert(r.contains(u) && s.contains(u));
        assert(leads(m, a, t.0) && leads(m, a, u.0) && t.0 != u.0);
    }
    if s.len() == 0 {
        assert forall|k: int| 0 <= k < a.len() implies (#[trigger] a[k]).1 is New by {
            if a[k].1 is MergeIntoExisting {
                let t = m.arena()[a[k].1->MergeIntoExisting_0].parent_trn;
                assert(leads(m, a, t)); assert(s.contains(HashableTransactionIndex(t)));
            }
        }
    } else {
        assert(s.len() != 0);
        assert(s.contains(s.choose()));
        let t = s.choose();
        assert(leads(m, a, t.0));
        let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).1 is MergeIntoExisting && m.arena()[a[k].1->MergeIntoExisting_0].parent_trn == t.0;
        assert(!(a[k].1 is New));
    }
}
/// Where a posting goes, if it goes into an existing one: to the owner of its fingerprints, else to the only one it matches by value.
pub open spec fn joins(m: posting::IndexedPostings, p: PostingInternal, d: chrono::NaiveDate, i: posting::Index) -> bool {
    if m.any_hit(p.comment) { m.hit(p.comment, i) } else { m.soft(p, d) =~= seq![i] }
}
pub open spec fn ambiguous(m: posting::IndexedPostings, p: PostingInternal, d: chrono::NaiveDate) -> bool { !m.any_hit(p.comment) && m.soft(p, d).len() >= 2 }
pub open spec fn undecided(m: posting::IndexedPostings, tp: TransactionPostings, n: int) -> bool {
    exists|k: int| 0 <= k < n && ambiguous(m, #[trigger] tp.posts@[k], tp.trn.raw.date)
}
pub open spec fn in_first(tp: TransactionPostings, n: int, fp: String) -> bool { exists|k: int| 0 <= k < n && posting::fps((#[trigger] tp.posts@[k]).comment).contains(fp) }
/// The input posting k of a transaction cannot be merged.
pub open spec fn bad_at(m: posting::IndexedPostings, tp: TransactionPostings, seen: Set<String>, k: int) -> bool {
    let c = tp.posts@[k].comment;
    ||| !posting::has_fp(c) || posting::has_cand(c)
    ||| exists|fp: String| #[trigger] posting::fps(c).contains(fp) && (seen.contains(fp) || in_first(tp, k, fp))
    ||| torn(m, tp.posts@[k])
}
/// The input transaction has a posting that goes into a posting of transaction `t`.
pub open spec fn aims(m: posting::IndexedPostings, tp: TransactionPostings, t: transaction::Index) -> bool {
    exists|k: int, i: posting::Index| 0 <= k < tp.posts@.len() && #[trigger] joins(m, tp.posts@[k], tp.trn.raw.date, i) && m.arena()[i].parent_trn == t
}
/// The input transaction cannot be merged, given the fingerprints of the input before it.
pub open spec fn refused(m: posting::IndexedPostings, tp: TransactionPostings, seen: Set<String>) -> bool {
    ||| exists|k: int| 0 <= k < tp.posts@.len() && #[trigger] bad_at(m, tp, seen, k)
    ||| !undecided(m, tp, tp.posts@.len() as int) && exists|t: transaction::Index, u: transaction::Index| t != u && #[trigger] aims(m, tp, t) && #[trigger] aims(m, tp, u)
}
/// `qs` are the first postings of `tp`, those that match several existing ones tagged with them.
pub open spec fn left(m: posting::IndexedPostings, tp: TransactionPostings, qs: Seq<PostingInternal>) -> bool {
    forall|k: int| 0 <= k < qs.len() ==> if ambiguous(m, tp.posts@[k], tp.trn.raw.date) { tagged(m, tp.posts@[k], m.soft(tp.posts@[k], tp.trn.raw.date), #[trigger] qs[k]) } else { qs[k] == tp.posts@[k] }
}
pub open spec fn in_posts(v: Seq<posting::Input>) -> Seq<PostingInternal> { Seq::new(v.len(), |k: int| v[k].posting) }
/// `acts` are the first postings of `tp` with what is to become of them.
pub open spec fn decided(m: posting::IndexedPostings, tp: TransactionPostings, acts: Seq<(posting::Input, PostingMergeAction)>) -> bool {
    forall|k: int| 0 <= k < acts.len() ==> (#[trigger] acts[k]).0.posting == tp.posts@[k] && acts[k].0.trn_date == tp.trn.raw.date && posting::is_input(acts[k].0)
        && decides(m, acts[k].0, Some(acts[k].1))
}
pub open spec fn so_far(m: posting::IndexedPostings, tp: TransactionPostings, n: int, a: MergeActions) -> bool {
    match a {
        MergeActions::Actions(v) => v@.len() == n && decided(m, tp, v@) && !undecided(m, tp, n),
        MergeActions::LeaveUnmerged(v) => v@.len() == n && left(m, tp, in_posts(v@)) && undecided(m, tp, n),
    }
}
/// What is to become of an input transaction.
pub open spec fn planned(m: posting::IndexedPostings, tp: TransactionPostings, a: TransactionMergeAction) -> bool {
    match a {
        TransactionMergeAction::LeaveUnmerged(u) => u.trn == tp.trn && u.posts@.len() == tp.posts@.len() && left(m, tp, u.posts@)
            && (undecided(m, tp, tp.posts@.len() as int) || tp.posts@.len() == 0),
        TransactionMergeAction::New(pt) => pt.src_trn.trn == tp.trn && pt.src_trn.postings@.len() == 0 && pt.post_actions@.len() == tp.posts@.len() && tp.posts@.len() > 0
            && decided(m, tp, pt.post_actions@) && all_new(pt.post_actions@),
        TransactionMergeAction::MergeInto { pending_trn: pt, dest_trn } => pt.src_trn.trn == tp.trn && pt.post_actions@.len() == tp.posts@.len()
            && decided(m, tp, pt.post_actions@) && leads(m, pt.post_actions@, dest_trn) && forall|t: transaction::Index| #[trigger] leads(m, pt.post_actions@, t) ==> t == dest_trn,
    }
}
pub proof fn lemma_so_far(m: posting::IndexedPostings, tp: TransactionPostings, n: int, a: MergeActions, p: posting::Input, d: Option<PostingMergeAction>, b: MergeActions)
    requires
        0 <= n < tp.posts@.len(), so_far(m, tp, n, a), acc_step(a, p, d, b),
        p.trn_date == tp.trn.raw.date, posting::is_input(posting::Input { trn_date: p.trn_date, posting: tp.posts@[n] }),
        decides(m, posting::Input { trn_date: p.trn_date, posting: tp.posts@[n] }, d),
        d is Some ==> p.posting == tp.posts@[n],
        d is None ==> tagged(m, tp.posts@[n], m.soft(tp.posts@[n], tp.trn.raw.date), p.posting),
    ensures so_far(m, tp, n + 1, b),
{
    assert(undecided(m, tp, n + 1) <==> undecided(m, tp, n) || d is None) by {
        if d is None { assert(ambiguous(m, tp.posts@[n], tp.trn.raw.date)); }
        if undecided(m, tp, n) { let k = choose|k: int| 0 <= k < n && ambiguous(m, #[trigger] tp.posts@[k], tp.trn.raw.date); assert(ambiguous(m, tp.posts@[k], tp.trn.raw.date)); }
        if d is Some { assert(!ambiguous(m, tp.posts@[n], tp.trn.raw.date)) by { 
            if let Some(PostingMergeAction::MergeIntoExisting(i)) = d { if !m.any_hit(tp.posts@[n].comment) { assert(m.soft(tp.posts@[n], p.trn_date).len() == 1); } } } }
    }
    match b {
        MergeActions::Actions(v) => { assert(decided(m, tp, v@)) by { assert forall|k: int| 0 <= k < v@.len() implies (#[trigger] v@[k]).0.posting == tp.posts@[k] && v@[k].0.trn_date == tp.trn.raw.date && posting::is_input(v@[k].0)
            && decides(m, v@[k].0, Some(v@[k].1)) by { if k < n { assert(a->Actions_0@[k] == v@[k]); } } } },
        MergeActions::LeaveUnmerged(v) => {
            let q = in_posts(v@);
            assert forall|k: int| 0 <= k < q.len() implies if ambiguous(m, tp.posts@[k], tp.trn.raw.date) { tagged(m, tp.posts@[k], m.soft(tp.posts@[k], tp.trn.raw.date), #[trigger] q[k]) } else { q[k] == tp.posts@[k] } by {
                if k < n {
                    if a is LeaveUnmerged { assert(in_posts(a->LeaveUnmerged_0@)[k] == q[k]); }
                    else { let w = a->Actions_0@; assert(firsts(w)[k] == w[k].0); assert(q[k] == w[k].0.posting); assert(!undecided(m, tp, n)); assert(!ambiguous(m, tp.posts@[k], tp.trn.raw.date)); }
                }
                else { assert(q[k] == p.posting); }
            }
        },
    }
}
pub proof fn lemma_aims(m: posting::IndexedPostings, tp: TransactionPostings, acts: Seq<(posting::Input, PostingMergeAction)>)
    requires m.wf(), decided(m, tp, acts), acts.len() == tp.posts@.len(),
    ensures known(m, acts), forall|t: transaction::Index| #![trigger aims(m, tp, t)] #![trigger leads(m, acts, t)] aims(m, tp, t) <==> leads(m, acts, t),
{
    assert forall|k: int, i: posting::Index| 0 <= k < acts.len() implies (#[trigger] joins(m, tp.posts@[k], tp.trn.raw.date, i) <==> acts[k].1 == PostingMergeAction::MergeIntoExisting(i)) by {
        lemma_joins(m, acts[k].0, acts[k].1, i);
    }
    assert forall|k: int| 0 <= k < acts.len() && (#[trigger] acts[k]).1 is MergeIntoExisting implies m.arena().contains_key(acts[k].1->MergeIntoExisting_0) by {
        lemma_joins(m, acts[k].0, acts[k].1, acts[k].1->MergeIntoExisting_0);
    }
    assert forall|t: transaction::Index| aims(m, tp, t) <==> #[trigger] leads(m, acts, t) by {
        if leads(m, acts, t) {
            let k = choose|k: int| 0 <= k < acts.len() && (#[trigger] acts[k]).1 is MergeIntoExisting && m.arena()[acts[k].1->MergeIntoExisting_0].parent_trn == t;
            assert(joins(m, tp.posts@[k], tp.trn.raw.date, acts[k].1->MergeIntoExisting_0));
        }
        if aims(m, tp, t) {
            let (k, i) = choose|k: int, i: posting::Index| 0 <= k < tp.posts@.len() && #[trigger] joins(m, tp.posts@[k], tp.trn.raw.date, i) && m.arena()[i].parent_trn == t;
            assert(acts[k].1 == PostingMergeAction::MergeIntoExisting(i));
        }
    }
}
pub proof fn lemma_joins(m: posting::IndexedPostings, p: posting::Input, a: PostingMergeAction, i: posting::Index)
    requires m.wf(), decides(m, p, Some(a)),
    ensures
        joins(m, p.posting, p.trn_date, i) <==> a == PostingMergeAction::MergeIntoExisting(i),
        joins(m, p.posting, p.trn_date, i) ==> m.arena().contains_key(i),
{
    let c = p.posting.comment;
    let soft = m.soft(p.posting, p.trn_date);
    if let PostingMergeAction::MergeIntoExisting(j) = a {
        if !m.any_hit(c) { assert(soft[0] == j); }
    }
    if joins(m, p.posting, p.trn_date, i) {
        if m.any_hit(c) { assert(m.hit(c, i)); }
        else {
            assert(soft[0] == i);
            lemma_filter(m.on(p.trn_date), |i: posting::Index| posting::is_match(m.arena()[i].posting, p.posting));
            assert(soft.contains(i));
        }
    }
}
pub proof fn lemma_no_postings(m: posting::IndexedPostings, tp: TransactionPostings, seen: Set<String>)
    ensures tp.posts@.len() == 0 ==> !refused(m, tp, seen) && forall|fp: String| !#[trigger] in_first(tp, 0, fp),
{
}
/// What makes posting k unfit, given the fingerprints `s1` of everything before it.
pub proof fn lemma_bad(m: posting::IndexedPostings, tp: TransactionPostings, s0: Set<String>, s1: Set<String>, k: int)
    requires 0 <= k < tp.posts@.len(), forall|fp: String| #[trigger] s1.contains(fp) <==> s0.contains(fp) || in_first(tp, k, fp),
    ensures
        bad_at(m, tp, s0, k) ==> refused(m, tp, s0),
        !posting::has_fp(tp.posts@[k].comment) || posting::has_cand(tp.posts@[k].comment) || torn(m, tp.posts@[k]) ==> bad_at(m, tp, s0, k),
        forall|fp: String| #[trigger] posting::fps(tp.posts@[k].comment).contains(fp) && s1.contains(fp) ==> bad_at(m, tp, s0, k),
        bad_at(m, tp, s0, k) ==> !posting::has_fp(tp.posts@[k].comment) || posting::has_cand(tp.posts@[k].comment) || torn(m, tp.posts@[k])
            || exists|fp: String| #[trigger] posting::fps(tp.posts@[k].comment).contains(fp) && s1.contains(fp),
{
}
pub open spec fn seen_after(s1: Set<String>, f: Set<String>, s2: Set<String>) -> bool {
    &&& forall|fp: String| #[trigger] s2.contains(fp) <==> s1.contains(fp) || f.contains(fp)
    &&& forall|fp: String| #[trigger] f.contains(fp) ==> !s1.contains(fp)
}
pub proof fn lemma_seen(s1: Set<String>, q: Seq<String>, j: int, s: Set<String>, f: Set<String>)
    requires
        0 <= j < q.len(), q.no_duplicates(), q.to_set() =~= f,
        forall|fp: String| #[trigger] s.contains(fp) <==> s1.contains(fp) || q.take(j).contains(fp),
        forall|i: int| 0 <= i < j ==> !s1.contains(#[trigger] q[i]),
    ensures
        f.contains(q[j]),
        s.contains(q[j]) ==> s1.contains(q[j]),
        !s.contains(q[j]) ==> forall|fp: String| #[trigger] s.insert(q[j]).contains(fp) <==> s1.contains(fp) || q.take(j + 1).contains(fp),
        !s.contains(q[j]) && j + 1 == q.len() ==> seen_after(s1, f, s.insert(q[j])),
{
    assert(q.take(j + 1) =~= q.take(j).push(q[j]));
    assert(q.to_set().contains(q[j]));
    assert forall|fp: String| #[trigger] q.take(j + 1).contains(fp) <==> q.take(j).contains(fp) || fp == q[j] by { lemma_push_contains(q.take(j), q[j], fp); }
    if q.take(j).contains(q[j]) { let i = choose|i: int| 0 <= i < j && q.take(j)[i] == q[j]; assert(q[i] == q[j]); }
    if !s.contains(q[j]) && j + 1 == q.len() {
        assert(q.take(j + 1) =~= q);
        assert forall|fp: String| #[trigger] s.insert(q[j]).contains(fp) <==> s1.contains(fp) || f.contains(fp) by {
            assert(q.contains(fp) <==> q.to_set().contains(fp));
        }
        assert forall|fp: String| #[trigger] f.contains(fp) implies !s1.contains(fp) by {
            assert(q.to_set().contains(fp));
            let i = choose|i: int| 0 <= i < q.len() && q[i] == fp;
            if i < j { assert(!s1.contains(q[i])); } else { assert(!s.contains(fp)); }
        }
    }
}
pub proof fn lemma_seen_next(m: posting::IndexedPostings, tp: TransactionPostings, s0: Set<String>, s1: Set<String>, k: int, s2: Set<String>)
    requires
        0 <= k < tp.posts@.len(), forall|fp: String| #[trigger] s1.contains(fp) <==> s0.contains(fp) || in_first(tp, k, fp),
        seen_after(s1, posting::fps(tp.posts@[k].comment), s2),
    ensures forall|fp: String| #[trigger] s2.contains(fp) <==> s0.contains(fp) || in_first(tp, k + 1, fp),
{
    assert forall|fp: String| #[trigger] in_first(tp, k + 1, fp) <==> in_first(tp, k, fp) || posting::fps(tp.posts@[k].comment).contains(fp) by {
        if in_first(tp, k, fp) { let j = choose|j: int| 0 <= j < k && posting::fps((#[trigger] tp.posts@[j]).comment).contains(fp); assert(posting::fps(tp.posts@[j].comment).contains(fp)); }
    }
}
/// The fingerprints of the first k postings of a transaction / of the first n transactions of an input.
pub open spec fn trn_fps(tp: TransactionPostings, k: int) -> Set<String> decreases k {
    if k <= 0 { Set::empty() } else { trn_fps(tp, k - 1).union(posting::fps(tp.posts@[k - 1].comment)) }
}
pub open spec fn before(src: Seq<TransactionPostings>, n: int) -> Set<String> decreases n {
    if n <= 0 { Set::empty() } else { before(src, n - 1).union(trn_fps(src[n - 1], src[n - 1].posts@.len() as int)) }
}
pub proof fn lemma_trn_fps(tp: TransactionPostings, k: int)
    requires 0 <= k <= tp.posts@.len(),
    ensures forall|fp: String| #[trigger] trn_fps(tp, k).contains(fp) <==> in_first(tp, k, fp),
    decreases k,
{
    if k > 0 {
        lemma_trn_fps(tp, k - 1);
        assert forall|fp: String| #[trigger] trn_fps(tp, k).contains(fp) <==> in_first(tp, k, fp) by {
            assert(trn_fps(tp, k) == trn_fps(tp, k - 1).union(posting::fps(tp.posts@[k - 1].comment)));
            if in_first(tp, k - 1, fp) { let j = choose|j: int| 0 <= j < k - 1 && posting::fps((#[trigger] tp.posts@[j]).comment).contains(fp); assert(posting::fps(tp.posts@[j].comment).contains(fp)); }
            if posting::fps(tp.posts@[k - 1].comment).contains(fp) { assert(in_first(tp, k, fp)); }
            if in_first(tp, k, fp) {
                let j = choose|j: int| 0 <= j < k && posting::fps((#[trigger] tp.posts@[j]).comment).contains(fp);
                if j < k - 1 { assert(posting::fps(tp.posts@[j].comment).contains(fp)); assert(in_first(tp, k - 1, fp)); assert(trn_fps(tp, k - 1).contains(fp)); } else { assert(posting::fps(tp.posts@[k - 1].comment).contains(fp)); }
            }
        }
    }
}
/// The existing postings the actions combine input postings into, one entry per input posting.
pub open spec fn trn_targets(acts: Seq<(posting::Input, PostingMergeAction)>, k: int) -> Seq<posting::Index> decreases k {
    if k <= 0 { Seq::empty() } else {
        match acts[k - 1].1 { PostingMergeAction::MergeIntoExisting(i) => trn_targets(acts, k - 1).push(i), PostingMergeAction::New => trn_targets(acts, k - 1) }
    }
}
pub open spec fn targets(pending: Seq<TransactionMergeAction>, n: int) -> Seq<posting::Index> decreases n {
    if n <= 0 { Seq::empty() } else {
        match pending[n - 1] {
            TransactionMergeAction::MergeInto { pending_trn, .. } => targets(pending, n - 1) + trn_targets(pending_trn.post_actions@, pending_trn.post_actions@.len() as int),
            _ => targets(pending, n - 1),
        }
    }
}
pub open spec fn all_known(m: posting::IndexedPostings, pending: Seq<TransactionMergeAction>) -> bool {
    forall|n: int| 0 <= n < pending.len() ==> match #[trigger] pending[n] { TransactionMergeAction::MergeInto { pending_trn, .. } => known(m, pending_trn.post_actions@), _ => true }
}
/// `map` holds, for every posting in `t`, as many input postings as it has entries in `t`.
pub open spec fn counts(map: Map<posting::IndexHashable, Vec<&posting::Input>>, t: Seq<posting::Index>) -> bool {
    forall|h: posting::IndexHashable| #![trigger map.contains_key(h)] #![trigger map[h]]
        (map.contains_key(h) <==> t.contains(h.0)) && (map.contains_key(h) ==> map[h]@.len() == t.to_multiset().count(h.0))
}
pub proof fn lemma_counts(m0: Map<posting::IndexHashable, Vec<&posting::Input>>, t: Seq<posting::Index>, i: posting::Index, m1: Map<posting::IndexHashable, Vec<&posting::Input>>)
    requires
        counts(m0, t),
        m1.contains_key(posting::IndexHashable(i)), m1[posting::IndexHashable(i)]@.len() == (if m0.contains_key(posting::IndexHashable(i)) { m0[posting::IndexHashable(i)]@.len() + 1 } else { 1 }),
        forall|h: posting::IndexHashable| h.0 != i ==> (#[trigger] m1.contains_key(h) <==> m0.contains_key(h)) && (m0.contains_key(h) ==> m1[h] == m0[h]),
    ensures counts(m1, t.push(i)),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    t.to_multiset_ensures();
    t.push(i).to_multiset_ensures();
    assert forall|h: posting::IndexHashable| #![trigger m1.contains_key(h)] #![trigger m1[h]]
        (m1.contains_key(h) <==> t.push(i).contains(h.0)) && (m1.contains_key(h) ==> m1[h]@.len() == t.push(i).to_multiset().count(h.0)) by {
        lemma_push_contains(t, i, h.0);
        if h.0 == i { assert(h == posting::IndexHashable(i)); }
        assert(m0.contains_key(h) || !m0.contains_key(h));
        assert(t.push(i).to_multiset() == t.to_multiset().insert(i));
        assert(!t.contains(h.0) ==> t.to_multiset().count(h.0) == 0);
    }
}
pub proof fn lemma_multiple(map: Map<posting::IndexHashable, Vec<&posting::Input>>, t: Seq<posting::Index>)
    requires counts(map, t),
    ensures
        t.no_duplicates() <==> forall|h: posting::IndexHashable| #[trigger] map.contains_key(h) ==> map[h]@.len() <= 1,
{
    t.to_multiset_ensures();
    if t.no_duplicates() { t.lemma_multiset_has_no_duplicates();
        assert forall|h: posting::IndexHashable| #[trigger] map.contains_key(h) implies map[h]@.len() <= 1 by { assert(t.to_multiset().contains(h.0)); }
    }
    if forall|h: posting::IndexHashable| #[trigger] map.contains_key(h) ==> map[h]@.len() <= 1 {
        assert forall|x: posting::Index| #[trigger] t.to_multiset().contains(x) implies t.to_multiset().count(x) == 1 by {
            assert(t.contains(x));
            assert(map.contains_key(posting::IndexHashable(x)));
        }
        t.lemma_multiset_has_no_duplicates_conv();
    }
}
// ---- what merging does to the store
/// A change of the store: a new transaction, a new posting of a transaction, an input posting combined into an existing one.
pub enum Ev {
    Trn { t: transaction::Index, trn: crate::internal::TransactionInternal },
    New { t: transaction::Index, p: posting::Input, i: posting::Index },
    Into { p: posting::Input, i: posting::Index },
}
pub open spec fn makes(e: Ev, i: posting::Index) -> bool { e is New && e->New_i == i }
pub open spec fn joins_into(e: Ev, i: posting::Index) -> bool { e is Into && e->Into_i == i }
pub open spec fn opens(e: Ev, t: transaction::Index) -> bool { e is Trn && e->Trn_t == t }
pub open spec fn ev_fps(e: Ev) -> Set<String> {
    match e { Ev::New { p, .. } => posting::fps(p.posting.comment), Ev::Into { p, .. } => posting::fps(p.posting.comment), _ => Set::empty() }
}
pub open spec fn any_fp(e: Seq<Ev>, fp: String) -> bool { exists|k: int| 0 <= k < e.len() && (#[trigger] ev_fps(e[k])).contains(fp) }
pub open spec fn any_into(e: Seq<Ev>, i: posting::Index) -> bool { exists|k: int| 0 <= k < e.len() && #[trigger] joins_into(e[k], i) }
pub open spec fn any_makes(e: Seq<Ev>, i: posting::Index) -> bool { exists|k: int| 0 <= k < e.len() && #[trigger] makes(e[k], i) }
pub open spec fn any_opens(e: Seq<Ev>, t: transaction::Index) -> bool { exists|k: int| 0 <= k < e.len() && #[trigger] opens(e[k], t) }
/// The postings / transactions that changes add to a transaction / a date, in order.
pub open spec fn trn_news(e: Seq<Ev>, t: transaction::Index) -> Seq<posting::Index> decreases e.len() {
    if e.len() == 0 { Seq::empty() } else {
        let r = trn_news(e.drop_last(), t);
        if e.last() is New && e.last()->New_t == t { r.push(e.last()->New_i) } else { r }
    }
}
pub open spec fn date_posts(e: Seq<Ev>, d: chrono::NaiveDate) -> Seq<posting::Index> decreases e.len() {
    if e.len() == 0 { Seq::empty() } else {
        let r = date_posts(e.drop_last(), d);
        if e.last() is New && e.last()->New_p.trn_date == d { r.push(e.last()->New_i) } else { r }
    }
}
pub open spec fn date_trns(e: Seq<Ev>, d: chrono::NaiveDate) -> Seq<transaction::Index> decreases e.len() {
    if e.len() == 0 { Seq::empty() } else {
        let r = date_trns(e.drop_last(), d);
        if e.last() is Trn && e.last()->trn.raw.date == d { r.push(e.last()->Trn_t) } else { r }
    }
}
impl Merger {
    pub open spec fn pa(&self) -> Map<posting::Index, posting::Holder> { self.posts.arena() }
    pub open spec fn ta(&self) -> Map<transaction::Index, transaction::Holder> { self.trns.arena() }
    /// Every posting belongs to exactly one transaction, which lists it once.
    pub open spec fn wf(&self) -> bool {
        &&& self.posts.wf() && self.trns.wf()
        &&& forall|i: posting::Index| #[trigger] self.pa().contains_key(i) ==> self.ta().contains_key(self.pa()[i].parent_trn) && self.ta()[self.pa()[i].parent_trn].postings@.contains(i)
        &&& forall|t: transaction::Index, j: int| self.ta().contains_key(t) && 0 <= j < self.ta()[t].postings@.len() ==>
                self.pa().contains_key(#[trigger] self.ta()[t].postings@[j]) && self.pa()[self.ta()[t].postings@[j]].parent_trn == t
        &&& forall|t: transaction::Index| #[trigger] self.ta().contains_key(t) ==> self.ta()[t].postings@.no_duplicates()
    }
    /// `n` is this store after the changes `e`.
    pub open spec fn placed(&self, e: Seq<Ev>, n: Merger) -> bool {
        // postings: the old ones stay, combined with what joins them; the new ones are the ones added
        &&& forall|i: posting::Index| #[trigger] n.pa().contains_key(i) <==> self.pa().contains_key(i) || any_makes(e, i)
        &&& forall|i: posting::Index| #[trigger] self.pa().contains_key(i) ==> !any_makes(e, i) && n.pa()[i].parent_trn == self.pa()[i].parent_trn
        &&& forall|i: posting::Index| #[trigger] self.pa().contains_key(i) && !any_into(e, i) ==> n.pa()[i] == self.pa()[i]
        &&& forall|k: int, i: posting::Index| 0 <= k < e.len() && #[trigger] joins_into(e[k], i) ==> self.pa().contains_key(i) && posting::is_merged(self.pa()[i].posting, e[k]->Into_p.posting, n.pa()[i].posting)
        &&& forall|k: int, i: posting::Index| 0 <= k < e.len() && #[trigger] makes(e[k], i) ==> n.pa()[i].posting == e[k]->New_p.posting && n.pa()[i].parent_trn == e[k]->New_t
        &&& forall|k: int, l: int, i: posting::Index| 0 <= k < l < e.len() && #[trigger] makes(e[k], i) ==> !#[trigger] makes(e[l], i)
        &&& forall|k: int, l: int, i: posting::Index| 0 <= k < l < e.len() && #[trigger] joins_into(e[k], i) ==> !#[trigger] joins_into(e[l], i)
        // transactions: likewise; their postings are the old ones and then the added ones, in order
        &&& forall|t: transaction::Index| #[trigger] n.ta().contains_key(t) <==> self.ta().contains_key(t) || any_opens(e, t)
        &&& forall|t: transaction::Index| #[trigger] self.ta().contains_key(t) ==> !any_opens(e, t) && n.ta()[t].trn == self.ta()[t].trn && n.ta()[t].postings@ =~= self.ta()[t].postings@ + trn_news(e, t)
        &&& forall|k: int, t: transaction::Index| 0 <= k < e.len() && #[trigger] opens(e[k], t) ==> n.ta()[t].trn == e[k]->trn && n.ta()[t].postings@ =~= trn_news(e, t)
        // the indices
        &&& forall|d: chrono::NaiveDate| #[trigger] n.posts.on(d) =~= self.posts.on(d) + date_posts(e, d)
        &&& forall|d: chrono::NaiveDate| #[trigger] n.trns.on(d) =~= self.trns.on(d) + date_trns(e, d)
        &&& forall|fp: String| #[trigger] n.posts.fpx().contains_key(fp) <==> self.posts.fpx().contains_key(fp) || any_fp(e, fp)
        &&& forall|fp: String| #[trigger] self.posts.fpx().contains_key(fp) ==> n.posts.fpx()[fp] == self.posts.fpx()[fp]
    }
}
pub proof fn lemma_any(a: Seq<Ev>, b: Seq<Ev>)
    ensures
        forall|fp: String| #[trigger] any_fp(a + b, fp) <==> any_fp(a, fp) || any_fp(b, fp),
        forall|i: posting::Index| #[trigger] any_into(a + b, i) <==> any_into(a, i) || any_into(b, i),
        forall|i: posting::Index| #[trigger] any_makes(a + b, i) <==> any_makes(a, i) || any_makes(b, i),
        forall|t: transaction::Index| #[trigger] any_opens(a + b, t) <==> any_opens(a, t) || any_opens(b, t),
{
    let c = a + b;
    assert forall|k: int| 0 <= k < a.len() implies #[trigger] a[k] == c[k] by {}
    assert forall|k: int| 0 <= k < b.len() implies #[trigger] b[k] == c[a.len() + k] by {}
    assert forall|k: int| 0 <= k < c.len() implies #[trigger] c[k] == (if k < a.len() { a[k] } else { b[k - a.len()] }) by {}
    assert forall|fp: String| #[trigger] any_fp(c, fp) <==> any_fp(a, fp) || any_fp(b, fp) by {
        if any_fp(a, fp) { let k = choose|k: int| 0 <= k < a.len() && (#[trigger] ev_fps(a[k])).contains(fp); assert(ev_fps(c[k]).contains(fp)); }
        if any_fp(b, fp) { let k = choose|k: int| 0 <= k < b.len() && (#[trigger] ev_fps(b[k])).contains(fp); assert(ev_fps(c[a.len() + k]).contains(fp)); }
        if any_fp(c, fp) { let k = choose|k: int| 0 <= k < c.len() && (#[trigger] ev_fps(c[k])).contains(fp); if k < a.len() { assert(ev_fps(a[k]).contains(fp)); } else { assert(ev_fps(b[k - a.len()]).contains(fp)); } }
    }
    assert forall|i: posting::Index| #[trigger] any_into(c, i) <==> any_into(a, i) || any_into(b, i) by {
        if any_into(a, i) { let k = choose|k: int| 0 <= k < a.len() && #[trigger] joins_into(a[k], i); assert(joins_into(c[k], i)); }
        if any_into(b, i) { let k = choose|k: int| 0 <= k < b.len() && #[trigger] joins_into(b[k], i); assert(joins_into(c[a.len() + k], i)); }
        if any_into(c, i) { let k = choose|k: int| 0 <= k < c.len() && #[trigger] joins_into(c[k], i); if k < a.len() { assert(joins_into(a[k], i)); } else { assert(joins_into(b[k - a.len()], i)); } }
    }
    assert forall|i: posting::Index| #[trigger] any_makes(c, i) <==> any_makes(a, i) || any_makes(b, i) by {
        if any_makes(a, i) { let k = choose|k: int| 0 <= k < a.len() && #[trigger] makes(a[k], i); assert(makes(c[k], i)); }
        if any_makes(b, i) { let k = choose|k: int| 0 <= k < b.len() && #[trigger] makes(b[k], i); assert(makes(c[a.len() + k], i)); }
        if any_makes(c, i) { let k = choose|k: int| 0 <= k < c.len() && #[trigger] makes(c[k], i); if k < a.len() { assert(makes(a[k], i)); } else { assert(makes(b[k - a.len()], i)); } }
    }
    assert forall|t: transaction::Index| #[trigger] any_opens(c, t) <==> any_opens(a, t) || any_opens(b, t) by {
        if any_opens(a, t) { let k = choose|k: int| 0 <= k < a.len() && #[trigger] opens(a[k], t); assert(opens(c[k], t)); }
        if any_opens(b, t) { let k = choose|k: int| 0 <= k < b.len() && #[trigger] opens(b[k], t); assert(opens(c[a.len() + k], t)); }
        if any_opens(c, t) { let k = choose|k: int| 0 <= k < c.len() && #[trigger] opens(c[k], t); if k < a.len() { assert(opens(a[k], t)); } else { assert(opens(b[k - a.len()], t)); } }
    }
}
pub proof fn lemma_news(a: Seq<Ev>, b: Seq<Ev>)
    ensures
        forall|t: transaction::Index| #[trigger] trn_news(a + b, t) == trn_news(a, t) + trn_news(b, t),
        forall|d: chrono::NaiveDate| #[trigger] date_posts(a + b, d) == date_posts(a, d) + date_posts(b, d),
        forall|d: chrono::NaiveDate| #[trigger] date_trns(a + b, d) == date_trns(a, d) + date_trns(b, d),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert forall|t: transaction::Index| #[trigger] trn_news(a + b, t) == trn_news(a, t) + trn_news(b, t) by { assert(trn_news(a, t) + trn_news(b, t) =~= trn_news(a, t)); }
        assert forall|d: chrono::NaiveDate| #[trigger] date_posts(a + b, d) == date_posts(a, d) + date_posts(b, d) by { assert(date_posts(a, d) + date_posts(b, d) =~= date_posts(a, d)); }
        assert forall|d: chrono::NaiveDate| #[trigger] date_trns(a + b, d) == date_trns(a, d) + date_trns(b, d) by { assert(date_trns(a, d) + date_trns(b, d) =~= date_trns(a, d)); }
    } else {
        let c = b.drop_last();
        lemma_news(a, c);
        assert((a + b).drop_last() =~= a + c);
        assert((a + b).last() == b.last());
        assert forall|t: transaction::Index| #[trigger] trn_news(a + b, t) == trn_news(a, t) + trn_news(b, t) by {
            assert(trn_news(a + c, t) == trn_news(a, t) + trn_news(c, t));
            assert(trn_news(a + b, t) =~= trn_news(a, t) + trn_news(b, t));
        }
        assert forall|d: chrono::NaiveDate| #[trigger] date_posts(a + b, d) == date_posts(a, d) + date_posts(b, d) by {
            assert(date_posts(a + c, d) == date_posts(a, d) + date_posts(c, d));
            assert(date_posts(a + b, d) =~= date_posts(a, d) + date_posts(b, d));
        }
        assert forall|d: chrono::NaiveDate| #[trigger] date_trns(a + b, d) == date_trns(a, d) + date_trns(b, d) by {
            assert(date_trns(a + c, d) == date_trns(a, d) + date_trns(c, d));
            assert(date_trns(a + b, d) =~= date_trns(a, d) + date_trns(b, d));
        }
    }
}
/// A transaction opened later has no postings from before.
pub proof fn lemma_no_news(o: Merger, e: Seq<Ev>, n: Merger, t: transaction::Index)
    requires n.wf(), o.placed(e, n), !n.ta().contains_key(t),
    ensures trn_news(e, t) =~= Seq::<posting::Index>::empty(),
{
    lemma_news_none(e, t);
    if trn_news(e, t).len() > 0 {
        let k = choose|k: int| 0 <= k < e.len() && (#[trigger] e[k]) is New && e[k]->New_t == t;
        let i = e[k]->New_i;
        assert(makes(e[k], i));
        assert(any_makes(e, i));
        assert(n.pa().contains_key(i));
    }
}
pub proof fn lemma_news_none(e: Seq<Ev>, t: transaction::Index)
    ensures trn_news(e, t).len() > 0 ==> exists|k: int| 0 <= k < e.len() && (#[trigger] e[k]) is New && e[k]->New_t == t,
    decreases e.len(),
{
    if e.len() > 0 {
        lemma_news_none(e.drop_last(), t);
        if trn_news(e.drop_last(), t).len() > 0 {
            let k = choose|k: int| 0 <= k < e.drop_last().len() && (#[trigger] e.drop_last()[k]) is New && e.drop_last()[k]->New_t == t;
            assert(e[k] == e.drop_last()[k]);
        }
        assert(e.last() == e[e.len() - 1]);
    }
}
/// Changes one after the other.
pub proof fn lemma_placed(o: Merger, a: Seq<Ev>, m: Merger, b: Seq<Ev>, n: Merger)
    requires
        m.wf(), o.placed(a, m), m.placed(b, n),
        forall|i: posting::Index| #[trigger] any_into(b, i) ==> o.pa().contains_key(i) && !any_into(a, i),
    ensures o.placed(a + b, n),
{
    let c = a + b;
    lemma_any(a, b);
    lemma_news(a, b);
    assert forall|k: int| 0 <= k < c.len() implies #[trigger] c[k] == (if k < a.len() { a[k] } else { b[k - a.len()] }) by {}
    assert forall|k: int, i: posting::Index| 0 <= k < c.len() && #[trigger] joins_into(c[k], i) implies o.pa().contains_key(i) && posting::is_merged(o.pa()[i].posting, c[k]->Into_p.posting, n.pa()[i].posting) by {
        if k < a.len() { assert(joins_into(a[k], i)); assert(any_into(a, i)); assert(!any_into(b, i)); assert(m.pa().contains_key(i)); }
        else { assert(joins_into(b[k - a.len()], i)); assert(any_into(b, i)); assert(o.pa().contains_key(i)); assert(m.pa()[i] == o.pa()[i]); }
    }
    assert forall|k: int, i: posting::Index| 0 <= k < c.len() && #[trigger] makes(c[k], i) implies n.pa()[i].posting == c[k]->New_p.posting && n.pa()[i].parent_trn == c[k]->New_t by {
        if k < a.len() { assert(makes(a[k], i)); assert(any_makes(a, i)); assert(m.pa().contains_key(i)); assert(!any_into(b, i)); }
        else { assert(makes(b[k - a.len()], i)); }
    }
    assert forall|k: int, l: int, i: posting::Index| 0 <= k < l < c.len() && #[trigger] makes(c[k], i) implies !#[trigger] makes(c[l], i) by {
        if makes(c[l], i) {
            if l < a.len() { assert(makes(a[k], i) && makes(a[l], i)); }
            else if k >= a.len() { assert(makes(b[k - a.len()], i) && makes(b[l - a.len()], i)); }
            else { assert(makes(a[k], i)); assert(any_makes(a, i)); assert(m.pa().contains_key(i)); assert(makes(b[l - a.len()], i)); assert(any_makes(b, i)); }
        }
    }
    assert forall|k: int, l: int, i: posting::Index| 0 <= k < l < c.len() && #[trigger] joins_into(c[k], i) implies !#[trigger] joins_into(c[l], i) by {
        if joins_into(c[l], i) {
            if l < a.len() { assert(joins_into(a[k], i) && joins_into(a[l], i)); }
            else if k >= a.len() { assert(joins_into(b[k - a.len()], i) && joins_into(b[l - a.len()], i)); }
            else { assert(joins_into(a[k], i)); assert(any_into(a, i)); assert(joins_into(b[l - a.len()], i)); assert(any_into(b, i)); }
        }
    }
    assert forall|t: transaction::Index| #[trigger] o.ta().contains_key(t) implies !any_opens(c, t) && n.ta()[t].trn == o.ta()[t].trn && n.ta()[t].postings@ =~= o.ta()[t].postings@ + trn_news(c, t) by {
        assert(m.ta().contains_key(t));
        assert(n.ta()[t].postings@ =~= m.ta()[t].postings@ + trn_news(b, t));
    }
    assert forall|k: int, t: transaction::Index| 0 <= k < c.len() && #[trigger] opens(c[k], t) implies n.ta()[t].trn == c[k]->trn && n.ta()[t].postings@ =~= trn_news(c, t) by {
        if k < a.len() { assert(opens(a[k], t)); assert(any_opens(a, t)); assert(m.ta().contains_key(t)); }
        else {
            assert(opens(b[k - a.len()], t)); assert(any_opens(b, t));
            assert(!m.ta().contains_key(t));
            lemma_no_news(o, a, m, t);
        }
    }
    assert forall|d: chrono::NaiveDate| #[trigger] n.posts.on(d) =~= o.posts.on(d) + date_posts(c, d) by { assert(m.posts.on(d) =~= o.posts.on(d) + date_posts(a, d)); }
    assert forall|d: chrono::NaiveDate| #[trigger] n.trns.on(d) =~= o.trns.on(d) + date_trns(c, d) by { assert(m.trns.on(d) =~= o.trns.on(d) + date_trns(a, d)); }
    assert forall|i: posting::Index| #[trigger] o.pa().contains_key(i) implies !any_makes(c, i) && n.pa()[i].parent_trn == o.pa()[i].parent_trn by { assert(m.pa().contains_key(i)); }
    assert forall|i: posting::Index| #[trigger] o.pa().contains_key(i) && !any_into(c, i) implies n.pa()[i] == o.pa()[i] by { assert(m.pa().contains_key(i)); }
    assert forall|i: posting::Index| #[trigger] n.pa().contains_key(i) <==> o.pa().contains_key(i) || any_makes(c, i) by { assert(m.pa().contains_key(i) || !m.pa().contains_key(i)); }
    assert forall|t: transaction::Index| #[trigger] n.ta().contains_key(t) <==> o.ta().contains_key(t) || any_opens(c, t) by { assert(m.ta().contains_key(t) || !m.ta().contains_key(t)); }
    assert forall|fp: String| #[trigger] n.posts.fpx().contains_key(fp) <==> o.posts.fpx().contains_key(fp) || any_fp(c, fp) by { assert(m.posts.fpx().contains_key(fp) || !m.posts.fpx().contains_key(fp)); }
    assert forall|fp: String| #[trigger] o.posts.fpx().contains_key(fp) implies n.posts.fpx()[fp] == o.posts.fpx()[fp] by { assert(m.posts.fpx().contains_key(fp)); }
}
/// One change.
pub proof fn lemma_one(x: Ev)
    ensures
        forall|fp: String| #[trigger] any_fp(seq![x], fp) <==> ev_fps(x).contains(fp),
        forall|i: posting::Index| #[trigger] any_into(seq![x], i) <==> joins_into(x, i),
        forall|i: posting::Index| #[trigger] any_makes(seq![x], i) <==> makes(x, i),
        forall|t: transaction::Index| #[trigger] any_opens(seq![x], t) <==> opens(x, t),
        forall|t: transaction::Index| #[trigger] trn_news(seq![x], t) =~= (if x is New && x->New_t == t { seq![x->New_i] } else { Seq::empty() }),
        forall|d: chrono::NaiveDate| #[trigger] date_posts(seq![x], d) =~= (if x is New && x->New_p.trn_date == d { seq![x->New_i] } else { Seq::empty() }),
        forall|d: chrono::NaiveDate| #[trigger] date_trns(seq![x], d) =~= (if x is Trn && x->trn.raw.date == d { seq![x->Trn_t] } else { Seq::empty() }),
{
    let e = seq![x];
    assert(e[0] == x && e.last() == x && e.drop_last() =~= Seq::empty());
    assert forall|fp: String| #[trigger] any_fp(e, fp) <==> ev_fps(x).contains(fp) by { if ev_fps(x).contains(fp) { assert(ev_fps(e[0]).contains(fp)); } }
    assert forall|i: posting::Index| #[trigger] any_into(e, i) <==> joins_into(x, i) by { if joins_into(x, i) { assert(joins_into(e[0], i)); } }
    assert forall|i: posting::Index| #[trigger] any_makes(e, i) <==> makes(x, i) by { if makes(x, i) { assert(makes(e[0], i)); } }
    assert forall|t: transaction::Index| #[trigger] any_opens(e, t) <==> opens(x, t) by { if opens(x, t) { assert(opens(e[0], t)); } }
    assert forall|t: transaction::Index| #[trigger] trn_news(e, t) =~= (if x is New && x->New_t == t { seq![x->New_i] } else { Seq::empty() }) by { assert(trn_news(e.drop_last(), t).len() == 0); }
    assert forall|d: chrono::NaiveDate| #[trigger] date_posts(e, d) =~= (if x is New && x->New_p.trn_date == d { seq![x->New_i] } else { Seq::empty() }) by { assert(date_posts(e.drop_last(), d).len() == 0); }
    assert forall|d: chrono::NaiveDate| #[trigger] date_trns(e, d) =~= (if x is Trn && x->trn.raw.date == d { seq![x->Trn_t] } else { Seq::empty() }) by { assert(date_trns(e.drop_last(), d).len() == 0); }
}
pub proof fn lemma_step_new(o: Merger, p: posting::Input, t: transaction::Index, i: posting::Index, n: Merger)
    requires
        o.wf(), o.ta().contains_key(t), o.posts.added(p, t, i, n.posts), n.posts.wf(), n.trns.wf(), !o.posts.any_hit(p.posting.comment),
        n.ta().dom() =~= o.ta().dom(),
        forall|u: transaction::Index| #[trigger] o.ta().contains_key(u) && u != t ==> n.ta()[u] == o.ta()[u],
        n.ta()[t].trn == o.ta()[t].trn, n.ta()[t].postings@ == o.ta()[t].postings@.push(i),
        forall|d: chrono::NaiveDate| #[trigger] n.trns.on(d) == o.trns.on(d),
    ensures n.wf(), o.placed(seq![Ev::New { t, p, i }], n),
{
    let x = Ev::New { t, p, i }; let e = seq![x];
    lemma_one(x);
    assert(e[0] == x);
    assert forall|u: transaction::Index| #[trigger] o.ta().contains_key(u) implies !any_opens(e, u) && n.ta()[u].trn == o.ta()[u].trn && n.ta()[u].postings@ =~= o.ta()[u].postings@ + trn_news(e, u) by {
        assert(n.ta().contains_key(u));
    }
    assert forall|j: posting::Index| #[trigger] n.pa().contains_key(j) implies n.ta().contains_key(n.pa()[j].parent_trn) && n.ta()[n.pa()[j].parent_trn].postings@.contains(j) by {
        let u = n.pa()[j].parent_trn;
        if j == i { assert(n.ta()[t].postings@.last() == i); }
        else {
            assert(o.pa().contains_key(j));
            assert(o.ta()[u].postings@.contains(j));
            if u == t { lemma_push_contains(o.ta()[t].postings@, i, j); }
        }
    }
    assert forall|u: transaction::Index, j: int| n.ta().contains_key(u) && 0 <= j < n.ta()[u].postings@.len() implies
            n.pa().contains_key(#[trigger] n.ta()[u].postings@[j]) && n.pa()[n.ta()[u].postings@[j]].parent_trn == u by {
        assert(o.ta().contains_key(u));
        if j < o.ta()[u].postings@.len() { assert(n.ta()[u].postings@[j] == o.ta()[u].postings@[j]); assert(o.pa().contains_key(o.ta()[u].postings@[j])); }
    }
    assert forall|u: transaction::Index| #[trigger] n.ta().contains_key(u) implies n.ta()[u].postings@.no_duplicates() by {
        assert(o.ta().contains_key(u));
        if u == t && o.ta()[t].postings@.contains(i) { let j = choose|j: int| 0 <= j < o.ta()[t].postings@.len() && o.ta()[t].postings@[j] == i; assert(o.pa().contains_key(o.ta()[t].postings@[j])); }
    }
    assert forall|fp: String| #[trigger] o.posts.fpx().contains_key(fp) implies n.posts.fpx()[fp] == o.posts.fpx()[fp] by { assert(n.posts.fpx().contains_key(fp)); }
    assert forall|d: chrono::NaiveDate| #[trigger] n.posts.on(d) =~= o.posts.on(d) + date_posts(e, d) by {}
    assert forall|d: chrono::NaiveDate| #[trigger] n.trns.on(d) =~= o.trns.on(d) + date_trns(e, d) by {}
    assert forall|j: posting::Index| #[trigger] n.pa().contains_key(j) <==> o.pa().contains_key(j) || any_makes(e, j) by {}
    assert forall|u: transaction::Index| #[trigger] n.ta().contains_key(u) <==> o.ta().contains_key(u) || any_opens(e, u) by {}
}
pub proof fn lemma_step_into(o: Merger, p: posting::Input, i: posting::Index, n: Merger)
    requires o.wf(), o.pa().contains_key(i), o.posts.combined(p, i, n.posts), n.posts.wf(), n.trns == o.trns,
    ensures n.wf(), o.placed(seq![Ev::Into { p, i }], n),
{
    let x = Ev::Into { p, i }; let e = seq![x];
    lemma_one(x);
    assert(e[0] == x);
    assert forall|j: posting::Index| #[trigger] o.pa().contains_key(j) implies n.pa().contains_key(j) && n.pa()[j].parent_trn == o.pa()[j].parent_trn by {}
    assert forall|j: posting::Index| #[trigger] n.pa().contains_key(j) implies n.ta().contains_key(n.pa()[j].parent_trn) && n.ta()[n.pa()[j].parent_trn].postings@.contains(j) by { assert(o.pa().contains_key(j)); }
    assert forall|u: transaction::Index, j: int| n.ta().contains_key(u) && 0 <= j < n.ta()[u].postings@.len() implies
            n.pa().contains_key(#[trigger] n.ta()[u].postings@[j]) && n.pa()[n.ta()[u].postings@[j]].parent_trn == u by { assert(o.pa().contains_key(o.ta()[u].postings@[j])); }
    assert forall|u: transaction::Index| #[trigger] n.ta().contains_key(u) implies n.ta()[u].postings@.no_duplicates() by { assert(o.ta().contains_key(u)); }
    assert forall|fp: String| #[trigger] o.posts.fpx().contains_key(fp) implies n.posts.fpx()[fp] == o.posts.fpx()[fp] by { assert(n.posts.fpx().contains_key(fp)); }
    assert forall|d: chrono::NaiveDate| #[trigger] n.posts.on(d) =~= o.posts.on(d) + date_posts(e, d) by {}
    assert forall|d: chrono::NaiveDate| #[trigger] n.trns.on(d) =~= o.trns.on(d) + date_trns(e, d) by {}
    assert forall|u: transaction::Index| #[trigger] o.ta().contains_key(u) implies !any_opens(e, u) && n.ta()[u].trn == o.ta()[u].trn && n.ta()[u].postings@ =~= o.ta()[u].postings@ + trn_news(e, u) by {}
}
pub proof fn lemma_step_trn(o: Merger, h: transaction::Holder, t: transaction::Index, n: Merger)
    requires
        o.wf(), n.posts == o.posts, n.trns.wf(), h.postings@.len() == 0, !o.ta().contains_key(t), n.ta() == o.ta().insert(t, h),
        forall|d: chrono::NaiveDate| #[trigger] n.trns.on(d) =~= (if d == h.trn.raw.date { o.trns.on(d).push(t) } else { o.trns.on(d) }),
    ensures n.wf(), o.placed(seq![Ev::Trn { t, trn: h.trn }], n),
{
    let x = Ev::Trn { t, trn: h.trn }; let e = seq![x];
    lemma_one(x);
    assert(e[0] == x);
    assert forall|u: transaction::Index| #[trigger] o.ta().contains_key(u) implies n.ta()[u] == o.ta()[u] && n.ta().contains_key(u) by {}
    assert forall|j: posting::Index| #[trigger] n.pa().contains_key(j) implies n.ta().contains_key(n.pa()[j].parent_trn) && n.ta()[n.pa()[j].parent_trn].postings@.contains(j) by { assert(o.pa().contains_key(j)); }
    assert forall|u: transaction::Index, j: int| n.ta().contains_key(u) && 0 <= j < n.ta()[u].postings@.len() implies
            n.pa().contains_key(#[trigger] n.ta()[u].postings@[j]) && n.pa()[n.ta()[u].postings@[j]].parent_trn == u by { if u != t { assert(o.pa().contains_key(o.ta()[u].postings@[j])); } }
    assert forall|u: transaction::Index| #[trigger] n.ta().contains_key(u) implies n.ta()[u].postings@.no_duplicates() by { if u != t { assert(o.ta().contains_key(u)); } }
    assert forall|d: chrono::NaiveDate| #[trigger] n.posts.on(d) =~= o.posts.on(d) + date_posts(e, d) by {}
    assert forall|d: chrono::NaiveDate| #[trigger] n.trns.on(d) =~= o.trns.on(d) + date_trns(e, d) by {}
}
pub proof fn lemma_none(o: Merger)
    ensures o.placed(Seq::empty(), o),
{
    let e = Seq::<Ev>::empty();
    assert forall|d: chrono::NaiveDate| #[trigger] o.posts.on(d) =~= o.posts.on(d) + date_posts(e, d) by {}
    assert forall|d: chrono::NaiveDate| #[trigger] o.trns.on(d) =~= o.trns.on(d) + date_trns(e, d) by {}
    assert forall|i: posting::Index| !#[trigger] any_makes(e, i) by {}
    assert forall|i: transaction::Index| !#[trigger] any_opens(e, i) by {}
    assert forall|u: transaction::Index| #[trigger] o.ta().contains_key(u) implies o.ta()[u].postings@ =~= o.ta()[u].postings@ + trn_news(e, u) by {}
}
// ---- which plans can be carried out
/// The action can be carried out on the store.
pub open spec fn fit(m: posting::IndexedPostings, a: (posting::Input, PostingMergeAction)) -> bool {
    &&& posting::is_input(a.0)
    &&& match a.1 {
        PostingMergeAction::New => !m.any_hit(a.0.posting.comment),
        PostingMergeAction::MergeIntoExisting(i) => m.arena().contains_key(i) && forall|j: posting::Index| #[trigger] m.hit(a.0.posting.comment, j) ==> j == i,
    }
}
pub open spec fn act_fps(a: (posting::Input, PostingMergeAction)) -> Set<String> { posting::fps(a.0.posting.comment) }
pub open spec fn fits(m: posting::IndexedPostings, acts: Seq<(posting::Input, PostingMergeAction)>) -> bool {
    &&& forall|k: int| 0 <= k < acts.len() ==> fit(m, #[trigger] acts[k])
    &&& forall|k: int, l: int, fp: String| 0 <= k < l < acts.len() && #[trigger] act_fps(acts[k]).contains(fp) ==> !#[trigger] act_fps(acts[l]).contains(fp)
    &&& forall|k: int, l: int| 0 <= k < l < acts.len() && (#[trigger] acts[k]).1 is MergeIntoExisting ==> (#[trigger] acts[l]).1 != acts[k].1
}
/// The changes that carry out the action / the actions on the postings of transaction `t`.
pub open spec fn does(t: transaction::Index, a: (posting::Input, PostingMergeAction), e: Ev) -> bool {
    match a.1 {
        PostingMergeAction::New => e is New && e->New_t == t && e->New_p == a.0,
        PostingMergeAction::MergeIntoExisting(i) => e == (Ev::Into { p: a.0, i }),
    }
}
pub open spec fn carries(t: transaction::Index, acts: Seq<(posting::Input, PostingMergeAction)>, e: Seq<Ev>) -> bool {
    e.len() == acts.len() && forall|k: int| 0 <= k < acts.len() ==> does(t, #[trigger] acts[k], e[k])
}
/// An action that fits the store still fits it after changes that involve neither its fingerprints.
pub proof fn lemma_fit(o: Merger, e: Seq<Ev>, n: Merger, a: (posting::Input, PostingMergeAction))
    requires o.placed(e, n), fit(o.posts, a), forall|fp: String| #[trigger] any_fp(e, fp) ==> !act_fps(a).contains(fp),
    ensures fit(n.posts, a),
{
    let c = a.0.posting.comment;
    assert forall|j: posting::Index| #[trigger] n.posts.hit(c, j) implies o.posts.hit(c, j) by {
        let fp = choose|fp: String| #[trigger] posting::fps(c).contains(fp) && n.posts.fpx().contains_key(fp) && n.posts.fpx()[fp] == j;
        assert(!any_fp(e, fp));
        assert(o.posts.fpx().contains_key(fp));
    }
    if let PostingMergeAction::MergeIntoExisting(i) = a.1 { assert(o.pa().contains_key(i)); assert(n.pa().contains_key(i)); }
}
/// The next action of a transaction, once the ones before it are carried out.
pub proof fn lemma_next(o: Merger, t: transaction::Index, acts: Seq<(posting::Input, PostingMergeAction)>, k: int, e: Seq<Ev>, n: Merger)
    requires 0 <= k < acts.len(), fits(o.posts, acts), carries(t, acts.take(k), e), o.placed(e, n),
    ensures
        fit(n.posts, acts[k]),
        acts[k].1 is MergeIntoExisting ==> o.pa().contains_key(acts[k].1->MergeIntoExisting_0) && !any_into(e, acts[k].1->MergeIntoExisting_0),
{
    let a = acts.take(k);
    assert forall|j: int| 0 <= j < k implies #[trigger] ev_fps(e[j]) == act_fps(acts[j]) by { assert(a[j] == acts[j]); assert(does(t, a[j], e[j])); }
    assert forall|fp: String| #[trigger] any_fp(e, fp) implies !act_fps(acts[k]).contains(fp) by {
        let j = choose|j: int| 0 <= j < e.len() && (#[trigger] ev_fps(e[j])).contains(fp);
        assert(act_fps(acts[j]).contains(fp));
    }
    lemma_fit(o, e, n, acts[k]);
    if acts[k].1 is MergeIntoExisting {
        let i = acts[k].1->MergeIntoExisting_0;
        if any_into(e, i) {
            let j = choose|j: int| 0 <= j < e.len() && #[trigger] joins_into(e[j], i);
            assert(a[j] == acts[j]); assert(does(t, a[j], e[j]));
            assert(acts[j].1 is MergeIntoExisting);
            assert(acts[j].1 != acts[k].1);
        }
    }
}
pub proof fn lemma_carried(o: Merger, t: transaction::Index, acts: Seq<(posting::Input, PostingMergeAction)>, k: int, e: Seq<Ev>, m: Merger, x: Ev, n: Merger)
    requires
        0 <= k < acts.len(), carries(t, acts.take(k), e), o.placed(e, m), m.wf(), does(t, acts[k], x), m.placed(seq![x], n),
        acts[k].1 is MergeIntoExisting ==> o.pa().contains_key(acts[k].1->MergeIntoExisting_0) && !any_into(e, acts[k].1->MergeIntoExisting_0),
    ensures o.placed(e.push(x), n), carries(t, acts.take(k + 1), e.push(x)), k + 1 == acts.len() ==> acts.take(k + 1) == acts,
{
    lemma_one(x);
    assert(e.push(x) =~= e + seq![x]);
    lemma_placed(o, e, m, seq![x], n);
    assert(k + 1 == acts.len() ==> acts.take(k + 1) =~= acts);
    assert forall|j: int| 0 <= j < k + 1 implies does(t, #[trigger] acts.take(k + 1)[j], e.push(x)[j]) by { if j < k { assert(acts.take(k)[j] == acts[j]); assert(does(t, acts.take(k)[j], e[j])); } }
}
pub open spec fn acts_of(a: TransactionMergeAction) -> Seq<(posting::Input, PostingMergeAction)> {
    match a {
        TransactionMergeAction::New(pt) => pt.post_actions@,
        TransactionMergeAction::MergeInto { pending_trn, .. } => pending_trn.post_actions@,
        TransactionMergeAction::LeaveUnmerged(_) => Seq::empty(),
    }
}
pub open spec fn plan_fp(a: TransactionMergeAction, fp: String) -> bool { exists|k: int| 0 <= k < acts_of(a).len() && #[trigger] act_fps(acts_of(a)[k]).contains(fp) }
pub open spec fn plan_into(a: TransactionMergeAction, i: posting::Index) -> bool { exists|k: int| 0 <= k < acts_of(a).len() && (#[trigger] acts_of(a)[k]).1 == PostingMergeAction::MergeIntoExisting(i) }
/// A plan that can be carried out on the store.
pub open spec fn feasible(m: Merger, pending: Seq<TransactionMergeAction>) -> bool {
    &&& forall|n: int| 0 <= n < pending.len() ==> fits(m.posts, acts_of(#[trigger] pending[n]))
    &&& forall|n: int| 0 <= n < pending.len() ==> match #[trigger] pending[n] {
            TransactionMergeAction::New(pt) => pt.src_trn.postings@.len() == 0,
            TransactionMergeAction::MergeInto { dest_trn, .. } => m.ta().contains_key(dest_trn),
            TransactionMergeAction::LeaveUnmerged(_) => true,
        }
    &&& forall|a: int, b: int, fp: String| 0 <= a < b < pending.len() && #[trigger] plan_fp(pending[a], fp) ==> !#[trigger] plan_fp(pending[b], fp)
    &&& forall|a: int, b: int, i: posting::Index| 0 <= a < b < pending.len() && #[trigger] plan_into(pending[a], i) ==> !#[trigger] plan_into(pending[b], i)
}
/// The changes that carry out what is planned for a transaction.
pub open spec fn enacts(a: TransactionMergeAction, e: Seq<Ev>) -> bool {
    match a {
        TransactionMergeAction::New(pt) => e.len() > 0 && e[0] is Trn && e[0]->trn == pt.src_trn.trn && carries(e[0]->Trn_t, pt.post_actions@, e.subrange(1, e.len() as int)),
        TransactionMergeAction::MergeInto { pending_trn, dest_trn } => carries(dest_trn, pending_trn.post_actions@, e),
        TransactionMergeAction::LeaveUnmerged(_) => e.len() == 0,
    }
}
pub open spec fn flat(es: Seq<Seq<Ev>>) -> Seq<Ev> decreases es.len() { if es.len() == 0 { Seq::empty() } else { flat(es.drop_last()) + es.last() } }
pub open spec fn enacted(pending: Seq<TransactionMergeAction>, es: Seq<Seq<Ev>>) -> bool { forall|n: int| 0 <= n < es.len() ==> enacts(pending[n], #[trigger] es[n]) }
/// What is left to a human: the transactions of the plan that are not merged, in order.
pub open spec fn unmerged_of(pending: Seq<TransactionMergeAction>, n: int) -> Seq<TransactionPostings> decreases n {
    if n <= 0 { Seq::empty() } else { match pending[n - 1] { TransactionMergeAction::LeaveUnmerged(t) => unmerged_of(pending, n - 1).push(t), _ => unmerged_of(pending, n - 1) } }
}
pub proof fn lemma_carries_any(t: transaction::Index, acts: Seq<(posting::Input, PostingMergeAction)>, e: Seq<Ev>)
    requires carries(t, acts, e),
    ensures
        forall|fp: String| #[trigger] any_fp(e, fp) ==> exists|k: int| 0 <= k < acts.len() && #[trigger] act_fps(acts[k]).contains(fp),
        forall|i: posting::Index| #[trigger] any_into(e, i) ==> exists|k: int| 0 <= k < acts.len() && (#[trigger] acts[k]).1 == PostingMergeAction::MergeIntoExisting(i),
{
    assert forall|fp: String| #[trigger] any_fp(e, fp) implies exists|k: int| 0 <= k < acts.len() && #[trigger] act_fps(acts[k]).contains(fp) by {
        let k = choose|k: int| 0 <= k < e.len() && (#[trigger] ev_fps(e[k])).contains(fp);
        assert(does(t, acts[k], e[k])); assert(act_fps(acts[k]).contains(fp));
    }
    assert forall|i: posting::Index| #[trigger] any_into(e, i) implies exists|k: int| 0 <= k < acts.len() && (#[trigger] acts[k]).1 == PostingMergeAction::MergeIntoExisting(i) by {
        let k = choose|k: int| 0 <= k < e.len() && #[trigger] joins_into(e[k], i);
        assert(does(t, acts[k], e[k])); assert(acts[k].1 == PostingMergeAction::MergeIntoExisting(i));
    }
}
pub proof fn lemma_enacts(a: TransactionMergeAction, e: Seq<Ev>)
    requires enacts(a, e),
    ensures
        forall|fp: String| #[trigger] any_fp(e, fp) ==> plan_fp(a, fp),
        forall|i: posting::Index| #[trigger] any_into(e, i) ==> plan_into(a, i),
{
    match a {
        TransactionMergeAction::New(pt) => {
            let r = e.subrange(1, e.len() as int);
            lemma_carries_any(e[0]->Trn_t, pt.post_actions@, r);
            lemma_one(e[0]);
            assert(e =~= seq![e[0]] + r);
            lemma_any(seq![e[0]], r);
            assert(ev_fps(e[0]) =~= Set::<String>::empty());
            assert(acts_of(a) == pt.post_actions@);
            assert forall|fp: String| #[trigger] any_fp(e, fp) implies plan_fp(a, fp) by {
                assert(!any_fp(seq![e[0]], fp));
                assert(any_fp(r, fp));
            }
        },
        TransactionMergeAction::MergeInto { pending_trn, dest_trn } => {
            lemma_carries_any(dest_trn, pending_trn.post_actions@, e);
            assert(acts_of(a) == pending_trn.post_actions@);
            assert forall|fp: String| #[trigger] any_fp(e, fp) implies plan_fp(a, fp) by {
                let k = choose|k: int| 0 <= k < pending_trn.post_actions@.len() && #[trigger] act_fps(pending_trn.post_actions@[k]).contains(fp);
                assert(act_fps(acts_of(a)[k]).contains(fp));
            }
        },
        _ => { assert forall|fp: String| !#[trigger] any_fp(e, fp) by {} },
    }
}
pub proof fn lemma_flat_any(pending: Seq<TransactionMergeAction>, es: Seq<Seq<Ev>>)
    requires enacted(pending, es), es.len() <= pending.len(),
    ensures
        forall|fp: String| #[trigger] any_fp(flat(es), fp) ==> exists|n: int| 0 <= n < es.len() && #[trigger] plan_fp(pending[n], fp),
        forall|i: posting::Index| #[trigger] any_into(flat(es), i) ==> exists|n: int| 0 <= n < es.len() && #[trigger] plan_into(pending[n], i),
    decreases es.len(),
{
    if es.len() > 0 {
        let r = es.drop_last();
        assert forall|n: int| 0 <= n < r.len() implies enacts(pending[n], #[trigger] r[n]) by { assert(r[n] == es[n]); }
        lemma_flat_any(pending, r);
        lemma_any(flat(r), es.last());
        assert(es.last() == es[es.len() - 1]);
        lemma_enacts(pending[es.len() - 1], es.last());
    }
}
/// What is planned for the next transaction fits the store once the ones before it are carried out.
pub proof fn lemma_next_trn(o: Merger, pending: Seq<TransactionMergeAction>, es: Seq<Seq<Ev>>, n: Merger)
    requires feasible(o, pending), es.len() < pending.len(), enacted(pending, es), o.placed(flat(es), n),
    ensures
        fits(n.posts, acts_of(pending[es.len() as int])),
        forall|i: posting::Index| #[trigger] plan_into(pending[es.len() as int], i) ==> o.pa().contains_key(i) && !any_into(flat(es), i),
{
    let k = es.len() as int; let a = acts_of(pending[k]); let e = flat(es);
    lemma_flat_any(pending, es);
    assert(fits(o.posts, a));
    assert forall|j: int| 0 <= j < a.len() implies fit(n.posts, #[trigger] a[j]) by {
        assert forall|fp: String| #[trigger] any_fp(e, fp) implies !act_fps(a[j]).contains(fp) by {
            if act_fps(a[j]).contains(fp) { assert(plan_fp(pending[k], fp)); let b = choose|b: int| 0 <= b < es.len() && #[trigger] plan_fp(pending[b], fp); }
        }
        lemma_fit(o, e, n, a[j]);
    }
    assert forall|i: posting::Index| #[trigger] plan_into(pending[k], i) implies o.pa().contains_key(i) && !any_into(e, i) by {
        let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).1 == PostingMergeAction::MergeIntoExisting(i);
        assert(fit(o.posts, a[j]));
        if any_into(e, i) { let b = choose|b: int| 0 <= b < es.len() && #[trigger] plan_into(pending[b], i); }
    }
}
pub proof fn lemma_enacted(o: Merger, pending: Seq<TransactionMergeAction>, es: Seq<Seq<Ev>>, m: Merger, e: Seq<Ev>, n: Merger)
    requires
        es.len() < pending.len(), enacted(pending, es), o.placed(flat(es), m), m.wf(), enacts(pending[es.len() as int], e), m.placed(e, n),
        forall|i: posting::Index| #[trigger] plan_into(pending[es.len() as int], i) ==> o.pa().contains_key(i) && !any_into(flat(es), i),
    ensures enacted(pending, es.push(e)), o.placed(flat(es.push(e)), n),
{
    assert(es.push(e).drop_last() =~= es);
    lemma_enacts(pending[es.len() as int], e);
    lemma_placed(o, flat(es), m, e, n);
}
/// A transaction opened, and then its postings.
pub proof fn lemma_opened(o: Merger, x: Ev, m: Merger, e: Seq<Ev>, n: Merger, pt: PendingTransaction)
    requires o.placed(seq![x], m), m.wf(), m.placed(e, n), x is Trn, x->trn == pt.src_trn.trn, carries(x->Trn_t, pt.post_actions@, e), fits(o.posts, pt.post_actions@),
    ensures enacts(TransactionMergeAction::New(pt), seq![x] + e), o.placed(seq![x] + e, n),
{
    lemma_one(x);
    lemma_carries_any(x->Trn_t, pt.post_actions@, e);
    assert((seq![x] + e).subrange(1, (seq![x] + e).len() as int) =~= e);
    assert forall|i: posting::Index| #[trigger] any_into(e, i) implies o.pa().contains_key(i) && !any_into(seq![x], i) by {
        let k = choose|k: int| 0 <= k < pt.post_actions@.len() && (#[trigger] pt.post_actions@[k]).1 == PostingMergeAction::MergeIntoExisting(i);
        assert(fit(o.posts, pt.post_actions@[k]));
    }
    lemma_placed(o, seq![x], m, e, n);
}
pub open spec fn into_at(acts: Seq<(posting::Input, PostingMergeAction)>, k: int, i: posting::Index) -> bool { acts[k].1 == PostingMergeAction::MergeIntoExisting(i) }
pub open spec fn within(acts: Seq<(posting::Input, PostingMergeAction)>) -> bool {
    forall|k: int, l: int, i: posting::Index| 0 <= k < l < acts.len() && #[trigger] into_at(acts, k, i) ==> !#[trigger] into_at(acts, l, i)
}
pub open spec fn any_at(acts: Seq<(posting::Input, PostingMergeAction)>, i: posting::Index) -> bool { exists|k: int| 0 <= k < acts.len() && #[trigger] into_at(acts, k, i) }
pub proof fn lemma_trn_targets(acts: Seq<(posting::Input, PostingMergeAction)>, n: int)
    requires 0 <= n <= acts.len(),
    ensures
        forall|i: posting::Index| #[trigger] trn_targets(acts, n).contains(i) <==> any_at(acts.take(n), i),
        trn_targets(acts, n).no_duplicates() <==> within(acts.take(n)),
    decreases n,
{
    let a = acts.take(n);
    if n > 0 {
        let b = acts.take(n - 1);
        lemma_trn_targets(acts, n - 1);
        assert forall|k: int, i: posting::Index| 0 <= k < n - 1 implies (#[trigger] into_at(a, k, i) <==> into_at(b, k, i)) by { assert(a[k] == b[k]); }
        assert forall|k: int, i: posting::Index| 0 <= k < n - 1 implies (#[trigger] into_at(b, k, i) <==> into_at(a, k, i)) by { assert(a[k] == b[k]); }
        let t = trn_targets(acts, n - 1);
        assert(a[n - 1] == acts[n - 1]);
        assert forall|i: posting::Index| any_at(a, i) <==> any_at(b, i) || into_at(a, n - 1, i) by {
            if any_at(b, i) { let k = choose|k: int| 0 <= k < b.len() && #[trigger] into_at(b, k, i); assert(into_at(a, k, i)); }
            if any_at(a, i) { let k = choose|k: int| 0 <= k < a.len() && #[trigger] into_at(a, k, i); if k < n - 1 { assert(into_at(b, k, i)); } }
        }
        if let PostingMergeAction::MergeIntoExisting(x) = acts[n - 1].1 {
            assert(into_at(a, n - 1, x));
            assert forall|i: posting::Index| #[trigger] trn_targets(acts, n).contains(i) <==> any_at(a, i) by { lemma_push_contains(t, x, i); }
            if within(a) {
                assert(within(b)) by { assert forall|k: int, l: int, i: posting::Index| 0 <= k < l < b.len() && #[trigger] into_at(b, k, i) implies !#[trigger] into_at(b, l, i) by { assert(into_at(a, k, i)); if into_at(b, l, i) { assert(into_at(a, l, i)); } } }
                assert(!t.contains(x)) by { if any_at(b, x) { let k = choose|k: int| 0 <= k < b.len() && #[trigger] into_at(b, k, x); assert(into_at(a, k, x)); } }
                assert(t.push(x).no_duplicates());
            }
            if trn_targets(acts, n).no_duplicates() {
                assert(t.no_duplicates()) by { assert forall|p: int, q: int| 0 <= p < t.len() && 0 <= q < t.len() && p != q implies t[p] != t[q] by { assert(t.push(x)[p] == t[p] && t.push(x)[q] == t[q]); } }
                assert(!t.contains(x)) by { if t.contains(x) { let p = choose|p: int| 0 <= p < t.len() && t[p] == x; assert(t.push(x)[p] == x && t.push(x)[t.len() as int] == x); } }
                assert forall|k: int, l: int, i: posting::Index| 0 <= k < l < a.len() && #[trigger] into_at(a, k, i) implies !#[trigger] into_at(a, l, i) by {
                    if into_at(a, l, i) { assert(into_at(b, k, i)); if l == n - 1 { assert(any_at(b, i)); assert(i == x); } else { assert(into_at(b, l, i)); } }
                }
            }
        } else {
            if within(b) { assert forall|k: int, l: int, i: posting::Index| 0 <= k < l < a.len() && #[trigger] into_at(a, k, i) implies !#[trigger] into_at(a, l, i) by { if into_at(a, l, i) && l < n - 1 { assert(into_at(b, k, i) && into_at(b, l, i)); } } }
            if within(a) { assert forall|k: int, l: int, i: posting::Index| 0 <= k < l < b.len() && #[trigger] into_at(b, k, i) implies !#[trigger] into_at(b, l, i) by { assert(into_at(a, k, i)); if into_at(b, l, i) { assert(into_at(a, l, i)); } } }
        }
    } else {
        assert forall|i: posting::Index| !any_at(a, i) by {}
    }
}
pub open spec fn news_new(plan: Seq<TransactionMergeAction>) -> bool { forall|n: int| 0 <= n < plan.len() && (#[trigger] plan[n]) is New ==> all_new(plan[n]->New_0.post_actions@) }
/// No two input postings go into the same existing posting.
pub open spec fn apart(plan: Seq<TransactionMergeAction>, n: int) -> bool {
    &&& forall|a: int| 0 <= a < n ==> within(acts_of(#[trigger] plan[a]))
    &&& forall|a: int, b: int, i: posting::Index| 0 <= a < b < n && #[trigger] plan_into(plan[a], i) ==> !#[trigger] plan_into(plan[b], i)
}
pub proof fn lemma_targets(plan: Seq<TransactionMergeAction>, n: int)
    requires 0 <= n <= plan.len(), news_new(plan),
    ensures
        forall|i: posting::Index| #[trigger] targets(plan, n).contains(i) <==> exists|a: int| 0 <= a < n && #[trigger] plan_into(plan[a], i),
        targets(plan, n).no_duplicates() <==> apart(plan, n),
    decreases n,
{
    if n > 0 {
        lemma_targets(plan, n - 1);
        let t = targets(plan, n - 1);
        let acts = acts_of(plan[n - 1]);
        let u = if plan[n - 1] is MergeInto { trn_targets(acts, acts.len() as int) } else { Seq::empty() };
        assert(targets(plan, n) =~= t + u);
        lemma_trn_targets(acts, acts.len() as int);
        assert(acts.take(acts.len() as int) =~= acts);
        assert forall|i: posting::Index| #[trigger] u.contains(i) <==> plan_into(plan[n - 1], i) by {
            if plan_into(plan[n - 1], i) { let k = choose|k: int| 0 <= k < acts.len() && (#[trigger] acts[k]).1 == PostingMergeAction::MergeIntoExisting(i); assert(into_at(acts, k, i)); assert(any_at(acts, i)); }
            if any_at(acts, i) { let k = choose|k: int| 0 <= k < acts.len() && #[trigger] into_at(acts, k, i); assert(acts[k].1 == PostingMergeAction::MergeIntoExisting(i)); }
        }
        assert(u.no_duplicates() <==> within(acts)) by { if !(plan[n - 1] is MergeInto) { assert(within(acts)); } }
        let v = t + u;
        assert forall|i: posting::Index| #[trigger] v.contains(i) <==> t.contains(i) || u.contains(i) by {
            if t.contains(i) { let k = choose|k: int| 0 <= k < t.len() && t[k] == i; assert(v[k] == i); }
            if u.contains(i) { let k = choose|k: int| 0 <= k < u.len() && u[k] == i; assert(v[t.len() + k] == i); }
            if v.contains(i) { let k = choose|k: int| 0 <= k < v.len() && v[k] == i; if k < t.len() { assert(t[k] == i); } else { assert(u[k - t.len()] == i); } }
        }
        if v.no_duplicates() {
            assert forall|p: int, q: int| 0 <= p < t.len() && 0 <= q < t.len() && p != q implies t[p] != t[q] by { assert(v[p] == t[p] && v[q] == t[q]); }
            assert forall|p: int, q: int| 0 <= p < u.len() && 0 <= q < u.len() && p != q implies u[p] != u[q] by { assert(v[t.len() + p] == u[p] && v[t.len() + q] == u[q]); }
            assert(apart(plan, n - 1)); assert(within(acts));
            assert forall|a: int, b: int, i: posting::Index| 0 <= a < b < n && #[trigger] plan_into(plan[a], i) implies !#[trigger] plan_into(plan[b], i) by {
                if b == n - 1 && plan_into(plan[b], i) {
                    assert(t.contains(i) && u.contains(i));
                    let p = choose|p: int| 0 <= p < t.len() && t[p] == i; let q = choose|q: int| 0 <= q < u.len() && u[q] == i;
                    assert(v[p] == v[t.len() + q]);
                }
            }
        }
        if apart(plan, n) {
            assert(apart(plan, n - 1));
            assert(within(acts));
            assert forall|p: int, q: int| 0 <= p < v.len() && 0 <= q < v.len() && p != q implies v[p] != v[q] by {
                if v[p] == v[q] {
                    if p < t.len() && q < t.len() { assert(t[p] == t[q]); }
                    else if p >= t.len() && q >= t.len() { assert(u[p - t.len()] == u[q - t.len()]); }
                    else {
                        let i = v[p];
                        if p < t.len() { assert(t[p] == i && u[q - t.len()] == i); } else { assert(t[q] == i && u[p - t.len()] == i); }
                        assert(t.contains(i) && u.contains(i));
                        let a = choose|a: int| 0 <= a < n - 1 && #[trigger] plan_into(plan[a], i);
                        assert(plan_into(plan[n - 1], i));
                    }
                }
            }
        }
    }
}
/// Input posting k of the transaction goes into the existing posting `i`.
pub open spec fn sends(m: posting::IndexedPostings, tp: TransactionPostings, k: int, i: posting::Index) -> bool {
    0 <= k < tp.posts@.len() && !undecided(m, tp, tp.posts@.len() as int) && joins(m, tp.posts@[k], tp.trn.raw.date, i)
}
/// Two input postings go into the same existing posting.
pub open spec fn clash(m: posting::IndexedPostings, src: Seq<TransactionPostings>) -> bool {
    exists|a: int, k: int, b: int, l: int, i: posting::Index| 0 <= a <= b < src.len() && (a < b || k < l) && #[trigger] sends(m, src[a], k, i) && #[trigger] sends(m, src[b], l, i)
}
/// The input cannot be merged.
pub open spec fn rejected(m: posting::IndexedPostings, src: Seq<TransactionPostings>) -> bool {
    ||| exists|k: int| 0 <= k < src.len() && refused(m, #[trigger] src[k], before(src, k))
    ||| clash(m, src)
}
pub open spec fn all_planned(m: posting::IndexedPostings, src: Seq<TransactionPostings>, plan: Seq<TransactionMergeAction>) -> bool {
    plan.len() == src.len() && forall|k: int| 0 <= k < src.len() ==> planned(m, #[trigger] src[k], plan[k])
}
pub proof fn lemma_sends(m: posting::IndexedPostings, tp: TransactionPostings, a: TransactionMergeAction)
    requires m.wf(), planned(m, tp, a),
    ensures
        forall|k: int, i: posting::Index| #![trigger sends(m, tp, k, i)] #![trigger into_at(acts_of(a), k, i)] sends(m, tp, k, i) <==> 0 <= k < acts_of(a).len() && into_at(acts_of(a), k, i),
        known(m, acts_of(a)), !(a is LeaveUnmerged) ==> decided(m, tp, acts_of(a)) && acts_of(a).len() == tp.posts@.len(),
{
    let acts = acts_of(a);
    if !(a is LeaveUnmerged) {
        lemma_aims(m, tp, acts);
        assert forall|k: int, i: posting::Index| 0 <= k < acts.len() implies (#[trigger] joins(m, tp.posts@[k], tp.trn.raw.date, i) <==> acts[k].1 == PostingMergeAction::MergeIntoExisting(i)) by {
            lemma_joins(m, acts[k].0, acts[k].1, i);
        }
        assert(!undecided(m, tp, tp.posts@.len() as int)) by {
            if undecided(m, tp, tp.posts@.len() as int) {
                let k = choose|k: int| 0 <= k < tp.posts@.len() && ambiguous(m, #[trigger] tp.posts@[k], tp.trn.raw.date);
                assert(decides(m, acts[k].0, Some(acts[k].1)));
                if let PostingMergeAction::MergeIntoExisting(i) = acts[k].1 { assert(m.soft(tp.posts@[k], tp.trn.raw.date).len() == 1); }
            }
        }
    }
}
pub proof fn lemma_before(src: Seq<TransactionPostings>, a: int, b: int)
    requires 0 <= a < b <= src.len(),
    ensures forall|fp: String| #[trigger] in_first(src[a], src[a].posts@.len() as int, fp) ==> before(src, b).contains(fp),
    decreases b - a,
{
    lemma_trn_fps(src[a], src[a].posts@.len() as int);
    if a + 1 < b { lemma_before(src, a, b - 1); }
}
pub proof fn lemma_feasible(o: Merger, src: Seq<TransactionPostings>, plan: Seq<TransactionMergeAction>)
    requires o.wf(), all_planned(o.posts, src, plan), forall|k: int| 0 <= k < src.len() ==> !refused(o.posts, #[trigger] src[k], before(src, k)),
    ensures
        all_known(o.posts, plan),
        targets(plan, plan.len() as int).no_duplicates() <==> !clash(o.posts, src),
        targets(plan, plan.len() as int).no_duplicates() ==> feasible(o, plan),
{
    let m = o.posts;
    let n = plan.len() as int;
    assert(news_new(plan)) by { assert forall|k: int| 0 <= k < n && (#[trigger] plan[k]) is New implies all_new(plan[k]->New_0.post_actions@) by { assert(planned(m, src[k], plan[k])); } }
    lemma_targets(plan, n);
    assert forall|k: int| 0 <= k < n implies known(m, acts_of(#[trigger] plan[k])) by { assert(planned(m, src[k], plan[k])); lemma_sends(m, src[k], plan[k]); }
    assert(all_known(m, plan)) by { assert forall|k: int| 0 <= k < n implies match #[trigger] plan[k] { TransactionMergeAction::MergeInto { pending_trn, .. } => known(m, pending_trn.post_actions@), _ => true } by { assert(known(m, acts_of(plan[k]))); } }
    // clash
    if apart(plan, n) && clash(m, src) {
        let (a, k, b, l, i) = choose|a: int, k: int, b: int, l: int, i: posting::Index| 0 <= a <= b < src.len() && (a < b || k < l) && #[trigger] sends(m, src[a], k, i) && #[trigger] sends(m, src[b], l, i);
        assert(planned(m, src[a], plan[a]) && planned(m, src[b], plan[b]));
        lemma_sends(m, src[a], plan[a]); lemma_sends(m, src[b], plan[b]);
        assert(into_at(acts_of(plan[a]), k, i) && into_at(acts_of(plan[b]), l, i));
        assert(acts_of(plan[a])[k].1 == PostingMergeAction::MergeIntoExisting(i) && acts_of(plan[b])[l].1 == PostingMergeAction::MergeIntoExisting(i));
        assert(plan_into(plan[a], i) && plan_into(plan[b], i));
        if a == b { assert(within(acts_of(plan[a]))); }
        assert(false);
    }
    if !clash(m, src) {
        assert forall|a: int| 0 <= a < n implies within(acts_of(#[trigger] plan[a])) by {
            assert(planned(m, src[a], plan[a]));
            lemma_sends(m, src[a], plan[a]);
            let acts = acts_of(plan[a]);
            assert forall|k: int, l: int, i: posting::Index| 0 <= k < l < acts.len() && #[trigger] into_at(acts, k, i) implies !#[trigger] into_at(acts, l, i) by {
                if into_at(acts, l, i) { assert(sends(m, src[a], k, i) && sends(m, src[a], l, i)); }
            }
        }
        assert forall|a: int, b: int, i: posting::Index| 0 <= a < b < n && #[trigger] plan_into(plan[a], i) implies !#[trigger] plan_into(plan[b], i) by {
            if plan_into(plan[b], i) {
                assert(planned(m, src[a], plan[a]) && planned(m, src[b], plan[b]));
                lemma_sends(m, src[a], plan[a]); lemma_sends(m, src[b], plan[b]);
                let k = choose|k: int| 0 <= k < acts_of(plan[a]).len() && (#[trigger] acts_of(plan[a])[k]).1 == PostingMergeAction::MergeIntoExisting(i);
                let l = choose|l: int| 0 <= l < acts_of(plan[b]).len() && (#[trigger] acts_of(plan[b])[l]).1 == PostingMergeAction::MergeIntoExisting(i);
                assert(into_at(acts_of(plan[a]), k, i) && into_at(acts_of(plan[b]), l, i));
                assert(sends(m, src[a], k, i) && sends(m, src[b], l, i));
            }
        }
        assert(apart(plan, n));
    }
    if apart(plan, n) {
        assert forall|a: int| 0 <= a < n implies fits(m, acts_of(#[trigger] plan[a])) by { lemma_fits(o, src, plan, a); }
        assert forall|a: int| 0 <= a < n implies match #[trigger] plan[a] {
            TransactionMergeAction::New(pt) => pt.src_trn.postings@.len() == 0,
            TransactionMergeAction::MergeInto { dest_trn, .. } => o.ta().contains_key(dest_trn),
            TransactionMergeAction::LeaveUnmerged(_) => true,
        } by {
            assert(planned(m, src[a], plan[a]));
            if let TransactionMergeAction::MergeInto { pending_trn, dest_trn } = plan[a] {
                let acts = pending_trn.post_actions@;
                assert(known(m, acts_of(plan[a])));
                let k = choose|k: int| 0 <= k < acts.len() && (#[trigger] acts[k]).1 is MergeIntoExisting && m.arena()[acts[k].1->MergeIntoExisting_0].parent_trn == dest_trn;
                assert(acts_of(plan[a])[k] == acts[k]);
                assert(o.pa().contains_key(acts[k].1->MergeIntoExisting_0));
            }
        }
        assert forall|a: int, b: int, fp: String| 0 <= a < b < n && #[trigger] plan_fp(plan[a], fp) implies !#[trigger] plan_fp(plan[b], fp) by {
            if plan_fp(plan[b], fp) {
                assert(planned(m, src[a], plan[a]) && planned(m, src[b], plan[b]));
                lemma_sends(m, src[a], plan[a]); lemma_sends(m, src[b], plan[b]);
                let k = choose|k: int| 0 <= k < acts_of(plan[a]).len() && #[trigger] act_fps(acts_of(plan[a])[k]).contains(fp);
                let l = choose|l: int| 0 <= l < acts_of(plan[b]).len() && #[trigger] act_fps(acts_of(plan[b])[l]).contains(fp);
                assert(acts_of(plan[a])[k].0.posting == src[a].posts@[k] && acts_of(plan[b])[l].0.posting == src[b].posts@[l]);
                assert(posting::fps(src[a].posts@[k].comment).contains(fp));
                assert(in_first(src[a], src[a].posts@.len() as int, fp));
                lemma_before(src, a, b);
                assert(posting::fps(src[b].posts@[l].comment).contains(fp) && before(src, b).contains(fp));
                assert(bad_at(m, src[b], before(src, b), l));
                assert(refused(m, src[b], before(src, b)));
            }
        }
    }
}
pub proof fn lemma_fits(o: Merger, src: Seq<TransactionPostings>, plan: Seq<TransactionMergeAction>, a: int)
    requires
        o.wf(), all_planned(o.posts, src, plan), 0 <= a < src.len(), !refused(o.posts, src[a], before(src, a)), within(acts_of(plan[a])),
    ensures fits(o.posts, acts_of(plan[a])),
{
    let m = o.posts; let acts = acts_of(plan[a]); let tp = src[a];
    assert(planned(m, src[a], plan[a]));
    lemma_sends(m, tp, plan[a]);
    assert forall|k: int| 0 <= k < acts.len() implies fit(m, #[trigger] acts[k]) by {
        assert(decides(m, acts[k].0, Some(acts[k].1)));
        if let PostingMergeAction::MergeIntoExisting(i) = acts[k].1 {
            lemma_joins(m, acts[k].0, acts[k].1, i);
            if !m.any_hit(acts[k].0.posting.comment) { assert forall|j: posting::Index| !#[trigger] m.hit(acts[k].0.posting.comment, j) by {} }
        }
    }
    assert forall|k: int, l: int, fp: String| 0 <= k < l < acts.len() && #[trigger] act_fps(acts[k]).contains(fp) implies !#[trigger] act_fps(acts[l]).contains(fp) by {
        if act_fps(acts[l]).contains(fp) {
            assert(acts[k].0.posting == tp.posts@[k] && acts[l].0.posting == tp.posts@[l]);
            assert(posting::fps(tp.posts@[k].comment).contains(fp));
            assert(in_first(tp, l, fp));
            assert(posting::fps(tp.posts@[l].comment).contains(fp));
            assert(bad_at(m, tp, before(src, a), l));
        }
    }
    assert forall|k: int, l: int| 0 <= k < l < acts.len() && (#[trigger] acts[k]).1 is MergeIntoExisting implies (#[trigger] acts[l]).1 != acts[k].1 by {
        let i = acts[k].1->MergeIntoExisting_0;
        assert(into_at(acts, k, i));
        if acts[l].1 == acts[k].1 { assert(into_at(acts, l, i)); }
    }
}
/// What merging an input does: every input transaction is left to a human or carried out, and nothing else changes.
pub open spec fn outcome(o: Merger, src: Seq<TransactionPostings>, plan: Seq<TransactionMergeAction>, es: Seq<Seq<Ev>>, n: Merger, u: Seq<TransactionPostings>) -> bool {
    &&& all_planned(o.posts, src, plan)
    &&& es.len() == src.len() && enacted(plan, es)
    &&& o.placed(flat(es), n)
    &&& u == unmerged_of(plan, plan.len() as int)
}
/// The transactions as they are written: all of them, by date, each with its postings.
pub open spec fn built(m: Merger, ks: Seq<transaction::Index>, r: Seq<TransactionPostings>) -> bool {
    &&& m.trns.ordered(ks, m.trns.held(ks))
    &&& r.len() == ks.len()
    &&& forall|j: int| 0 <= j < r.len() ==> built_as(m, ks[j], #[trigger] r[j])
}
pub open spec fn built_as(m: Merger, t: transaction::Index, r: TransactionPostings) -> bool {
    r.trn == m.ta()[t].trn && r.posts@ =~= m.ta()[t].postings@.map_values(|i: posting::Index| m.pa()[i].posting)
}
pub open spec fn order(m: Merger, hs: Seq<transaction::Holder>) -> Seq<transaction::Index> { choose|ks: Seq<transaction::Index>| #[trigger] m.trns.ordered(ks, hs) }
pub open spec fn firsts(a: Seq<(posting::Input, PostingMergeAction)>) -> Seq<posting::Input> { Seq::new(a.len(), |k: int| a[k].0) }
/// Adding a posting with its decision (`None`: leave the whole transaction to a human).
pub open spec fn acc_step(a: MergeActions, p: posting::Input, d: Option<PostingMergeAction>, b: MergeActions) -> bool {
    match a {
        MergeActions::LeaveUnmerged(v) => b is LeaveUnmerged && b->LeaveUnmerged_0@ == v@.push(p),
        MergeActions::Actions(v) => match d {
            Some(x) => b is Actions && b->Actions_0@ == v@.push((p, x)),
            None => b is LeaveUnmerged && b->LeaveUnmerged_0@ == firsts(v@).push(p),
        },
    }
}
pub proof fn lemma_torn(m: posting::IndexedPostings, p: posting::Input)
    ensures forall|t: posting::Match| #[trigger] m.matched(p, t) ==>
        (t is Fingerprint && t->Fingerprint_0 is Many <==> torn(m, p.posting)),
{
    assert forall|t: posting::Match| #[trigger] m.matched(p, t) implies
        (t is Fingerprint && t->Fingerprint_0 is Many <==> torn(m, p.posting)) by {
        if let posting::Match::Fingerprint(posting::MatchedIndices::Many(v)) = t {
            assert(v@.contains(v@[0]) && v@.contains(v@[1]));
            assert(m.hit(p.posting.comment, v@[0]) && m.hit(p.posting.comment, v@[1]));
            assert(v@[0] != v@[1]);
        }
    }
}

@fn Merger::determine_posting_action
@ret r
@spec
    requires self.posts.wf(), posting::is_input(*old($1)),
    ensures
        r is Err <==> torn(self.posts, old($1).posting),
        r is Ok ==> decides(self.posts, *old($1), r->Ok_0),
        r is Ok && r->Ok_0 is Some ==> *final($1) == *old($1),
        r is Ok && r->Ok_0 is None ==> tagged(self.posts, old($1).posting, self.posts.soft(old($1).posting, old($1).trn_date), final($1).posting) && final($1).trn_date == old($1).trn_date,
@begin
    let ghost p0 = *$1;
    proof { lemma_torn(self.posts, p0); }
    let ghost mut ts = Seq::<String>::empty();
    assert(tags::CANDIDATE_FP_PREFIX@ == "candidate-"@);
@chain 0 vec String
    invariant
        self.posts.wf(),
        forall|j: posting::Index| #[trigger] vx_it.seq().unref().contains(j) ==> self.posts.hit(p0.posting.comment, j),
---
    proof { assert(vx_it.seq().unref().contains(vx_it.seq().unref()[vx_it.index() as int])); assert(vx_it.seq().unref()[vx_it.index() as int] == *vx_it.seq()[vx_it.index() as int]); }
@loop 1
    invariant
        self.posts.wf(), tags::CANDIDATE_FP_PREFIX@ == "candidate-"@,
        it.seq() == self.posts.soft(p0.posting, p0.trn_date),
        ts.len() == it.index(),
        forall|k: int| 0 <= k < ts.len() ==> names(self.posts, it.seq()[k], #[trigger] ts[k]),
        $1.posting.comment.tags@ =~= p0.posting.comment.tags@.union(ts.to_set()),
        $1.posting.raw == p0.posting.raw, $1.posting.comment.lines == p0.posting.comment.lines, $1.posting.comment.value_tags == p0.posting.comment.value_tags,
        $1.trn_date == p0.trn_date,
@loopbegin 1
    let ghost t0 = $1.posting.comment.tags@;
    proof {
        lemma_filter(self.posts.on(p0.trn_date), |i: posting::Index| posting::is_match(self.posts.arena()[i].posting, p0.posting));
        assert(self.posts.soft(p0.posting, p0.trn_date).contains(it.seq()[it.index() as int]));
    }
@loopend 1
    proof {
        let t = choose|t: String| $1.posting.comment.tags@ == #[trigger] t0.insert(t) && names(self.posts, idx, t);
        let ts0 = ts;
        ts = ts.push(t);
        assert forall|x: String| #[trigger] ts.to_set().contains(x) <==> ts0.to_set().contains(x) || x == t by { lemma_push_contains(ts0, t, x); }
    }
@props C02 C03 C04 C07 C08

@fn Merger::find_existing_dest_trn
@ret r
@spec
    requires known(self.posts, $2@),
    ensures
        r is Err <==> scattered(self.posts, $2@),
        r is Ok ==> (r->Ok_0 is None <==> all_new($2@)),
        r is Ok && r->Ok_0 is Some ==> leads(self.posts, $2@, r->Ok_0->0) && forall|t: transaction::Index| #[trigger] leads(self.posts, $2@, t) ==> t == r->Ok_0->0,
@begin
    proof { ax_key_parent(); }
@closure map 2
&HashableTransactionIndex
-> (o: transaction::Index) ensures o == #1.0
@chain 0 set
    invariant
        known(self.posts, $2@), vx_it.seq().unref() == $2@,
        forall|t: HashableTransactionIndex| #[trigger] vx_acc@.contains(t) <==> leads(self.posts, $2@.take(vx_it.index() as int), t.0),
        vx_it.index() == vx_it.seq().len() ==> forall|t: HashableTransactionIndex| #[trigger] vx_acc@.contains(t) <==> leads(self.posts, $2@, t.0),
---
    proof {
        assert(vx_it.seq().unref()[vx_it.index() as int] == *vx_it.seq()[vx_it.index() as int]);
        lemma_leads(self.posts, $2@, vx_it.index() as int, vx_acc@);
        ax_key_parent();
    }
---
---
    proof { lemma_dest(self.posts, $2@, vx_acc@); }
@chain 1 opt &HashableTransactionIndex
    invariant_except_break
        vx_it.index() == 0, vx_r is None,
    invariant
        vx_it.seq().unref().to_set() == candidate_trns@,
        vx_it.seq().len() == 0 ==> candidate_trns@ =~= Set::empty(),
    ensures
        vx_r is Some ==> candidate_trns@.contains(*vx_r->0),
        vx_r is None ==> candidate_trns@.len() == 0,
---
    proof { assert(vx_it.seq().unref()[0] == *vx_x); assert(vx_it.seq().unref().to_set().contains(vx_it.seq().unref()[0])); }
@props C02 C01

@copyfn PartialEq for HashableTransactionIndex::eq
@sig fn vx_eq_parent(vx_self: &HashableTransactionIndex, other: &HashableTransactionIndex) -> (r: bool)
@selfty HashableTransactionIndex
@spec
    ensures r == (*vx_self == *other),
@begin
    proof { ax_idx_parts(vx_self.0, other.0); ax_gen_obeys(); ax_gen_eq(gen(vx_self.0), gen(other.0)); }
@vname accountmerge::merge::merger::vx_eq_parent
@props C01 C02

@fn MergeActionsAccumulator::new
@ret r
@spec
    ensures r.0.full(), r.0.v() is Actions, r.0.v()->Actions_0@ == Seq::<(posting::Input, PostingMergeAction)>::empty(),
@props C01 C02

@fn MergeActionsAccumulator::push
@spec
    requires old(self).0.full(),
    ensures final(self).0.full(), acc_step(old(self).0.v(), $1, $2, final(self).0.v()),
@closure map_value
MergeActions
-> (o: MergeActions) ensures acc_step(#1, $1, $2, o)
@chain 0 vec posting::Input
    invariant
        vx_acc@ =~= firsts(vx_it.seq().take(vx_it.index() as int)),
        vx_it.index() == vx_it.seq().len() ==> vx_acc@ =~= firsts(vx_it.seq()),
---
    proof { 
        assert(firsts(vx_it.seq().take(vx_it.index() + 1)) =~= firsts(vx_it.seq().take(vx_it.index() as int)).push(vx_it.seq()[vx_it.index() as int].0));
        assert(vx_it.seq().take(vx_it.seq().len() as int) =~= vx_it.seq());
    }
@props C01 C02

@fn MergeActionsAccumulator::into_inner
@ret r
@spec
    requires self.0.full(),
    ensures r == self.0.v(),
@props C01 C02

@fn Merger::to_transaction_merge_action
@ret r
@fattr #[verifier::loop_isolation(false)]
@spec
    requires self.posts.wf(),
    ensures
        r is Err <==> refused(self.posts, $2, old($1)@),
        r is Ok ==> planned(self.posts, $2, r->Ok_0),
        r is Ok ==> forall|fp: String| #[trigger] final($1)@.contains(fp) <==> old($1)@.contains(fp) || in_first($2, $2.posts@.len() as int, fp),
@begin
    let ghost tp = $2;
    let ghost n = tp.posts@.len() as int;
    let ghost seen0 = $1@;
    let ghost m = self.posts;
    proof { lemma_no_postings(m, tp, seen0); }
@loop 0
    invariant
        it.seq() == tp.posts@, src_trn.trn == tp.trn, src_trn.postings@.len() == 0,
        forall|fp: String| #[trigger] $1@.contains(fp) <==> seen0.contains(fp) || in_first(tp, it.index() as int, fp),
        forall|k: int| 0 <= k < it.index() ==> !#[trigger] bad_at(m, tp, seen0, k),
        src_post_actions.0.full(), so_far(m, tp, it.index() as int, src_post_actions.0.v()),
@loopbegin 0
    let ghost k = it.index() as int;
    let ghost p0 = tp.posts@[k];
    let ghost acc0 = src_post_actions.0.v();
    let ghost seen1 = $1@;
    proof { lemma_bad(m, tp, seen0, seen1, k); }
@loop 1
    it = it1
    invariant
        strs(it1.seq()).no_duplicates(), strs(it1.seq()).to_set() =~= posting::fps(p0.comment),
        forall|fp: String| #[trigger] $1@.contains(fp) <==> seen1.contains(fp) || strs(it1.seq()).take(it1.index() as int).contains(fp),
        forall|j: int| 0 <= j < it1.index() ==> !seen1.contains(#[trigger] strs(it1.seq())[j]),
        it1.index() == it1.seq().len() ==> seen_after(seen1, posting::fps(p0.comment), $1@),
@loopbegin 1
    let ghost seen2 = $1@;
    proof { lemma_seen(seen1, strs(it1.seq()), it1.index() as int, $1@, posting::fps(p0.comment)); }
@before `src_post_actions.push(`
    let ghost sp = src_post;
    let ghost sa = action;
@after `src_post_actions.push(src_post, action);`
    proof {
        lemma_so_far(m, tp, k, acc0, sp, sa, src_post_actions.0.v());
        lemma_seen_next(m, tp, seen0, seen1, k, $1@);
    }
@chain 0 vec PostingInternal
    invariant
        vx_acc@ =~= in_posts(vx_it.seq()).take(vx_it.index() as int),
        vx_it.index() == vx_it.seq().len() ==> vx_acc@ =~= in_posts(vx_it.seq()),
@before `let opt_dest_trn`
    proof { lemma_aims(m, tp, src_post_actions@); }
@props C01 C02 C04

@fn Merger::make_pending
@ret r
@spec
    requires self.posts.wf(),
    ensures
        r is Err <==> exists|k: int| 0 <= k < $1@.len() && refused(self.posts, #[trigger] $1@[k], before($1@, k)),
        r is Ok ==> r->Ok_0@.len() == $1@.len(),
        r is Ok ==> forall|k: int| 0 <= k < $1@.len() ==> planned(self.posts, #[trigger] $1@[k], r->Ok_0@[k]),
@begin
    let ghost src = $1@;
@loop 0
    invariant
        self.posts.wf(), src == $1@, it.seq() == src, pending@.len() == it.index(),
        forall|k: int| 0 <= k < it.index() ==> planned(self.posts, #[trigger] src[k], pending@[k]),
        forall|k: int| 0 <= k < it.index() ==> !refused(self.posts, #[trigger] src[k], before(src, k)),
        fingerprints_seen@ == before(src, it.index() as int),
@loopbegin 0
    let ghost k = it.index() as int;
    let ghost seen0 = fingerprints_seen@;
    proof { lemma_trn_fps(src[k], src[k].posts@.len() as int); }
@loopend 0
    proof { assert(fingerprints_seen@ =~= seen0.union(trn_fps(src[k], src[k].posts@.len() as int))); }
@props C01 C02 C04

@fn Merger::check_pending
@ret r
@fattr #[verifier::loop_isolation(false)]
@spec
    requires all_known(self.posts, $1@),
    ensures r is Err <==> !targets($1@, $1@.len() as int).no_duplicates(),
@replace `it2: src_idx_by_dest`
it2: crate::vx::hm_into_vec(src_idx_by_dest)
@begin
    proof { ax_key_dest(); }
    let ghost n = $1@.len() as int;
@loop 0
    invariant
        it.seq().unref() == $1@,
        counts(src_idx_by_dest@, targets($1@, it.index() as int)),
        forall|x: posting::Index| #[trigger] targets($1@, it.index() as int).contains(x) ==> self.posts.arena().contains_key(x),
@loopbegin 0
    let ghost t0 = targets($1@, it.index() as int);
    proof { assert(it.seq().unref()[it.index() as int] == *it.seq()[it.index() as int]); }
@loopend 0
    proof {
        if $1@[it.index() as int] is MergeInto { }
        else { assert(targets($1@, it.index() + 1) == t0); }
    }
@loop 1
    it = it1
    invariant
        it1.seq().unref() == pending_trn.post_actions@,
        counts(src_idx_by_dest@, t0 + trn_targets(pending_trn.post_actions@, it1.index() as int)),
        forall|x: posting::Index| #[trigger] (t0 + trn_targets(pending_trn.post_actions@, it1.index() as int)).contains(x) ==> self.posts.arena().contains_key(x),
@loopbegin 1
    let ghost t1 = t0 + trn_targets(pending_trn.post_actions@, it1.index() as int);
    let ghost m1 = src_idx_by_dest@;
    proof { assert(it1.seq().unref()[it1.index() as int] == *it1.seq()[it1.index() as int]); }
@loopend 1
    proof {
        if let PostingMergeAction::MergeIntoExisting(x) = pending_trn.post_actions@[it1.index() as int].1 {
            lemma_counts(m1, t1, x, src_idx_by_dest@);
            assert(t0 + trn_targets(pending_trn.post_actions@, it1.index() + 1) =~= t1.push(x));
            assert forall|y: posting::Index| #[trigger] t1.push(x).contains(y) <==> t1.contains(y) || y == x by { lemma_push_contains(t1, x, y); }
        }
    }
@before `for (dest_idx_hash`
    let ghost t = targets($1@, n);
    let ghost map = src_idx_by_dest@;
    proof { lemma_multiple(map, t); }
@loop 2
    it = it2
    invariant
        forall|i: int| 0 <= i < it2.seq().len() ==> map.contains_key((#[trigger] it2.seq()[i]).0) && map[it2.seq()[i].0] == it2.seq()[i].1,
        forall|h: posting::IndexHashable| #[trigger] map.contains_key(h) ==> exists|i: int| 0 <= i < it2.seq().len() && (#[trigger] it2.seq()[i]).0 == h,
        forall|i: int| 0 <= i < it2.index() ==> (#[trigger] it2.seq()[i]).1@.len() <= 1,
        it2.index() == it2.seq().len() ==> forall|h: posting::IndexHashable| #[trigger] map.contains_key(h) ==> map[h]@.len() <= 1,
@chain 0 vec
@props C02

@fn Merger::apply_post_actions_to_trn
@ret r
@fattr #[verifier::loop_isolation(false)]
@spec
    requires old(self).wf(), old(self).ta().contains_key($1), fits(old(self).posts, $2@),
    ensures
        r is Ok, final(self).wf(),
        exists|e: Seq<Ev>| carries($1, $2@, e) && #[trigger] old(self).placed(e, *final(self)),
@begin
    let ghost o = *self;
    let ghost acts = $2@;
    let ghost mut e = Seq::<Ev>::empty();
    proof { lemma_none(o); assert(acts.take(0) =~= Seq::empty()); }
@loop 0
    invariant
        it.seq() == acts, self.wf(), self.ta().contains_key($1),
        carries($1, acts.take(it.index() as int), e), o.placed(e, *self),
        it.index() == it.seq().len() ==> carries($1, acts, e),
@loopbegin 0
    let ghost k = it.index() as int;
    let ghost m = *self;
    proof { lemma_next(o, $1, acts, k, e, m); }
@loopend 0
    proof {
        let x = match acts[k].1 {
            PostingMergeAction::New => Ev::New { t: $1, p: acts[k].0, i: self.ta()[$1].postings@.last() },
            PostingMergeAction::MergeIntoExisting(i) => Ev::Into { p: acts[k].0, i },
        };
        match acts[k].1 {
            PostingMergeAction::New => { lemma_step_new(m, acts[k].0, $1, self.ta()[$1].postings@.last(), *self); },
            PostingMergeAction::MergeIntoExisting(i) => { lemma_step_into(m, acts[k].0, i, *self); },
        }
        lemma_carried(o, $1, acts, k, e, m, x, *self);
        e = e.push(x);
    }
@props C01 C02 C05 C06

@fn Merger::apply_pending
@ret r
@fattr #[verifier::loop_isolation(false)]
@spec
    requires old(self).wf(), feasible(*old(self), $1@),
    ensures
        r is Ok, final(self).wf(),
        r->Ok_0.0@ == unmerged_of($1@, $1@.len() as int),
        exists|es: Seq<Seq<Ev>>| es.len() == $1@.len() && enacted($1@, es) && #[trigger] old(self).placed(flat(es), *final(self)),
@begin
    let ghost o = *self;
    let ghost plan = $1@;
    let ghost mut es = Seq::<Seq<Ev>>::empty();
    proof { lemma_none(o); }
@loop 0
    invariant
        it.seq() == plan, self.wf(), es.len() == it.index(), enacted(plan, es), o.placed(flat(es), *self),
        unmerged@ == unmerged_of(plan, it.index() as int),
@loopbegin 0
    let ghost k = it.index() as int;
    let ghost m = *self;
    let ghost mut m1 = *self;
    let ghost mut t1 = arbitrary::<transaction::Index>();
    proof { lemma_next_trn(o, plan, es, m); }
@after `let dest_trn = self.trns.add(pending_trn.src_trn);`
    proof { m1 = *self; t1 = dest_trn; lemma_step_trn(m, plan[k]->New_0.src_trn, dest_trn, m1); }
@loopend 0
    proof {
        let e = match plan[k] {
            TransactionMergeAction::New(pt) => {
                let x = Ev::Trn { t: t1, trn: pt.src_trn.trn };
                let f = choose|f: Seq<Ev>| carries(t1, pt.post_actions@, f) && #[trigger] m1.placed(f, *self);
                lemma_opened(m, x, m1, f, *self, pt);
                seq![x] + f
            },
            TransactionMergeAction::MergeInto { pending_trn, dest_trn } => choose|f: Seq<Ev>| carries(dest_trn, pending_trn.post_actions@, f) && #[trigger] m.placed(f, *self),
            TransactionMergeAction::LeaveUnmerged(_) => { lemma_none(m); Seq::empty() },
        };
        lemma_enacted(o, plan, es, m, e, *self);
        es = es.push(e);
    }
@props C01 C02 C06

@fn Merger::new
@ret r
@spec
    ensures r.wf(), r.pa() == Map::<posting::Index, posting::Holder>::empty(), r.ta() == Map::<transaction::Index, transaction::Holder>::empty(),
@props C01

@fn Merger::merge
@ret r
@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        r is Err <==> rejected(old(self).posts, $1@),
        r is Err ==> *final(self) == *old(self),
        r is Ok ==> exists|plan: Seq<TransactionMergeAction>, es: Seq<Seq<Ev>>| #[trigger] outcome(*old(self), $1@, plan, es, *final(self), r->Ok_0.0@),
@begin
    let ghost o = *self;
    let ghost src = $1@;
@before `self.check_pending(`
    let ghost plan = pending@;
    proof {
        assert(all_planned(o.posts, src, plan));
        lemma_feasible(o, src, plan);
    }
@tail
    proof {
        let es = choose|es: Seq<Seq<Ev>>| es.len() == plan.len() && enacted(plan, es) && #[trigger] o.placed(flat(es), *self);
        assert(outcome(o, src, plan, es, *self, vx_t->Ok_0.0@));
    }
@props C01 C02 C03 C04 C05 C06 C07 C08

@fn Merger::build
@ret r
@fattr #[verifier::loop_isolation(false)]
@spec
    requires self.wf(),
    ensures exists|ks: Seq<transaction::Index>| #[trigger] built(self, ks, r@),
@begin
    let ghost m = self;
@loop 0
    invariant
        m.trns.ordered(order(m, it.seq()), it.seq()),
        out@.len() == it.index(),
        forall|j: int| 0 <= j < out@.len() ==> built_as(m, order(m, it.seq())[j], #[trigger] out@[j]),
        forall|i: posting::Index| #[trigger] m.pa().contains_key(i) && !order(m, it.seq()).take(it.index() as int).contains(m.pa()[i].parent_trn) ==> am(posts.0).contains_key(i) && am(posts.0)[i] == m.pa()[i],
        it.index() == it.seq().len() ==> built(m, order(m, it.seq()), out@),
@loopbegin 0
    let ghost k = it.index() as int;
    let ghost ks = order(m, it.seq());
    let ghost t = ks[k];
    let ghost ps = m.ta()[t].postings@;
    proof {
        assert(it.seq() == m.trns.held(ks));
        assert(ks.len() == it.seq().len());
        assert(trn_holder == m.ta()[t]);
        assert(ks.contains(t));
        assert(m.ta().contains_key(t));
        assert(!ks.take(k).contains(t)) by {
            if ks.take(k).contains(t) { let j = choose|j: int| 0 <= j < k && ks.take(k)[j] == t; assert(ks[j] == ks[k]); }
        }
        assert(ks.take(k + 1)[k] == t);
        assert(forall|x: transaction::Index| #[trigger] ks.take(k).contains(x) ==> ks.take(k + 1).contains(x)) by {
            assert forall|x: transaction::Index| #[trigger] ks.take(k).contains(x) implies ks.take(k + 1).contains(x) by {
                let j = choose|j: int| 0 <= j < k && ks.take(k)[j] == x; assert(ks.take(k + 1)[j] == x);
            }
        }
        assert(forall|j: int| 0 <= j < ps.len() ==> m.pa().contains_key(#[trigger] ps[j]) && m.pa()[ps[j]].parent_trn == t);
        assert(ps.no_duplicates());
    }
@loopend 0
    proof {
        assert(order(m, it.seq()).take(it.index() + 1 as int) =~= ks.take(k + 1));
    }
@chain 0 vec PostingInternal
    invariant
        vx_it.seq() == ps, ps == m.ta()[t].postings@,
        ps.no_duplicates(), ks.take(k + 1).contains(t),
        forall|j: int| 0 <= j < ps.len() ==> m.pa().contains_key(#[trigger] ps[j]) && m.pa()[ps[j]].parent_trn == t,
        vx_acc@ =~= vx_it.seq().take(vx_it.index() as int).map_values(|i: posting::Index| m.pa()[i].posting),
        vx_it.index() == vx_it.seq().len() ==> vx_acc@ =~= ps.map_values(|i: posting::Index| m.pa()[i].posting),
        forall|j: int| vx_it.index() <= j < ps.len() ==> am(posts.0).contains_key(#[trigger] ps[j]) && am(posts.0)[ps[j]] == m.pa()[ps[j]],
        forall|i: posting::Index| #[trigger] m.pa().contains_key(i) && !ks.take(k + 1).contains(m.pa()[i].parent_trn) ==> am(posts.0).contains_key(i) && am(posts.0)[i] == m.pa()[i],
@props C01 C05 C06
