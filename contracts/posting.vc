@file merge/posting.rs
@wrap BAD_POSTING_INDEX IndexHashable IndexedPostings Match MatchedIndices ConsumePostings Input Holder
@pubfields IndexHashable IndexedPostings Input Holder ConsumePostings
@add 
pub use crate::comment::{fps, has_fp};
pub open spec fn has_unk(p: PostingInternal) -> bool { p.comment.tags@.contains(unk()) }
/// Value matching, as the property states it.
pub open spec fn is_match(a: PostingInternal, b: PostingInternal) -> bool {
    &&& has_unk(a) || has_unk(b) || a.raw.account == b.raw.account
    &&& match (a.raw.amount, b.raw.amount) {
            (Some(x), Some(y)) => x.eq_spec(&y),
            (None, None) => true,
            _ => false,
        }
    &&& match (a.raw.balance, b.raw.balance) { (Some(x), Some(y)) => x.eq_spec(&y), _ => true }
}
/// What a posting must be to be merged: it has a fingerprint and no candidate tag.
pub open spec fn has_cand(c: Comment) -> bool { exists|t: String| #[trigger] c.tags@.contains(t) && is_cand(t@) }
pub open spec fn is_input(p: Input) -> bool { has_fp(p.posting.comment) && !has_cand(p.posting.comment) }
pub open spec fn merged_status(d: Option<ledger_parser::TransactionStatus>, s: Option<ledger_parser::TransactionStatus>) -> Option<ledger_parser::TransactionStatus> {
    match (d, s) {
        (None, x) => x,
        (Some(ledger_parser::TransactionStatus::Pending), Some(ledger_parser::TransactionStatus::Cleared)) => s,
        _ => d,
    }
}
/// `d1` is `d0` combined with the input posting `s`.
pub open spec fn is_merged(d0: PostingInternal, s: PostingInternal, d1: PostingInternal) -> bool {
    &&& d1.raw.amount == d0.raw.amount
    &&& d1.raw.reality == d0.raw.reality
    &&& d1.raw.comment == d0.raw.comment
    &&& d1.raw.status == merged_status(d0.raw.status, s.raw.status)
    &&& d1.raw.balance == (if d0.raw.balance is Some { d0.raw.balance } else { s.raw.balance })
    &&& d1.raw.account == (if has_unk(d0) && !has_unk(s) { s.raw.account } else { d0.raw.account })
    &&& d1.comment.tags@ =~= (if has_unk(d0) && !has_unk(s) { d0.comment.tags@.union(s.comment.tags@) .remove(unk()) }
                             else { d0.comment.tags@.union(s.comment.tags@.remove(unk())) })
    &&& d1.comment.value_tags@ == d0.comment.value_tags@.union_prefer_right(s.comment.value_tags@)
    &&& d1.comment.lines@ == crate::comment::merged_lines(d0.comment.lines@, s.comment.lines@)
}
impl IndexedPostings {
    pub open spec fn arena(&self) -> Map<Index, Holder> { am(self.post_arena) }
    pub open spec fn fpx(&self) -> Map<String, Index> { self.post_by_fingerprint@ }
    /// The postings that entered under a date, in order of arrival.
    pub open spec fn on(&self, d: NaiveDate) -> Seq<Index> {
        if self.posts_by_date@.contains_key(d) { self.posts_by_date@[d]@ } else { Seq::empty() }
    }
    /// The existing postings that share a fingerprint with a comment.
    pub open spec fn hit(&self, c: Comment, i: Index) -> bool {
        exists|fp: String| #[trigger] fps(c).contains(fp) && self.fpx().contains_key(fp) && self.fpx()[fp] == i
    }
    pub open spec fn soft(&self, p: PostingInternal, d: NaiveDate) -> Seq<Index> {
        self.on(d).filter(|i: Index| is_match(self.arena()[i].posting, p))
    }
    /// What a new posting matches: the owners of its fingerprints; failing those, the postings of its date it matches by value.
    pub open spec fn matched(&self, p: Input, m: Match) -> bool {
        let c = p.posting.comment;
        let soft = self.soft(p.posting, p.trn_date);
        match m {
            Match::Fingerprint(MatchedIndices::One(i)) => self.hit(c, i) && forall|j: Index| #[trigger] self.hit(c, j) ==> j == i,
            Match::Fingerprint(MatchedIndices::Many(v)) => v@.len() >= 2 && v@.no_duplicates() && forall|j: Index| #[trigger] self.hit(c, j) <==> v@.contains(j),
            Match::Soft(MatchedIndices::One(i)) => !self.any_hit(c) && soft =~= seq![i],
            Match::Soft(MatchedIndices::Many(v)) => !self.any_hit(c) && v@ == soft && soft.len() >= 2,
            Match::Zero => !self.any_hit(c) && soft.len() == 0,
        }
    }
    /// `p1` is this store with posting `p` added as `i`, as the last of its date.
    pub open spec fn added(&self, p: Input, parent: transaction::Index, i: Index, p1: IndexedPostings) -> bool {
        &&& !self.arena().contains_key(i)
        &&& p1.arena() == self.arena().insert(i, Holder { parent_trn: parent, posting: p.posting })
        &&& forall|d: NaiveDate| #[trigger] p1.on(d) =~= (if d == p.trn_date { self.on(d).push(i) } else { self.on(d) })
        &&& forall|fp: String| #[trigger] p1.fpx().contains_key(fp) <==> self.fpx().contains_key(fp) || fps(p.posting.comment).contains(fp)
        &&& forall|fp: String| #[trigger] p1.fpx().contains_key(fp) ==> p1.fpx()[fp] == (if self.fpx().contains_key(fp) { self.fpx()[fp] } else { i })
    }
    /// `p1` is this store with posting `p` combined into the posting `i`.
    pub open spec fn combined(&self, p: Input, i: Index, p1: IndexedPostings) -> bool {
        &&& p1.arena().dom() =~= self.arena().dom()
        &&& forall|j: Index| #[trigger] self.arena().contains_key(j) && j != i ==> p1.arena()[j] == self.arena()[j]
        &&& is_merged(self.arena()[i].posting, p.posting, p1.arena()[i].posting)
        &&& p1.arena()[i].parent_trn == self.arena()[i].parent_trn
        &&& forall|d: NaiveDate| #[trigger] p1.on(d) == self.on(d)
        &&& forall|fp: String| #[trigger] p1.fpx().contains_key(fp) <==> self.fpx().contains_key(fp) || fps(p.posting.comment).contains(fp)
        &&& forall|fp: String| #[trigger] p1.fpx().contains_key(fp) ==> p1.fpx()[fp] == (if self.fpx().contains_key(fp) { self.fpx()[fp] } else { i })
    }
    pub open spec fn any_hit(&self, c: Comment) -> bool { exists|i: Index| self.hit(c, i) }
    pub open spec fn wf(&self) -> bool {
        &&& forall|fp: String| #[trigger] self.fpx().contains_key(fp) ==>
                self.arena().contains_key(self.fpx()[fp]) && fps(self.arena()[self.fpx()[fp]].posting.comment).contains(fp)
        &&& forall|i: Index, fp: String| self.arena().contains_key(i) && #[trigger] fps(self.arena()[i].posting.comment).contains(fp) ==>
                self.fpx().contains_key(fp) && self.fpx()[fp] == i
        &&& forall|i: Index| #[trigger] self.arena().contains_key(i) ==> exists|fp: String| fps(self.arena()[i].posting.comment).contains(fp)
        &&& forall|d: NaiveDate| (#[trigger] self.on(d)).no_duplicates()
        &&& forall|d: NaiveDate, j: int| 0 <= j < self.on(d).len() ==> self.arena().contains_key(#[trigger] self.on(d)[j])
    }
}

/// `acc` holds exactly the postings found under the first n fingerprints of q.
pub open spec fn is_hits(fpx: Map<String, Index>, q: Seq<String>, n: int, acc: Seq<Index>) -> bool {
    forall|i: Index| #[trigger] acc.contains(i) <==> exists|k: int| 0 <= k < n && #[trigger] fpx.contains_key(q[k]) && fpx[q[k]] == i
}
pub proof fn lemma_hits(ip: IndexedPostings, c: Comment, q: Seq<String>, n: int, acc0: Seq<Index>, acc1: Seq<Index>)
    requires
        0 <= n < q.len(), q.to_set() =~= fps(c),
        is_hits(ip.fpx(), q, n, acc0),
        acc1 == (if ip.fpx().contains_key(q[n]) { acc0.push(ip.fpx()[q[n]]) } else { acc0 }),
    ensures
        is_hits(ip.fpx(), q, n + 1, acc1),
        n + 1 == q.len() ==> forall|i: Index| #[trigger] acc1.contains(i) <==> ip.hit(c, i),
{
    let fpx = ip.fpx();
    assert forall|i: Index| #[trigger] acc1.contains(i) <==> exists|k: int| 0 <= k < n + 1 && #[trigger] fpx.contains_key(q[k]) && fpx[q[k]] == i by {
        if acc1.contains(i) {
            if !acc0.contains(i) { assert(fpx.contains_key(q[n])); assert(acc1.last() == fpx[q[n]]); }
        }
        if exists|k: int| 0 <= k < n + 1 && #[trigger] fpx.contains_key(q[k]) && fpx[q[k]] == i {
            if acc0.contains(i) { let j = choose|j: int| 0 <= j < acc0.len() && acc0[j] == i; assert(acc1[j] == i); }
            else { assert(fpx.contains_key(q[n])); assert(acc1.last() == i); }
        }
    }
    if n + 1 == q.len() {
        assert forall|i: Index| #[trigger] acc1.contains(i) <==> ip.hit(c, i) by {
            if ip.hit(c, i) {
                let fp = choose|fp: String| #[trigger] fps(c).contains(fp) && fpx.contains_key(fp) && fpx[fp] == i;
                assert(q.to_set().contains(fp));
                let k = choose|k: int| 0 <= k < q.len() && q[k] == fp;
                assert(fpx.contains_key(q[k]));
            }
            if acc1.contains(i) {
                let k = choose|k: int| 0 <= k < q.len() && #[trigger] fpx.contains_key(q[k]) && fpx[q[k]] == i;
                assert(q.to_set().contains(q[k]));
            }
        }
    }
}

/// The fingerprint index after the fingerprints q were registered for a posting.
pub open spec fn registered(f0: Map<String, Index>, q: Set<String>, i: Index, f1: Map<String, Index>) -> bool {
    &&& forall|fp: String| #[trigger] f1.contains_key(fp) <==> f0.contains_key(fp) || q.contains(fp)
    &&& forall|fp: String| #[trigger] q.contains(fp) ==> f1[fp] == i
    &&& forall|fp: String| #[trigger] f0.contains_key(fp) ==> f1[fp] == f0[fp]
}
/// Some fingerprint of q belongs to another posting.
pub open spec fn conflict(f0: Map<String, Index>, q: Set<String>, i: Index) -> bool {
    exists|fp: String| #[trigger] q.contains(fp) && f0.contains_key(fp) && f0[fp] != i
}
pub proof fn lemma_registered(f0: Map<String, Index>, q: Seq<String>, n: int, i: Index, f1: Map<String, Index>)
    requires 0 <= n < q.len(), registered(f0, q.take(n).to_set(), i, f1),
    ensures
        f1.contains_key(q[n]) && f1[q[n]] == i ==> registered(f0, q.take(n + 1).to_set(), i, f1),
        !f1.contains_key(q[n]) ==> registered(f0, q.take(n + 1).to_set(), i, f1.insert(q[n], i)),
        f1.contains_key(q[n]) && f1[q[n]] != i ==> conflict(f0, q.to_set(), i),
{
    assert(q.take(n + 1) =~= q.take(n).push(q[n]));
    assert(q.take(n + 1).to_set() =~= q.take(n).to_set().insert(q[n])) by {
        assert forall|fp: String| #[trigger] q.take(n + 1).to_set().contains(fp) <==> q.take(n).to_set().contains(fp) || fp == q[n] by {
            if q.take(n).contains(fp) { let k = choose|k: int| 0 <= k < n && q.take(n)[k] == fp; assert(q.take(n + 1)[k] == fp); }
            if fp == q[n] { assert(q.take(n + 1)[n] == fp); }
        }
    }
    assert(q.to_set().contains(q[n]));
}
pub proof fn lemma_conflict(ip: IndexedPostings)
    ensures
        forall|c: Comment, i: Index| #[trigger] conflict(ip.fpx(), fps(c), i) <==> (exists|j: Index| ip.hit(c, j) && j != i),
        ip.wf() ==> forall|c: Comment, i: Index| !ip.arena().contains_key(i) ==> (#[trigger] conflict(ip.fpx(), fps(c), i) <==> ip.any_hit(c)),
        forall|f1: Map<String, Index>, q: Set<String>, i: Index| #[trigger] registered(ip.fpx(), q, i, f1) ==> !conflict(ip.fpx(), q, i),
{
    assert forall|c: Comment, i: Index| #[trigger] conflict(ip.fpx(), fps(c), i) <==> (exists|j: Index| ip.hit(c, j) && j != i) by {
        if conflict(ip.fpx(), fps(c), i) {
            let fp = choose|fp: String| #[trigger] fps(c).contains(fp) && ip.fpx().contains_key(fp) && ip.fpx()[fp] != i;
            assert(ip.hit(c, ip.fpx()[fp]));
        }
    }
}
/// Adding a posting none of whose fingerprints is known keeps the store well formed.
pub proof fn lemma_added(p0: IndexedPostings, p: Input, parent: transaction::Index, i: Index, p1: IndexedPostings)
    requires p0.wf(), is_input(p), p0.added(p, parent, i, p1), !p0.any_hit(p.posting.comment),
    ensures p1.wf(),
{
    let c = p.posting.comment;
    assert forall|j: Index, fp: String| p1.arena().contains_key(j) && #[trigger] fps(p1.arena()[j].posting.comment).contains(fp) implies p1.fpx().contains_key(fp) && p1.fpx()[fp] == j by {
        if j == i { assert(fps(c).contains(fp)); if p0.fpx().contains_key(fp) { assert(p0.hit(c, p0.fpx()[fp])); } }
        else { assert(fps(p0.arena()[j].posting.comment).contains(fp)); }
    }
    assert forall|fp: String| #[trigger] p1.fpx().contains_key(fp) implies p1.arena().contains_key(p1.fpx()[fp]) && fps(p1.arena()[p1.fpx()[fp]].posting.comment).contains(fp) by {
        if p0.fpx().contains_key(fp) { } else { assert(fps(c).contains(fp)); }
    }
    assert forall|j: Index| #[trigger] p1.arena().contains_key(j) implies exists|fp: String| fps(p1.arena()[j].posting.comment).contains(fp) by {
        if j != i { assert(p0.arena().contains_key(j)); }
    }
    assert forall|d: NaiveDate| (#[trigger] p1.on(d)).no_duplicates() by {
        if d == p.trn_date {
            assert(!p0.on(d).contains(i)) by { if p0.on(d).contains(i) { let k = choose|k: int| 0 <= k < p0.on(d).len() && p0.on(d)[k] == i; assert(p0.arena().contains_key(p0.on(d)[k])); } }
        }
    }
    assert forall|d: NaiveDate, k: int| 0 <= k < p1.on(d).len() implies p1.arena().contains_key(#[trigger] p1.on(d)[k]) by {
        if k < p0.on(d).len() { assert(p0.arena().contains_key(p0.on(d)[k])); }
    }
}
/// The fingerprints of a combined posting: its own and the input's.
pub proof fn lemma_merged_fps(d0: PostingInternal, s: PostingInternal, d1: PostingInternal)
    requires is_merged(d0, s, d1),
    ensures fps(d1.comment) =~= fps(d0.comment).union(fps(s.comment)),
{
    assert(!is_fp(unk()@)) by { reveal_strlit("unknown-account"); reveal_strlit("fp-"); assert("fp-"@.len() == 3); assert(unk()@[0] == 'u'); assert("fp-"@[0] == 'f'); }
    assert forall|t: String| #[trigger] fps(d1.comment).contains(t) <==> fps(d0.comment).contains(t) || fps(s.comment).contains(t) by {
        if t == unk() { assert(!is_fp(t@)); }
    }
}
/// Combining a posting into one that owns every known fingerprint of it keeps the store well formed.
pub proof fn lemma_combined(p0: IndexedPostings, p: Input, i: Index, p1: IndexedPostings)
    requires p0.wf(), p0.arena().contains_key(i), p0.combined(p, i, p1), !conflict(p0.fpx(), fps(p.posting.comment), i),
    ensures p1.wf(),
{
    let c = p.posting.comment;
    lemma_merged_fps(p0.arena()[i].posting, p.posting, p1.arena()[i].posting);
    assert forall|j: Index, fp: String| p1.arena().contains_key(j) && #[trigger] fps(p1.arena()[j].posting.comment).contains(fp) implies p1.fpx().contains_key(fp) && p1.fpx()[fp] == j by {
        assert(p0.arena().contains_key(j));
        if j == i {
            assert(p0.fpx().contains_key(fp) ==> p0.fpx()[fp] == i) by {
                if fps(p0.arena()[i].posting.comment).contains(fp) { assert(p0.fpx()[fp] == i); }
                else { assert(fps(c).contains(fp)); }
            }
            assert(fps(p0.arena()[i].posting.comment).contains(fp) || fps(c).contains(fp));
            assert(p1.fpx().contains_key(fp));
        } else { assert(fps(p0.arena()[j].posting.comment).contains(fp)); }
    }
    assert forall|fp: String| #[trigger] p1.fpx().contains_key(fp) implies p1.arena().contains_key(p1.fpx()[fp]) && fps(p1.arena()[p1.fpx()[fp]].posting.comment).contains(fp) by {
        if p0.fpx().contains_key(fp) { assert(p0.arena().contains_key(p0.fpx()[fp])); } else { assert(fps(c).contains(fp)); }
    }
    assert forall|j: Index| #[trigger] p1.arena().contains_key(j) implies exists|fp: String| fps(p1.arena()[j].posting.comment).contains(fp) by {
        assert(p0.arena().contains_key(j));
        let fp = choose|fp: String| fps(p0.arena()[j].posting.comment).contains(fp);
        assert(fps(p1.arena()[j].posting.comment).contains(fp));
    }
    assert forall|d: NaiveDate| (#[trigger] p1.on(d)).no_duplicates() by { assert(p0.on(d).no_duplicates()); }
    assert forall|d: NaiveDate, k: int| 0 <= k < p1.on(d).len() implies p1.arena().contains_key(#[trigger] p1.on(d)[k]) by {
        assert(p0.arena().contains_key(p0.on(d)[k]));
    }
}

@fn matches
@ret r
@spec
    ensures r == is_match(*a, *b),
@begin
    assert(tags::UNKNOWN_ACCOUNT@ == "unknown-account"@);
    assert(a.raw.account == b.raw.account <==> a.raw.account@ == b.raw.account@);
@props C04 C08

@fn merge
@spec
    ensures is_merged(*old(dest), src, *final(dest)),
@begin
    assert(tags::UNKNOWN_ACCOUNT@ == "unknown-account"@);
@props C05 C08

@fn fingerprints_from_comment
@ret r
@eager &str
@spec
    ensures strs(r@).no_duplicates(), strs(r@).to_set() =~= fps(*$1),
@chain 0 vec &str
    invariant
        vx_it.seq().unref().to_set() == $1.tags@,
        vx_it.seq().unref().no_duplicates(),
        strs(vx_acc@) == vx_it.seq().unref().take(vx_it.index() as int).filter(|t: String| is_fp(t@)),
        vx_it.index() == vx_it.seq().len() ==> strs(vx_acc@).no_duplicates() && strs(vx_acc@).to_set() =~= fps(*$1),
---
    let ghost acc0 = vx_acc@;
    proof {
        lemma_take_filter(vx_it.seq().unref(), vx_it.index() as int, |t: String| is_fp(t@));
        lemma_filter(vx_it.seq().unref(), |t: String| is_fp(t@));
        assert(vx_it.seq().unref()[vx_it.index() as int] == *vx_it.seq()[vx_it.index() as int]);
        assert(vx_it.seq().unref().take(vx_it.seq().len() as int) =~= vx_it.seq().unref());
    }
---
    proof { if vx_acc@.len() > acc0.len() { lemma_strs_push(acc0, vx_acc@.last()); } }
---
@props C03

@fn primary_fingerprint
@ret r
@spec
    requires exists|t: String| fps(*$1).contains(t),
    ensures fps(*$1).contains(mk(r@)),
@chain 0 opt &str
    invariant_except_break
        vx_it.index() == 0, vx_r is None,
    invariant
        strs(vx_it.seq()).to_set() == fps(*$1),
    ensures
        vx_r is Some ==> fps(*$1).contains(mk(vx_r->0@)),
        vx_r is None ==> fps(*$1) =~= Set::<String>::empty(),
---
    proof { assert(strs(vx_it.seq())[0] == mk(vx_x@)); assert(strs(vx_it.seq()).to_set().contains(strs(vx_it.seq())[0])); }
@props C04

@fn Input::iter_fingerprints
@props C02 C03
@ret r
@eager &str
@spec
    ensures strs(r@).no_duplicates(), strs(r@).to_set() =~= fps(self.posting.comment),
@chain 0 vec
    invariant
        strs(vx_it.seq()).no_duplicates(), strs(vx_it.seq()).to_set() =~= fps(self.posting.comment),
        vx_acc@ =~= vx_it.seq().take(vx_it.index() as int),
        vx_it.index() == vx_it.seq().len() ==> vx_acc@ =~= vx_it.seq(),

@fn IndexedPostings::new
@ret r
@spec
    ensures r.wf(), r.arena() == Map::<Index, Holder>::empty(), r.fpx() == Map::<String, Index>::empty(), forall|d: NaiveDate| #[trigger] r.on(d) =~= Seq::<Index>::empty(),
@props C03 C04

@fn IndexedPostings::fingerprint_to_index
@props C02 C03
@ret r
@spec
    ensures r == (if self.fpx().contains_key(mk($1@)) { Some(self.fpx()[mk($1@)]) } else { None }),

@fn IndexedPostings::get
@props C02 C03 C04
@ret r
@spec
    requires self.arena().contains_key($1),
    ensures *r == self.arena()[$1],

@fn IndexedPostings::get_mut
@props C02 C05
@ret r
@spec
    requires old(self).arena().contains_key($1),
    ensures
        *r == old(self).arena()[$1],
        final(self).arena() == old(self).arena().insert($1, *final(r)),
        final(self).posts_by_date == old(self).posts_by_date,
        final(self).post_by_fingerprint == old(self).post_by_fingerprint,

@fn IndexedPostings::date_to_indices
@props C02 C04
@ret r
@eager Index
@spec
    ensures r@ == self.on($1),
@replace opt_vec.into_iter().flat_map(|vec| vec.iter()).copied().collect()
crate::vx::opt_vec_copied(opt_vec)

@fn Holder::get_parent_trn
@props C01 C02
@ret r
@spec
    ensures r == self.parent_trn,

@fn Holder::into_posting_internal
@props C01 C05 C06
@ret r
@spec
    ensures r == self.posting,

@fn Input::into_posting_internal
@props C01 C02
@ret r
@spec
    ensures r == self.posting,

@fn Holder::from_input
@props C01 C02 C05
@ret r
@spec
    ensures r.0.parent_trn == $2, r.0.posting == $1.posting, r.1 == $1.trn_date,

@fn Holder::primary_fingerprint
@props C04 C17
@ret r
@spec
    requires exists|t: String| fps(self.posting.comment).contains(t),
    ensures fps(self.posting.comment).contains(mk(r@)),

@fn Holder::matches
@props C04
@ret r
@spec
    ensures r == is_match(self.posting, $1.posting),

@fn Holder::merge_from_input_posting
@props C05
@spec
    ensures is_merged(old(self).posting, $1.posting, final(self).posting), final(self).parent_trn == old(self).parent_trn,

@fn Input::add_tag
@props C02 C04 C17
@spec
    ensures
        final(self).posting.comment.tags@ == old(self).posting.comment.tags@.insert($1),
        final(self).posting.raw == old(self).posting.raw,
        final(self).posting.comment.lines == old(self).posting.comment.lines,
        final(self).posting.comment.value_tags == old(self).posting.comment.value_tags,
        final(self).trn_date == old(self).trn_date,

@fn IndexedPostings::find_posting_by_fingerprints
@ret r
@spec
    ensures r.wf(), forall|i: Index| #![trigger r.s().contains(i)] #![trigger self.hit($1.posting.comment, i)] r.s().contains(i) <==> self.hit($1.posting.comment, i),
@begin
    proof { assert(crate::merge::matchset::exact_eq::<Index>()); crate::merge::matchset::lemma_dedup_all::<Index>(); }
@chain 0 from crate::merge::matchset::vx_from_iter
    invariant
        strs(vx_it.seq()).to_set() =~= fps($1.posting.comment),
        is_hits(self.fpx(), strs(vx_it.seq()), vx_it.index() as int, vx_acc@),
        vx_it.index() == vx_it.seq().len() ==> forall|i: Index| #[trigger] vx_acc@.contains(i) <==> self.hit($1.posting.comment, i),
---
    let ghost acc0 = vx_acc@;
---
    proof { lemma_hits(*self, $1.posting.comment, strs(vx_it.seq()), vx_it.index() as int, acc0, vx_acc@); }
@props C03

@fn IndexedPostings::find_matching_postings
@ret r
@spec
    requires self.wf(),
    ensures self.matched(*$1, r),
@begin
    proof { assert(crate::merge::matchset::exact_eq::<Index>()); crate::merge::matchset::lemma_dedup_all::<Index>(); crate::merge::matchset::lemma_matchset::<Index>(); }
@chain 0 call crate::merge::matchset::vx_collect
@chain 1 from crate::merge::matchset::vx_from_iter
    invariant
        self.wf(),
        vx_it.seq() == self.on($1.trn_date),
        vx_acc@ == vx_it.seq().take(vx_it.index() as int).filter(|i: Index| is_match(self.arena()[i].posting, $1.posting)),
        vx_it.index() == vx_it.seq().len() ==> vx_acc@ == self.soft($1.posting, $1.trn_date) && vx_acc@.no_duplicates(),
---
    proof {
        let ghost p = |i: Index| is_match(self.arena()[i].posting, $1.posting);
        lemma_take_filter(vx_it.seq(), vx_it.index() as int, p);
        lemma_filter(vx_it.seq(), p);
        assert(vx_it.seq().take(vx_it.seq().len() as int) =~= vx_it.seq());
    }
@chain 2 call crate::merge::matchset::vx_collect
@props C03 C04

@fn IndexedPostings::register_fingerprints
@props C02 C03
@ret r
@eagerparam 1 String
@spec
    ensures
        final(self).post_arena == old(self).post_arena, final(self).posts_by_date == old(self).posts_by_date,
        r is Ok ==> registered(old(self).fpx(), $1@.to_set(), $2, final(self).fpx()),
        r is Err ==> conflict(old(self).fpx(), $1@.to_set(), $2),
@loop 0
    invariant
        self.post_arena == old(self).post_arena, self.posts_by_date == old(self).posts_by_date,
        it.seq() == $1@,
        registered(old(self).fpx(), it.seq().take(it.index() as int).to_set(), $2, self.fpx()),
@loopbegin 0
    proof { lemma_registered(old(self).fpx(), it.seq(), it.index() as int, $2, self.fpx()); }
@loopafter 0
    proof { assert($1@.take($1@.len() as int) =~= $1@); }

@fn IndexedPostings::add
@ret r
@spec
    requires old(self).wf(), is_input($1),
    ensures
        r is Err <==> old(self).any_hit($1.posting.comment),
        r is Ok ==> final(self).wf() && old(self).added($1, $2, r->Ok_0, *final(self)),
@chain 0 vec
    invariant
        strs(vx_it.seq()).to_set() =~= fps($1.posting.comment),
        vx_acc@ =~= strs(vx_it.seq()).take(vx_it.index() as int),
        vx_it.index() == vx_it.seq().len() ==> vx_acc@ =~= strs(vx_it.seq()),
@chain 1 call crate::vx::same
@begin
    proof { lemma_conflict(*self); }
    let ghost c0 = input.posting.comment;
@before `Ok(idx)`
    proof {
        assert(old(self).added(input, $2, idx, *self));
        lemma_added(*old(self), input, $2, idx, *self);
    }
@props C01 C03 C04

@fn IndexedPostings::merge_into
@ret r
@spec
    requires old(self).wf(), old(self).arena().contains_key($1), is_input($2),
    ensures
        r is Err <==> exists|j: Index| old(self).hit($2.posting.comment, j) && j != $1,
        r is Ok ==> final(self).wf() && old(self).combined($2, $1, *final(self)),
@chain 0 vec
    invariant
        strs(vx_it.seq()).to_set() =~= fps($2.posting.comment),
        vx_acc@ =~= strs(vx_it.seq()).take(vx_it.index() as int),
        vx_it.index() == vx_it.seq().len() ==> vx_acc@ =~= strs(vx_it.seq()),
@begin
    proof { lemma_conflict(*self); }
    let ghost c0 = $2.posting.comment;
@before `Ok(())`
    proof {
        assert(old(self).combined($2, $1, *self));
        lemma_combined(*old(self), $2, $1, *self);
    }
@props C01 C03 C05 C08

@fn Input::from_posting_internal
@ret r
@spec
    ensures
        r is Ok <==> has_fp($1.comment) && !has_cand($1.comment),
        r is Ok ==> r->Ok_0.posting == $1 && r->Ok_0.trn_date == $2,
@begin
    assert(tags::CANDIDATE_FP_PREFIX@ == "candidate-"@);
@chain 0 any
    invariant_except_break
        !vx_r,
        forall|j: int| 0 <= j < vx_it.index() ==> !is_cand((#[trigger] vx_it.seq().unref()[j])@),
    invariant
        vx_it.seq().unref().to_set() == $1.comment.tags@,
    ensures
        vx_r == has_cand($1.comment),
---
    proof { assert(vx_it.seq().unref().to_set().contains(vx_it.seq().unref()[vx_it.index() as int])); assert(vx_it.seq().unref()[vx_it.index() as int] == *vx_it.seq()[vx_it.index() as int]); }
@chain 1 any
    invariant_except_break
        !vx_r,
        forall|j: int| 0 <= j < vx_it.index() ==> !is_fp((#[trigger] vx_it.seq().unref()[j])@),
    invariant
        vx_it.seq().unref().to_set() == $1.comment.tags@,
    ensures
        vx_r == has_fp($1.comment),
---
    proof { assert(vx_it.seq().unref().to_set().contains(vx_it.seq().unref()[vx_it.index() as int])); assert(vx_it.seq().unref()[vx_it.index() as int] == *vx_it.seq()[vx_it.index() as int]);
        assert(is_fp(vx_it.seq().unref()[vx_it.index() as int]@) ==> fps($1.comment).contains(vx_it.seq().unref()[vx_it.index() as int])); }
@props C02

@fn IndexedPostings::into_consume
@props C01 C06
@ret r
@spec
    ensures am(r.0) == self.arena(),

@fn ConsumePostings::take
@ret r
@spec
    requires am(old(self).0).contains_key($1),
    ensures r == am(old(self).0)[$1].posting, am(final(self).0) == am(old(self).0).remove($1),
@props C01


@copyfn PartialEq for IndexHashable::eq
@sig fn vx_eq_dest(vx_self: &IndexHashable, other: &IndexHashable) -> (r: bool)
@selfty IndexHashable
@spec
    ensures r == (*vx_self == *other),
@begin
    proof { ax_idx_parts(vx_self.0, other.0); ax_gen_obeys(); ax_gen_eq(gen(vx_self.0), gen(other.0)); }
@vname accountmerge::merge::posting::vx_eq_dest
@props C02
