@file merge/matchset.rs
@wrap MatchSet Container IntoIter IterInner
@pubfields Container IntoIter IterInner
@add 
/// `==` on T is equality of values.
pub open spec fn exact_eq<T: PartialEq>() -> bool {
    &&& <T as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec()
    &&& forall|a: T, b: T| #[trigger] a.eq_spec(&b) == (a == b)
}
impl<T> MatchSet<T> {
    /// The values held, in insertion order.
    pub open spec fn s(&self) -> Seq<T> {
        match self { MatchSet::Zero => Seq::empty(), MatchSet::One(v) => seq![*v], MatchSet::Many(c) => c.0@ }
    }
    pub open spec fn wf(&self) -> bool {
        self.s().no_duplicates() && (self is Many ==> self.s().len() >= 2)
    }
}
pub assume_specification<T> [<MatchSet<T> as Default>::default] () -> (r: MatchSet<T>)
    ensures r == MatchSet::<T>::Zero;
/// `s` without repetitions, first occurrences kept.
pub open spec fn dedup<T>(s: Seq<T>) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        let d = dedup(s.drop_last());
        if d.contains(s.last()) { d } else { d.push(s.last()) }
    }
}
pub proof fn lemma_dedup<T>(s: Seq<T>)
    ensures
        dedup(s).no_duplicates(),
        forall|x: T| #[trigger] dedup(s).contains(x) <==> s.contains(x),
        s.no_duplicates() ==> dedup(s) == s,
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last();
        let d = dedup(p);
        lemma_dedup(p);
        assert(p.push(s.last()) =~= s);
        assert forall|x: T| #[trigger] dedup(s).contains(x) <==> s.contains(x) by {
            if s.contains(x) {
                let i = choose|i: int| 0 <= i < s.len() && s[i] == x;
                if i < p.len() {
                    assert(p[i] == x); assert(p.contains(x)); assert(d.contains(x));
                    let k = choose|k: int| 0 <= k < d.len() && d[k] == x;
                    assert(dedup(s)[k] == x);
                } else if !d.contains(x) { assert(dedup(s).last() == x); }
            }
            if dedup(s).contains(x) {
                if d.contains(x) { assert(p.contains(x)); let i = choose|i: int| 0 <= i < p.len() && p[i] == x; assert(s[i] == x); }
                else { let k = choose|k: int| 0 <= k < dedup(s).len() && dedup(s)[k] == x; if k < d.len() { assert(d[k] == x); } assert(s.last() == x); assert(s[s.len() - 1] == x); }
            }
        }
        if s.no_duplicates() {
            assert(p.no_duplicates());
            assert(!p.contains(s.last())) by { if p.contains(s.last()) { let i = choose|i: int| 0 <= i < p.len() && p[i] == s.last(); assert(s[i] == s[s.len() - 1]); } }
        }
    }
}
pub proof fn lemma_dedup_all<T>()
    ensures
        forall|s: Seq<T>| #![trigger dedup(s)] dedup(s).no_duplicates() && (s.no_duplicates() ==> dedup(s) == s),
        forall|s: Seq<T>, x: T| #![trigger dedup(s).contains(x)] dedup(s).contains(x) <==> s.contains(x),
{
    assert forall|s: Seq<T>| #![trigger dedup(s)] dedup(s).no_duplicates() && (s.no_duplicates() ==> dedup(s) == s) by { lemma_dedup(s); }
    assert forall|s: Seq<T>, x: T| #![trigger dedup(s).contains(x)] dedup(s).contains(x) <==> s.contains(x) by { lemma_dedup(s); }
}
pub proof fn lemma_matchset<T>()
    ensures
        forall|v: T, x: T| #![trigger MatchSet::One(v).s().contains(x)] MatchSet::One(v).s().contains(x) <==> x == v,
        forall|v: T| #![trigger MatchSet::One(v).s()] MatchSet::One(v).s().contains(v) && MatchSet::One(v).s() == seq![v],
        forall|x: T| #![trigger MatchSet::<T>::Zero.s().contains(x)] !MatchSet::<T>::Zero.s().contains(x),
        MatchSet::<T>::Zero.s() == Seq::<T>::empty(),
{
    assert forall|v: T| #![trigger MatchSet::One(v).s()] MatchSet::One(v).s().contains(v) && MatchSet::One(v).s() == seq![v] by { assert(MatchSet::One(v).s()[0] == v); }
}
use vstd::std_specs::iter::IteratorSpec;
/// What an iterator over a set still has to give.
#[verifier::prophetic]
pub open spec fn left<T>(i: IntoIter<T>) -> Seq<T> {
    match i.0 { IterInner::Zero => Seq::empty(), IterInner::One(v) => seq![v], IterInner::Many(x) => x.remaining() }
}
/// Collecting a container asks its iterator for the next element until there is none.
pub fn vx_collect<T: 'static>(c: Container<T>) -> (r: Vec<T>)
    ensures r@ == c.0@
{
    let mut i = vx_container_iter(c);
    let mut r: Vec<T> = Vec::new();
    loop
        invariant_except_break r@ + left(i) == c.0@,
        ensures r@ == c.0@,
        decreases c.0@.len() - r@.len(),
    {
        proof { assert((r@ + left(i)).len() == c.0@.len()); }
        let ghost n = r@.len();
        match vx_into_next(&mut i) {
            Some(v) => { proof { assert(c.0@[n as int] == v); } r.push(v); proof { assert(r@ + left(i) =~= c.0@); } }
            None => { proof { assert(r@ =~= c.0@); } break; }
        }
    }
    r
}
@copyfn IntoIterator for Container<T>::into_iter
@selfty Container<T>
@sig pub fn vx_container_iter<T: 'static>(vx_self: Container<T>) -> (r: IntoIter<T>)
@spec
    ensures left(r) == vx_self.0@,
@vname accountmerge::merge::matchset::vx_container_iter
@props C04 C21
@copyfn Iterator for IntoIter<T>::next
@selfty IntoIter<T>
@sig pub fn vx_into_next<T: 'static>(vx_self: &mut IntoIter<T>) -> (r: Option<T>)
@spec
    ensures
        left(*old(vx_self)).len() == 0 ==> r is None,
        left(*old(vx_self)).len() > 0 ==> r == Some(left(*old(vx_self))[0]) && left(*final(vx_self)) == left(*old(vx_self)).skip(1),
@vname accountmerge::merge::matchset::vx_into_next
@props C04 C21
@fn MatchSet<T>::insert
@spec
    requires old(self).wf(), exact_eq::<T>(),
    ensures
        final(self).wf(),
        final(self).s() =~= (if old(self).s().contains($1) { old(self).s() } else { old(self).s().push($1) }),
@end
    proof {
        assert(*old(self) is One ==> old(self).s()[0] == (*old(self))->One_0);
        assert(*old(self) is Zero ==> !old(self).s().contains($1));
        assert(*old(self) is Zero ==> self.s() =~= old(self).s().push($1));
        assert(*old(self) is One ==> (old(self).s().contains($1) <==> (*old(self))->One_0 == $1));
        assert(*old(self) is One ==> self.s() =~= (if old(self).s().contains($1) { old(self).s() } else { old(self).s().push($1) }));
        assert(*old(self) is Many ==> self.s() =~= (if old(self).s().contains($1) { old(self).s() } else { old(self).s().push($1) }));
        assert(*old(self) is One ==> self.s().no_duplicates());
        assert(*old(self) is Zero ==> self.s().no_duplicates());
        assert(*old(self) is Many ==> self.s().no_duplicates());
    }
@props C03 C04

@copyfn FromIterator<A> for MatchSet<A>::from_iter
@selfty MatchSet<A>
@sig pub fn vx_from_iter<A: PartialEq>(iter: Vec<A>) -> (r: MatchSet<A>)
@spec
    requires exact_eq::<A>(),
    ensures r.wf(), r.s() == dedup(iter@),
@chain 0 for_each
    invariant
        exact_eq::<A>(),
        vx_it.seq() == iter@,
        m.wf(), m.s() == dedup(iter@.take(vx_it.index() as int)),
---
---
    proof { assert(iter@.take(vx_it.index() + 1).drop_last() =~= iter@.take(vx_it.index() as int)); }
---
    proof { assert(iter@.take(iter@.len() as int) =~= iter@); }
@vname accountmerge::merge::matchset::vx_from_iter
@props C03 C04
