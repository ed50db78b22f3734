@file fpgen.rs
@pubfields Cmd
@add
#[verifier::external_type_specification]
pub struct ExCmd(Cmd);
use crate::internal::{trns_in, trns_of, only_trns, holds};
use ledger_parser::Ledger;
use crate::internal::PostingInternal;
/// `b` is `a` with a fingerprint: `a` itself when it has one, else `a` with exactly one new tag.
pub open spec fn tagged(a: PostingInternal, b: PostingInternal) -> bool {
    if crate::comment::has_fp(a.comment) { b == a } else {
        &&& b.raw == a.raw && b.comment.lines == a.comment.lines && b.comment.value_tags == a.comment.value_tags
        &&& exists|t: String| is_fp(t@) && #[trigger] a.comment.tags@.insert(t) == b.comment.tags@
    }
}
pub open spec fn tagged_all(a: Seq<PostingInternal>, b: Seq<PostingInternal>) -> bool {
    b.len() == a.len() && forall|j: int| 0 <= j < a.len() ==> tagged(a[j], #[trigger] b[j])
}
pub open spec fn tagged_trn(a: TransactionPostings, b: TransactionPostings) -> bool { b.trn == a.trn && tagged_all(a.posts@, b.posts@) }
/// Everything has a fingerprint afterwards, so that a second run changes nothing.
pub proof fn lemma_tagged_twice(a: PostingInternal, b: PostingInternal, c: PostingInternal)
    requires tagged(a, b), tagged(b, c),
    ensures crate::comment::has_fp(b.comment), c == b,
{
    if !crate::comment::has_fp(a.comment) {
        let t = choose|t: String| is_fp(t@) && #[trigger] a.comment.tags@.insert(t) == b.comment.tags@;
        assert(b.comment.tags@.contains(t));
        assert(crate::comment::fps(b.comment).contains(t));
    }
}
/// The command that was asked for.
pub uninterp spec fn asked(c: Cmd) -> bool;
pub open spec fn all_tagged(a: Seq<TransactionPostings>, b: Seq<TransactionPostings>) -> bool {
    b.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> tagged_trn(a[i], #[trigger] b[i])
}
/// What a journal is rewritten to: the same transactions, each posting with a fingerprint.
pub open spec fn rewritten(f: FileSpec, l: Ledger, a: Seq<TransactionPostings>, b: Seq<TransactionPostings>, o: Ledger) -> bool {
    filespec::was_read(f, l) && only_trns(l.items@) && trns_in(trns_of(l.items@), a) && all_tagged(a, b) && holds(o, b)
}
pub axiom fn ax_may_rewrite(c: Cmd, k: int, l: Ledger, a: Seq<TransactionPostings>, b: Seq<TransactionPostings>, o: Ledger)
    requires asked(c), 0 <= k < c.journals@.len(), rewritten(c.journals@[k], l, a, b, o),
    ensures filespec::may_write(c.journals@[k], o);
pub open spec fn journal_done(f: FileSpec) -> bool {
    exists|l: Ledger, a: Seq<TransactionPostings>, b: Seq<TransactionPostings>, o: Ledger| #[trigger] rewritten(f, l, a, b, o) && filespec::wrote(f, o)
}
pub open spec fn journal_bad(f: FileSpec) -> bool {
    filespec::unreadable(f) || filespec::unwritable(f) || exists|l: Ledger| #[trigger] filespec::was_read(f, l) && !only_trns(l.items@)
}

@fn Cmd::run
@ret r
@spec
    requires asked(*self),
    ensures
        r is Ok ==> forall|k: int| 0 <= k < self.journals@.len() ==> journal_done(#[trigger] self.journals@[k]),
        r is Err ==> exists|k: int| 0 <= k < self.journals@.len() && journal_bad(#[trigger] self.journals@[k]),
@loop 0
    invariant
        asked(*self), it.seq().unref() == self.journals@,
        forall|k: int| 0 <= k < it.index() ==> journal_done(#[trigger] self.journals@[k]),
@loopbegin 0
    let ghost k = it.index() as int;
    proof { assert(it.seq().unref()[k] == *it.seq()[k]); assert(self.journals@[k] == *ledger_file); }
@safter `filespec::read_ledger_file`
    let ghost l0 = ledger;
@safter `from_ledger(`
    let ghost a0 = trns@;
@sbefore `let ledger = TransactionPostings::into_ledger`
    let ghost b0 = trns@;
@sbefore `filespec::write_ledger_file`
    proof {
        assert(rewritten(*ledger_file, l0, a0, b0, ledger));
        ax_may_rewrite(*self, k, l0, a0, b0, ledger);
    }
@loopend 0
    proof { assert(rewritten(*ledger_file, l0, a0, b0, ledger) && filespec::wrote(*ledger_file, ledger)); }
@props C17 C18

@fn update_transactions
@spec
    ensures
        final($1)@.len() == old($1)@.len(),
        forall|i: int| 0 <= i < old($1)@.len() ==> tagged_trn(old($1)@[i], #[trigger] final($1)@[i]),
@replace `uuid_b64::UuidB64::new().to_istring()`
crate::vx::uuid_text()
@begin
    let ghost v0 = $1@;
    let ghost v1 = final($1)@;
@loop 0
    invariant
        it.seq().len() == v0.len(), v1.len() == v0.len(),
        forall|j: int| 0 <= j < it.seq().len() ==> *(#[trigger] it.seq()[j]) == v0[j] && *final(it.seq()[j]) == v1[j],
        forall|j: int| 0 <= j < it.index() ==> tagged_trn(v0[j], #[trigger] v1[j]),
@loopbegin 0
    let ghost k = it.index() as int;
    proof { assert(*it.seq()[k] == *trn); assert(*final(it.seq()[k]) == v1[k]); }
    let ghost p0 = trn.posts@;
    let ghost p1 = final(trn).posts@;
    let ghost t0 = trn.trn;
@loopend 0
    proof { assert(trn.trn == t0); assert(trn.posts@ == p1); }
@loop 1
    it = it2
    invariant
        it2.seq().len() == p0.len(), p1.len() == p0.len(),
        forall|j: int| 0 <= j < it2.seq().len() ==> *(#[trigger] it2.seq()[j]) == p0[j] && *final(it2.seq()[j]) == p1[j],
        forall|j: int| 0 <= j < it2.index() ==> tagged(p0[j], #[trigger] p1[j]),
        it2.index() == it2.seq().len() ==> tagged_all(p0, p1),
@loopbegin 1
    let ghost k2 = it2.index() as int;
    proof { assert(*it2.seq()[k2] == *post); assert(*final(it2.seq()[k2]) == p1[k2]); }
    let ghost q0 = *post;
@loopend 1
    proof { assert(tagged(q0, *post)); }
@chain 0 any
    invariant_except_break
        !vx_r,
        forall|j: int| 0 <= j < vx_it.index() ==> !is_fp((#[trigger] vx_it.seq()[j])@),
        vx_it.index() == vx_it.seq().len() ==> !crate::comment::has_fp(post.comment),
    invariant
        vx_it.seq().unref().to_set() == post.comment.tags@,
    ensures
        vx_r == crate::comment::has_fp(post.comment),
---
    proof {
        let i = vx_it.index() as int;
        assert(vx_it.seq().unref()[i] == *vx_it.seq()[i]);
        assert(post.comment.tags@.contains(*vx_it.seq()[i]));
        assert(is_fp(vx_it.seq()[i]@) ==> crate::comment::fps(post.comment).contains(*vx_it.seq()[i]));
    }
@props C17

@file fmt.rs
@pubfields Cmd
@add
#[verifier::external_type_specification]
pub struct ExFmtCmd(Cmd);
use ledger_parser::Ledger;
/// The command that was asked for.
pub uninterp spec fn asked(c: Cmd) -> bool;
/// What a journal is rewritten to: what was read from it.
pub axiom fn ax_may_rewrite(c: Cmd, k: int, l: Ledger)
    requires asked(c), 0 <= k < c.journals@.len(), filespec::was_read(c.journals@[k], l),
    ensures filespec::may_write(c.journals@[k], l);
pub open spec fn journal_done(f: FileSpec) -> bool { exists|l: Ledger| #[trigger] filespec::was_read(f, l) && filespec::wrote(f, l) }
@fn Cmd::run
@ret r
@spec
    requires asked(*self),
    ensures
        r is Ok ==> forall|k: int| 0 <= k < self.journals@.len() ==> journal_done(#[trigger] self.journals@[k]),
        r is Err ==> exists|k: int| 0 <= k < self.journals@.len() && (filespec::unreadable(#[trigger] self.journals@[k]) || filespec::unwritable(self.journals@[k])),
@loop 0
    invariant
        asked(*self), it.seq().unref() == self.journals@,
        forall|k: int| 0 <= k < it.index() ==> journal_done(#[trigger] self.journals@[k]),
@loopbegin 0
    let ghost k = it.index() as int;
    proof { assert(it.seq().unref()[k] == *it.seq()[k]); assert(self.journals@[k] == *ledger_file); }
@sbefore `filespec::write_ledger_file`
    proof { ax_may_rewrite(*self, k, ledger); }
@props C18 C09
