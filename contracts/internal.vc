@file ledgerutil.rs
@fn simple_posting_amount
@ret r
@spec
    ensures r.amount == $1, r.lot_price is None, r.price is None,
@props C11 C12
@add
/// The transactions of a ledger that holds nothing else, in order, one blank line apart.
pub open spec fn as_items(t: Seq<Transaction>) -> Seq<LedgerItem> { interspersed(t.map_values(|x: Transaction| LedgerItem::Transaction(x)), LedgerItem::EmptyLine) }

@fn ledger_from_transactions
@ret r
@eagerparam 1 Transaction
@spec
    ensures r.items@ == as_items($1@),
@chain 0 vec
    invariant
        vx_it.seq() == $1@,
        vx_acc@ =~= $1@.take(vx_it.index() as int).map_values(|x: Transaction| LedgerItem::Transaction(x)),
        vx_it.index() == vx_it.seq().len() ==> vx_acc@ =~= $1@.map_values(|x: Transaction| LedgerItem::Transaction(x)),
@props C11 C12 C13 C14 C18

@file internal.rs
@wrap TransactionInternal TransactionPostings PostingInternal
@add
use crate::comment::{opt_view, parsed, written};
/// Reading: the comment is taken out and parsed, everything else stays.
pub open spec fn post_in(raw: Posting, p: PostingInternal) -> bool {
    &&& p.raw.account == raw.account && p.raw.reality == raw.reality && p.raw.amount == raw.amount && p.raw.balance == raw.balance && p.raw.status == raw.status
    &&& p.raw.comment is None && parsed(opt_view(raw.comment), p.comment)
}
pub open spec fn head_in(raw: Transaction, t: TransactionInternal) -> bool {
    &&& t.raw.date == raw.date && t.raw.effective_date == raw.effective_date && t.raw.status == raw.status && t.raw.code == raw.code && t.raw.description == raw.description
    &&& t.raw.comment is None && parsed(opt_view(raw.comment), t.comment)
}
pub open spec fn posts_in(raw: Seq<Posting>, p: Seq<PostingInternal>) -> bool {
    p.len() == raw.len() && forall|j: int| 0 <= j < raw.len() ==> post_in(raw[j], #[trigger] p[j])
}
pub open spec fn trn_in(raw: Transaction, t: TransactionPostings) -> bool {
    head_in(raw, t.trn) && t.trn.raw.postings@.len() == 0 && posts_in(raw.postings@, t.posts@)
}
/// Writing: the comment is put back in its one form, everything else stays.
pub open spec fn post_out(p: PostingInternal, raw: Posting) -> bool {
    &&& raw.account == p.raw.account && raw.reality == p.raw.reality && raw.amount == p.raw.amount && raw.balance == p.raw.balance && raw.status == p.raw.status
    &&& opt_view(raw.comment) == written(p.comment)
}
pub open spec fn head_out(t: TransactionInternal, raw: Transaction) -> bool {
    &&& raw.date == t.raw.date && raw.effective_date == t.raw.effective_date && raw.status == t.raw.status && raw.code == t.raw.code && raw.description == t.raw.description
    &&& opt_view(raw.comment) == written(t.comment)
}
pub open spec fn posts_out(p: Seq<PostingInternal>, raw: Seq<Posting>) -> bool {
    raw.len() == p.len() && forall|j: int| 0 <= j < p.len() ==> post_out(p[j], #[trigger] raw[j])
}
pub open spec fn trn_out(t: TransactionPostings, raw: Transaction) -> bool { head_out(t.trn, raw) && posts_out(t.posts@, raw.postings@) }
/// The transactions among the items of a ledger, in order.
pub open spec fn trns_of(s: Seq<LedgerItem>) -> Seq<Transaction>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        let d = trns_of(s.drop_last());
        match s.last() { LedgerItem::Transaction(t) => d.push(t), _ => d }
    }
}
pub open spec fn only_trns(s: Seq<LedgerItem>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] is Transaction || s[i] is EmptyLine }
pub open spec fn trns_in(raw: Seq<Transaction>, t: Seq<TransactionPostings>) -> bool {
    t.len() == raw.len() && forall|i: int| 0 <= i < raw.len() ==> trn_in(raw[i], #[trigger] t[i])
}
pub open spec fn trns_out(t: Seq<TransactionPostings>, raw: Seq<Transaction>) -> bool {
    raw.len() == t.len() && forall|i: int| 0 <= i < t.len() ==> trn_out(t[i], #[trigger] raw[i])
}
impl vstd::std_specs::convert::FromSpecImpl<Transaction> for TransactionInternal { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(a: Transaction) -> Self { arbitrary() } }
impl vstd::std_specs::convert::IntoSpecImpl<Transaction> for TransactionInternal { open spec fn obeys_into_spec() -> bool { false } open spec fn into_spec(self) -> Transaction { arbitrary() } }
impl vstd::std_specs::convert::FromSpecImpl<Transaction> for TransactionPostings { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(a: Transaction) -> Self { arbitrary() } }
impl vstd::std_specs::convert::IntoSpecImpl<Transaction> for TransactionPostings { open spec fn obeys_into_spec() -> bool { false } open spec fn into_spec(self) -> Transaction { arbitrary() } }
impl vstd::std_specs::convert::FromSpecImpl<Posting> for PostingInternal { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(a: Posting) -> Self { arbitrary() } }
impl vstd::std_specs::convert::IntoSpecImpl<Posting> for PostingInternal { open spec fn obeys_into_spec() -> bool { false } open spec fn into_spec(self) -> Posting { arbitrary() } }
/// The ledger that holds these transactions.
pub open spec fn holds(l: Ledger, t: Seq<TransactionPostings>) -> bool { exists|raw: Seq<Transaction>| trns_out(t, raw) && l.items@ == #[trigger] ledgerutil::as_items(raw) }

@fn! PostingInternal::clone_into_posting
@spec
    no_unwind

@fn From<Transaction> for TransactionInternal::from
@ret r
@spec
    ensures head_in($1, r), r.raw.postings == $1.postings,
@props C01 C05 C15 C17 C18

@fn Into<Transaction> for TransactionInternal::into
@ret r
@spec
    ensures head_out(self, r), r.postings == self.raw.postings,
@props C01 C05 C15 C17 C18

@fn From<Posting> for PostingInternal::from
@ret r
@spec
    ensures post_in($1, r),
@props C01 C05 C15 C17 C18

@fn Into<Posting> for PostingInternal::into
@ret r
@spec
    ensures post_out(self, r),
@props C01 C05 C15 C17 C18

@fn From<Transaction> for TransactionPostings::from
@ret r
@spec
    ensures trn_in($1, r),
@begin
    let ghost raw0 = $1;
@chain 0 vec PostingInternal
    invariant
        vx_it.seq() == raw0.postings@,
        vx_acc@.len() == vx_it.index(),
        forall|j: int| 0 <= j < vx_acc@.len() ==> post_in(raw0.postings@[j], #[trigger] vx_acc@[j]),
        vx_it.index() == vx_it.seq().len() ==> posts_in(raw0.postings@, vx_acc@),
@props C01 C05 C15 C17 C18

@fn Into<Transaction> for TransactionPostings::into
@ret r
@spec
    ensures trn_out(self, r),
@begin
    let ghost s0 = self;
@chain 0 vec Posting
    invariant
        vx_it.seq() == s0.posts@,
        vx_acc@.len() == vx_it.index(),
        forall|j: int| 0 <= j < vx_acc@.len() ==> post_out(s0.posts@[j], #[trigger] vx_acc@[j]),
        vx_it.index() == vx_it.seq().len() ==> posts_out(s0.posts@, vx_acc@),
@props C01 C05 C15 C17 C18

@fn TransactionPostings::from_ledger
@ret r
@spec
    ensures
        r is Ok <==> only_trns($1.items@),
        r is Ok ==> trns_in(trns_of($1.items@), r->Ok_0@),
@begin
    let ghost its = $1.items@;
@chain 0 result
    invariant_except_break
        vx_err is None,
        only_trns(its.take(vx_it.index() as int)),
        trns_in(trns_of(its.take(vx_it.index() as int)), vx_acc@),
        vx_it.index() == vx_it.seq().len() ==> its.take(vx_it.index() as int) == its,
    invariant
        vx_it.seq() == its,
    ensures
        vx_err is None <==> only_trns(its),
        vx_err is None ==> trns_in(trns_of(its), vx_acc@),
---
    proof {
        let k = vx_it.index() as int;
        assert(vx_x == its[k]);
        assert(its.take(k + 1).drop_last() =~= its.take(k));
        assert(its.take(k + 1).last() == its[k]);
        assert forall|i: int| 0 <= i < k implies (#[trigger] its[i] is Transaction || its[i] is EmptyLine) by { assert(its.take(k)[i] == its[i]); }
        assert(trns_of(its.take(k + 1)) == match its[k] { LedgerItem::Transaction(t) => trns_of(its.take(k)).push(t), _ => trns_of(its.take(k)) });
        assert(k + 1 == its.len() ==> its.take(k + 1) =~= its);
    }
@props C01 C05 C15 C17 C18

@fn TransactionPostings::into_ledger
@ret r
@spec
    ensures holds(r, $1@),
@chain 0 vec Transaction
    invariant
        vx_it.seq() == $1@,
        vx_acc@.len() == vx_it.index(),
        forall|j: int| 0 <= j < vx_acc@.len() ==> trn_out($1@[j], #[trigger] vx_acc@[j]),
        vx_it.index() == vx_it.seq().len() ==> trns_out($1@, vx_acc@),
@props C01 C05 C15 C17 C18
