@file importers/util.rs
@wrap AccountAmount TransactionHalves FingerprintHalves
@add
use crate::fingerprint::{fp_of, fp_is, str_bytes, fed};
pub open spec fn fp_halves(h: FingerprintHalves, name: Seq<char>, version: i64, ns: Seq<char>, bytes: Seq<u8>) -> bool {
    fp_is(h.self_, name, version, ns, bytes + str_bytes("self"@)) && fp_is(h.peer, name, version, ns, bytes + str_bytes("peer"@))
}
/// The same amount with the other sign.
pub open spec fn negated(a: Amount) -> Amount { Amount { quantity: dec_neg(a.quantity), commodity: a.commodity } }
pub open spec fn peer_account(a: Amount) -> Seq<char> { if dec_negative(a.quantity) { EXPENSES_UNKNOWN@ } else { INCOME_UNKNOWN@ } }
@fn negate_amount
@ret r
@spec
    ensures r == negated($1),
@props C11 C12 C14
@fn self_and_peer_account_amount
@ret r
@spec
    ensures
        r.self_.account@ == $2@, r.self_.amount == $1,
        r.peer.account@ == peer_account($1), r.peer.amount == negated($1),
@props C11 C10 C20
@fn self_and_peer_fingerprints
@ret r
@spec
    ensures
        fp_halves(r, $1.algorithm_name@, $1.algorithm_version, $1.user_namespace@, fed($1.acc)),
@props C10 C11 C20

@file accounts.rs
@wrap ASSETS_UNKNOWN EXPENSES_UNKNOWN INCOME_UNKNOWN

@file importers/importer.rs
@wrap Import
@wrapimpl TransactionImporter
@add in TransactionImporter
    /// What may come of an import, and when one fails.
    spec fn gives(&self, i: Import) -> bool;
    spec fn bad(&self) -> bool;
@fn TransactionImporter::get_transactions
@ret r
@spec
    ensures r matches Ok(i) ==> self.gives(i), r is Err ==> self.bad(),
@noquery
