@file importers/nationwide.rs
@wrap BANK_NAME FIXED_PREFIX LOOKUP_PREFIX
@add
#[verifier::external_type_specification]
pub struct ExCommonOpts(CommonOpts);
#[verifier::external_type_specification]
pub struct ExFpNamespace(FpNamespace);
/// The first eight characters of the hash of the bank's and the account's names.
pub open spec fn generated(account: Seq<char>) -> Seq<char> {
    crate::fingerprint::hash64(crate::fingerprint::str_bytes("Nationwide"@) + crate::fingerprint::str_bytes(account)).take(8)
}
pub open spec fn ns_of(f: FpNamespace, account: Seq<char>) -> Option<Seq<char>> {
    match f {
        FpNamespace::AccountName => Some(account),
        FpNamespace::Fixed(s) => Some(s@),
        FpNamespace::Generated => Some(generated(account)),
        FpNamespace::Lookup(t) => if t@.contains_key(mk(account)) { Some(t@[mk(account)]@) } else { None },
    }
}
/// What a text given for the namespace option chooses: `file` is the file of a lookup.
pub open spec fn chosen(s: Seq<char>, f: FpNamespace) -> bool {
    if s == "account-name"@ { f is AccountName }
    else if s == "generated"@ { f is Generated }
    else if "fixed:"@.is_prefix_of(s) { match f { FpNamespace::Fixed(x) => x@ == s.skip(6), _ => false } }
    else { "lookup:"@.is_prefix_of(s) && match f { FpNamespace::Lookup(m) => looked_up(lookup_file(s), m), _ => false } }
}
pub open spec fn looked_up(fs: FileSpec, m: HashMap<String, String>) -> bool { exists|d: Seq<u8>| #[trigger] crate::filespec::held(fs, d) && ron_spelt::<HashMap<String, String>>(d) == Some(m) }
pub open spec fn lookup_file(s: Seq<char>) -> FileSpec { if s.skip(7) == "-"@ { FileSpec::Stdio } else { FileSpec::Path(text_path(s.skip(7))) } }
pub open spec fn unusable(s: Seq<char>) -> bool {
    s != "account-name"@ && s != "generated"@ && !"fixed:"@.is_prefix_of(s)
    && (!"lookup:"@.is_prefix_of(s) || crate::filespec::no_access(lookup_file(s)) || exists|d: Seq<u8>| #[trigger] crate::filespec::held(lookup_file(s), d) && ron_spelt::<HashMap<String, String>>(d) is None)
}
@fn FromStr for FpNamespace::from_str
@ret r
@begin
    proof {
        reveal_strlit("fixed:"); reveal_strlit("lookup:");
        if $1@ == "account-name"@ { ax_str_ext($1, "account-name"); }
        if $1@ == "generated"@ { ax_str_ext($1, "generated"); }
        if "fixed:"@.is_prefix_of($1@) { assert($1@.take(6) =~= "fixed:"@); }
        if "lookup:"@.is_prefix_of($1@) { assert($1@.take(7) =~= "lookup:"@); }
    }
@replace `s[FIXED_PREFIX.len()..].to_string()`
crate::vx::str_from(s, crate::vx::str_len(FIXED_PREFIX), Ghost(6)).to_string()
@replace `&s[LOOKUP_PREFIX.len()..]`
crate::vx::str_from(s, crate::vx::str_len(LOOKUP_PREFIX), Ghost(7))
@replace `ron::de::from_reader(reader)?`
crate::vx::ron_from::<HashMap<String, String>, Box<dyn std::io::Read>>(reader)?
@spec
    ensures r matches Ok(f) ==> chosen($1@, f), r is Err ==> unusable($1@),
@props C10 C20
@fn FpNamespace::make_namespace
@begin
    proof {
        let b = crate::fingerprint::str_bytes("Nationwide"@) + crate::fingerprint::str_bytes($1@);
        crate::fingerprint::ax_hash64(b);
        assert(Seq::<u8>::empty() + crate::fingerprint::str_bytes("Nationwide"@) =~= crate::fingerprint::str_bytes("Nationwide"@));
    }
@ret r
@spec
    ensures
        r is Ok <==> ns_of(*self, $1@) is Some,
        r matches Ok(s) ==> ns_of(*self, $1@) == Some(s@),
@props C10 C20

@file importers/nationwide_csv.rs
@wrap TRANSACTION_TYPE_TAG TRANSACTIONS_TAG LOCATION_TAG
@wrapimpl PostingFormer
@wrapimpl TransactionImporter for NationwideCsv
@pubfields AccountName AccountQuantity NationwideCsv de::RecordFive de::RecordSix de::GbpValue
@wrap de::Date de::DateVisitor de::GbpValueVisitor
@wrapimpl de::de::Visitor<'de > for DateVisitor
@wrapimpl de::de::Visitor<'de > for GbpValueVisitor
@wrapimpl de::Fingerprintable for &GbpValue
@add
use crate::comment::{opt_view, written, holds, says};
use crate::fingerprint::*;
use crate::importers::util::{negated, peer_account};
use ledger_parser::PostingAmount;
#[verifier::external_type_specification]
pub struct ExNationwideCsv(NationwideCsv);
#[verifier::external_type_specification]
pub struct ExRecordFive(RecordFive);
#[verifier::external_type_specification]
pub struct ExRecordSix(RecordSix);
pub open spec fn simple(a: Amount) -> PostingAmount { PostingAmount { amount: a, lot_price: None, price: None } }
/// A plain posting of an amount.
pub open spec fn posts(p: Posting, account: Seq<char>, a: Amount, b: Option<Balance>) -> bool {
    p.account@ == account && p.reality is Real && p.amount == Some(simple(a)) && p.balance == b && p.status is None
}
/// What a row pays, if it pays one way only.
pub open spec fn paid(paid_in: Option<GbpValue>, paid_out: Option<GbpValue>) -> Option<Amount> {
    match (paid_in, paid_out) {
        (Some(a), None) => Some(a.0),
        (None, Some(a)) => Some(negated(a.0)),
        _ => None,
    }
}
/// The pair of postings of a row: opposite amounts, the peer's account by the sign.
pub open spec fn pair(a: Amount, b: Option<Balance>, p: (Posting, Posting)) -> bool {
    posts(p.0, ASSETS_UNKNOWN@, a, b) && posts(p.1, peer_account(a), negated(a), None)
}
pub open spec fn seq_text(ns: Seq<char>, n: int) -> Seq<char> { ns + "-"@ + disp(&((n + 1) as i32)) }
pub open spec fn amt(v: Option<GbpValue>) -> Option<Amount> { match v { Some(g) => Some(g.0), None => None } }
pub open spec fn gbp(v: Option<GbpValue>) -> Seq<u8> { opt_amount_bytes(amt(v)) }
pub open spec fn five_bytes(r: RecordFive, n: i32) -> Seq<u8> {
    date_bytes(r.date.0) + be(n as int, 4) + str_bytes(r.transactions@) + str_bytes(r.location@) + gbp(r.paid_out) + gbp(r.paid_in)
}
pub open spec fn six_bytes(r: RecordSix, n: i32) -> Seq<u8> {
    str_bytes(r.type_@) + date_bytes(r.date.0) + be(n as int, 4) + str_bytes(r.description@) + gbp(r.paid_out) + gbp(r.paid_in) + amount_bytes(r.balance.0)
}
pub open spec fn legacy_bytes(r: RecordSix, n: i32) -> Seq<u8> {
    str_bytes(r.type_@) + date_bytes(r.date.0) + str_bytes(""@) + amount_bytes(r.balance.0) + be(n as int, 4)
}
pub open spec fn base_values(account: Seq<char>) -> Map<String, String> {
    Map::<String, String>::empty().insert(mk("account"@), mk(account)).insert(mk("bank"@), mk("Nationwide"@))
}
pub open spec fn five_values(r: RecordFive, account: Seq<char>) -> Map<String, String> {
    let m = base_values(account).insert(mk("transactions"@), r.transactions);
    if r.location@.len() == 0 { m } else { m.insert(mk("location"@), r.location) }
}
pub open spec fn six_values(r: RecordSix, account: Seq<char>) -> Map<String, String> {
    base_values(account).insert(mk("trn_type"@), r.type_)
}
pub open spec fn half_tags(fp: Seq<char>, side: Seq<char>) -> Set<String> {
    Set::<String>::empty().insert(mk("unknown-account"@)).insert(mk(fp)).insert(mk(side))
}
/// The texts of a record's fields. serde reads them in order, each by the visitor of its type; an optional one that is
/// empty or missing is none.
pub uninterp spec fn fields(sr: csv::StringRecord) -> Seq<Seq<char>>;
pub open spec fn field(f: Seq<Seq<char>>, i: int) -> Seq<char> { if 0 <= i < f.len() { f[i] } else { Seq::empty() } }
pub open spec fn date_spelt(s: Seq<char>) -> Option<NaiveDate> { parsed_date(s, "%d %b %Y"@) }
pub open spec fn money_read(s: Seq<char>, v: Option<GbpValue>) -> bool {
    match v { None => s.len() == 0, Some(g) => de::money_spelt(s) is Some && de::is_gbp(g.0, de::money_spelt(s)->0) }
}
pub open spec fn five_spelt(f: Seq<Seq<char>>, r: RecordFive) -> bool {
    date_spelt(field(f, 0)) == Some(r.date.0) && r.transactions@ == field(f, 1) && r.location@ == field(f, 2)
    && money_read(field(f, 3), r.paid_out) && money_read(field(f, 4), r.paid_in)
}
pub open spec fn six_spelt(f: Seq<Seq<char>>, r: RecordSix) -> bool {
    date_spelt(field(f, 0)) == Some(r.date.0) && r.type_@ == field(f, 1) && r.description@ == field(f, 2)
    && money_read(field(f, 3), r.paid_out) && money_read(field(f, 4), r.paid_in) && money_read(field(f, 5), Some(r.balance))
}
pub axiom fn ax_five(sr: csv::StringRecord) ensures row_ok::<RecordFive>(sr) ==> five_spelt(fields(sr), row_of::<RecordFive>(sr));
pub axiom fn ax_six(sr: csv::StringRecord) ensures row_ok::<RecordSix>(sr) ==> six_spelt(fields(sr), row_of::<RecordSix>(sr));
pub open spec fn pence_of(a: Amount) -> int { dec_signed(a.quantity) }
/// The transaction of a row, by the texts of the row: its date and its two amounts in pence.
pub open spec fn paid_text(out: Seq<char>, inn: Seq<char>) -> int {
    let p = |s: Seq<char>| if (de::money_spelt(s)->0).0 { -((de::money_spelt(s)->0).1 as int) } else { (de::money_spelt(s)->0).1 as int };
    if out.len() == 0 { p(inn) } else { -p(out) }
}
pub open spec fn by_text(f: Seq<Seq<char>>, t: Transaction) -> bool {
    let a = t.postings@[0].amount; let b = t.postings@[1].amount;
    &&& date_spelt(field(f, 0)) == Some(t.date)
    &&& (field(f, 3).len() == 0) != (field(f, 4).len() == 0)
    &&& a is Some && b is Some
    &&& (a->0).amount.commodity.name@ == "GBP"@ && (b->0).amount.commodity.name@ == "GBP"@
    &&& dec_scale((a->0).amount.quantity) == 2 && dec_scale((b->0).amount.quantity) == 2
    &&& pence_of((a->0).amount) == paid_text(field(f, 3), field(f, 4)) && pence_of((b->0).amount) == -pence_of((a->0).amount)
}
proof fn lemma_paid(f: Seq<Seq<char>>, out: Option<GbpValue>, inn: Option<GbpValue>)
    requires money_read(field(f, 3), out), money_read(field(f, 4), inn), paid(inn, out) is Some,
    ensures
        (field(f, 3).len() == 0) != (field(f, 4).len() == 0),
        (paid(inn, out)->0).commodity.name@ == "GBP"@, dec_scale((paid(inn, out)->0).quantity) == 2,
        pence_of(paid(inn, out)->0) == paid_text(field(f, 3), field(f, 4)),
        pence_of(negated(paid(inn, out)->0)) == -pence_of(paid(inn, out)->0), dec_scale(negated(paid(inn, out)->0).quantity) == 2,
        negated(paid(inn, out)->0).commodity.name@ == "GBP"@,
{ if out is Some { ax_dec_neg((out->0).0.quantity); } ax_dec_neg((paid(inn, out)->0).quantity); }
pub proof fn lemma_five_text(rows: Seq<Row>, i: int, ns: Seq<char>, account: Seq<char>, legacy: bool, t: Transaction)
    requires 0 <= i < rows.len(), good_row::<RecordFive>(rows[i]), row_trn::<RecordFive>(rows, i, ns, account, legacy, t),
    ensures by_text(fields(rows[i]->Ok_0), t), t.description@ == (if field(fields(rows[i]->Ok_0), 2).len() == 0 { field(fields(rows[i]->Ok_0), 1) } else { field(fields(rows[i]->Ok_0), 1) + " @ "@ + field(fields(rows[i]->Ok_0), 2) }),
{ let r = row_at::<RecordFive>(rows, i); ax_five(rows[i]->Ok_0); lemma_paid(fields(rows[i]->Ok_0), r.paid_out, r.paid_in); }
pub proof fn lemma_six_text(rows: Seq<Row>, i: int, ns: Seq<char>, account: Seq<char>, legacy: bool, t: Transaction)
    requires 0 <= i < rows.len(), good_row::<RecordSix>(rows[i]), row_trn::<RecordSix>(rows, i, ns, account, legacy, t),
    ensures
        by_text(fields(rows[i]->Ok_0), t), t.description@ == field(fields(rows[i]->Ok_0), 2),
        t.postings@[0].balance matches Some(Balance::Amount(b)) && de::is_gbp(b, de::money_spelt(field(fields(rows[i]->Ok_0), 5))->0),
{ let r = row_at::<RecordSix>(rows, i); ax_six(rows[i]->Ok_0); lemma_paid(fields(rows[i]->Ok_0), r.paid_out, r.paid_in); }
/// How many rows of the same date come directly before this one.
pub open spec fn counter(d: spec_fn(int) -> NaiveDate, i: int) -> int
    decreases i
{ if i <= 0 || d(i - 1) != d(i) { 0 } else { counter(d, i - 1) + 1 } }
pub type Row = Result<csv::StringRecord, csv::Error>;
pub open spec fn row_at<T>(rows: Seq<Row>, i: int) -> T { row_of::<T>(rows[i]->Ok_0) }
pub open spec fn good_row<T: PostingFormer>(r: Row) -> bool { r is Ok && row_ok::<T>(r->Ok_0) && row_of::<T>(r->Ok_0).row_good() }
pub open spec fn row_dates<T: PostingFormer>(rows: Seq<Row>) -> spec_fn(int) -> NaiveDate { |i: int| row_at::<T>(rows, i).row_date() }
/// The transaction of a row.
pub open spec fn row_trn<T: PostingFormer>(rows: Seq<Row>, i: int, ns: Seq<char>, account: Seq<char>, legacy: bool, t: Transaction) -> bool {
    let r = row_at::<T>(rows, i);
    t.date == r.row_date() && t.description@ == r.row_text() && t.comment is None && t.status is None && t.code is None && t.effective_date is None
    && t.postings@.len() == 2 && r.row_posts(ns, account, counter(row_dates::<T>(rows), i) as i32, legacy, (t.postings@[0], t.postings@[1]))
}
/// A row and its number of the day are read off the bytes hashed: rows that differ in any of these differ in their bytes.
pub proof fn lemma_five(a: RecordFive, n: i32, x: Seq<u8>, b: RecordFive, m: i32, y: Seq<u8>)
    requires five_bytes(a, n) + x == five_bytes(b, m) + y, 0 <= n, 0 <= m,
    ensures
        a.date.0 == b.date.0, n == m, a.transactions@ == b.transactions@, a.location@ == b.location@, x == y,
        a.paid_in is Some == b.paid_in is Some, a.paid_out is Some == b.paid_out is Some,
        a.paid_in is Some ==> (a.paid_in->0).0.quantity == (b.paid_in->0).0.quantity,
        a.paid_out is Some ==> (a.paid_out->0).0.quantity == (b.paid_out->0).0.quantity,
{
    ax_blen_string(a.transactions); ax_blen_string(b.transactions); ax_blen_string(a.location); ax_blen_string(b.location);
    let a5 = gbp(a.paid_in) + x; let b5 = gbp(b.paid_in) + y;
    let a4 = gbp(a.paid_out) + a5; let b4 = gbp(b.paid_out) + b5;
    let a3 = str_bytes(a.location@) + a4; let b3 = str_bytes(b.location@) + b4;
    let a2 = str_bytes(a.transactions@) + a3; let b2 = str_bytes(b.transactions@) + b3;
    let a1 = be(n as int, 4) + a2; let b1 = be(m as int, 4) + b2;
    lemma_assoc6(date_bytes(a.date.0), be(n as int, 4), str_bytes(a.transactions@), str_bytes(a.location@), gbp(a.paid_out), gbp(a.paid_in), x);
    lemma_assoc6(date_bytes(b.date.0), be(m as int, 4), str_bytes(b.transactions@), str_bytes(b.location@), gbp(b.paid_out), gbp(b.paid_in), y);
    lemma_date_cut(a.date.0, a1, b.date.0, b1);
    lemma_num4_cut(n as int, a2, m as int, b2);
    lemma_str_cut(a.transactions@, a3, b.transactions@, b3);
    lemma_str_cut(a.location@, a4, b.location@, b4);
    lemma_opt_amount_cut(amt(a.paid_out), a5, amt(b.paid_out), b5);
    lemma_opt_amount_cut(amt(a.paid_in), x, amt(b.paid_in), y);
}
pub proof fn lemma_six(a: RecordSix, n: i32, x: Seq<u8>, b: RecordSix, m: i32, y: Seq<u8>)
    requires six_bytes(a, n) + x == six_bytes(b, m) + y, 0 <= n, 0 <= m,
    ensures
        a.date.0 == b.date.0, n == m, a.type_@ == b.type_@, a.description@ == b.description@, x == y,
        a.paid_in is Some == b.paid_in is Some, a.paid_out is Some == b.paid_out is Some,
        a.paid_in is Some ==> (a.paid_in->0).0.quantity == (b.paid_in->0).0.quantity,
        a.paid_out is Some ==> (a.paid_out->0).0.quantity == (b.paid_out->0).0.quantity,
        a.balance.0.quantity == b.balance.0.quantity,
{
    ax_blen_string(a.type_); ax_blen_string(b.type_); ax_blen_string(a.description); ax_blen_string(b.description);
    let a6 = amount_bytes(a.balance.0) + x; let b6 = amount_bytes(b.balance.0) + y;
    let a5 = gbp(a.paid_in) + a6; let b5 = gbp(b.paid_in) + b6;
    let a4 = gbp(a.paid_out) + a5; let b4 = gbp(b.paid_out) + b5;
    let a3 = str_bytes(a.description@) + a4; let b3 = str_bytes(b.description@) + b4;
    let a2 = be(n as int, 4) + a3; let b2 = be(m as int, 4) + b3;
    let a1 = date_bytes(a.date.0) + a2; let b1 = date_bytes(b.date.0) + b2;
    lemma_assoc7(str_bytes(a.type_@), date_bytes(a.date.0), be(n as int, 4), str_bytes(a.description@), gbp(a.paid_out), gbp(a.paid_in), amount_bytes(a.balance.0), x);
    lemma_assoc7(str_bytes(b.type_@), date_bytes(b.date.0), be(m as int, 4), str_bytes(b.description@), gbp(b.paid_out), gbp(b.paid_in), amount_bytes(b.balance.0), y);
    lemma_str_cut(a.type_@, a1, b.type_@, b1);
    lemma_date_cut(a.date.0, a2, b.date.0, b2);
    lemma_num4_cut(n as int, a3, m as int, b3);
    lemma_str_cut(a.description@, a4, b.description@, b4);
    lemma_opt_amount_cut(amt(a.paid_out), a5, amt(b.paid_out), b5);
    lemma_opt_amount_cut(amt(a.paid_in), a6, amt(b.paid_in), b6);
    lemma_amount_cut(a.balance.0, x, b.balance.0, y);
}
/// Where the rows of a date stand next to each other, no two of them have the same number.
pub proof fn lemma_counter(d: spec_fn(int) -> NaiveDate, i: int, j: int)
    requires 0 <= i < j, forall|k: int| i <= k <= j ==> #[trigger] d(k) == d(i),
    ensures counter(d, j) == counter(d, i) + (j - i),
    decreases j - i,
{
    if i + 1 < j { lemma_counter(d, i, j - 1); }
    assert(d(j - 1) == d(i)); assert(d(j) == d(i));
}
/// Two rows of an import never feed the hash the same bytes, whichever halves are compared.
pub proof fn lemma_five_distinct(rows: Seq<Row>, i: int, j: int, x: Seq<u8>, y: Seq<u8>)
    requires
        0 <= i < j < rows.len() <= i32::MAX,
        row_dates::<RecordFive>(rows)(i) == row_dates::<RecordFive>(rows)(j) ==> forall|k: int| i <= k <= j ==> #[trigger] (row_dates::<RecordFive>(rows))(k) == row_dates::<RecordFive>(rows)(i),
        0 <= counter(row_dates::<RecordFive>(rows), i) <= i, 0 <= counter(row_dates::<RecordFive>(rows), j) <= j,
    ensures
        five_bytes(row_at(rows, i), counter(row_dates::<RecordFive>(rows), i) as i32) + x != five_bytes(row_at(rows, j), counter(row_dates::<RecordFive>(rows), j) as i32) + y,
{
    let d = row_dates::<RecordFive>(rows);
    let a = row_at::<RecordFive>(rows, i); let b = row_at::<RecordFive>(rows, j);
    let n = counter(d, i) as i32; let m = counter(d, j) as i32;
    if five_bytes(a, n) + x == five_bytes(b, m) + y {
        lemma_five(a, n, x, b, m, y);
        assert(d(i) == d(j));
        lemma_counter(d, i, j);
    }
}
pub proof fn lemma_six_distinct(rows: Seq<Row>, i: int, j: int, x: Seq<u8>, y: Seq<u8>)
    requires
        0 <= i < j < rows.len() <= i32::MAX,
        row_dates::<RecordSix>(rows)(i) == row_dates::<RecordSix>(rows)(j) ==> forall|k: int| i <= k <= j ==> #[trigger] (row_dates::<RecordSix>(rows))(k) == row_dates::<RecordSix>(rows)(i),
        0 <= counter(row_dates::<RecordSix>(rows), i) <= i, 0 <= counter(row_dates::<RecordSix>(rows), j) <= j,
    ensures
        six_bytes(row_at(rows, i), counter(row_dates::<RecordSix>(rows), i) as i32) + x != six_bytes(row_at(rows, j), counter(row_dates::<RecordSix>(rows), j) as i32) + y,
{
    let d = row_dates::<RecordSix>(rows);
    let a = row_at::<RecordSix>(rows, i); let b = row_at::<RecordSix>(rows, j);
    let n = counter(d, i) as i32; let m = counter(d, j) as i32;
    if six_bytes(a, n) + x == six_bytes(b, m) + y {
        lemma_six(a, n, x, b, m, y);
        assert(d(i) == d(j));
        lemma_counter(d, i, j);
    }
}
#[verifier::external_type_specification]
pub struct ExAccountName(AccountName);
#[verifier::external_type_specification]
pub struct ExAccountQuantity(AccountQuantity);
/// What a row of a given kind spells, if there is one that does.
pub open spec fn head<T>(rows: Seq<Row>, i: int) -> Option<T> {
    if i < rows.len() && rows[i] is Ok && row_ok::<T>(rows[i]->Ok_0) { Some(row_of::<T>(rows[i]->Ok_0)) } else { None }
}
pub open spec fn five_titles() -> Seq<Seq<char>> { seq!["Date"@, "Transactions"@, "Location"@, "Paid out"@, "Paid in"@] }
pub open spec fn six_titles() -> Seq<Seq<char>> { seq!["Date"@, "Transaction type"@, "Description"@, "Paid out"@, "Paid in"@, "Balance"@] }
pub open spec fn rows_good<T: PostingFormer>(rows: Seq<Row>, ns: Seq<char>) -> bool {
    (forall|i: int| 0 <= i < rows.len() ==> good_row::<T>(#[trigger] rows[i])) && (rows.len() > 0 ==> part_ok(ns))
}
pub open spec fn rows_trns<T: PostingFormer>(rows: Seq<Row>, ns: Seq<char>, account: Seq<char>, legacy: bool, ts: Seq<Transaction>) -> bool {
    ts.len() == rows.len() && forall|i: int| 0 <= i < ts.len() ==> row_trn::<T>(rows, i, ns, account, legacy, #[trigger] ts[i])
}
/// A table is good: its titles are those of one of the two forms, and its rows are all good.
pub open spec fn table_good(rows: Seq<Row>, ns: Seq<char>) -> bool {
    match head::<Vec<String>>(rows, 0) {
        Some(h) => if views(h@) =~= five_titles() { rows_good::<RecordFive>(rows.skip(1), ns) } else { views(h@) =~= six_titles() && rows_good::<RecordSix>(rows.skip(1), ns) },
        None => false,
    }
}
pub open spec fn table_trns(rows: Seq<Row>, ns: Seq<char>, account: Seq<char>, legacy: bool, ts: Seq<Transaction>) -> bool {
    if views(head::<Vec<String>>(rows, 0)->0@) =~= five_titles() { rows_trns::<RecordFive>(rows.skip(1), ns, account, legacy, ts) } else { rows_trns::<RecordSix>(rows.skip(1), ns, account, legacy, ts) }
}
pub open spec fn acct_head(rows: Seq<Row>) -> Option<Seq<char>> {
    match (head::<AccountName>(rows, 0), head::<AccountQuantity>(rows, 1), head::<AccountQuantity>(rows, 2)) {
        (Some(n), Some(b), Some(a)) => if n.header@ == "Account Name:"@ && b.header@ == "Account Balance:"@ && a.header@ == "Available Balance:"@ { Some(n.account_name@) } else { None },
        _ => None,
    }
}
/// The namespace of a file that is good.
pub open spec fn file_ns(c: NationwideCsv, rows: Seq<Row>) -> Option<Seq<char>> {
    match acct_head(rows) {
        Some(a) => match crate::importers::nationwide::ns_of(c.commonopts.fp_ns, a) {
            Some(ns) => if table_good(rows.skip(3), ns) { Some(ns) } else { None },
            None => None,
        },
        None => None,
    }
}
pub open spec fn file_rows(d: Seq<u8>) -> Seq<Row> { crate::vx::plain_rows(crate::vx::from_1252(d)) }
pub open spec fn imported(c: NationwideCsv, d: Seq<u8>, i: Import) -> bool {
    &&& crate::filespec::held(c.input, d)
    &&& file_ns(c, file_rows(d)) == Some(i.user_fp_namespace@)
    &&& table_trns(file_rows(d).skip(3), i.user_fp_namespace@, acct_head(file_rows(d))->0, c.include_legacy_fingerprint, i.transactions@)
}
pub open spec fn import_gives(x: NationwideCsv, i: Import) -> bool { exists|d: Seq<u8>| #[trigger] imported(x, d, i) }
pub open spec fn import_bad(x: NationwideCsv) -> bool { crate::filespec::no_access(x.input) || exists|d: Seq<u8>| #[trigger] crate::filespec::held(x.input, d) && file_ns(x, file_rows(d)) is None }
@add in TransactionImporter for NationwideCsv
    open spec fn gives(&self, i: Import) -> bool { import_gives(*self, i) }
    open spec fn bad(&self) -> bool { import_bad(*self) }
@fn TransactionImporter for NationwideCsv::get_transactions
@replace `encoding_rs_io::DecodeReaderBytesBuilder::new() .encoding(Some(encoding_rs::WINDOWS_1252)) .build(self.input.reader()?)`
crate::vx::win1252(self.input.reader()?)
@replace `csv::ReaderBuilder::new() .has_headers(false) .flexible(true) .trim(csv::Trim::All) .from_reader(reader)`
crate::vx::csv_plain(reader)
@replace `csv_rdr.records()`
crate::vx::csv_records(&mut csv_rdr)
@before `let mut csv_rdr`
    let ghost d = choose|d: Seq<u8>| #[trigger] crate::filespec::held(self.input, d) && data_in(reader) == from_1252(d);
    let ghost rows = file_rows(d);
@safter `let balance: AccountQuantity`
    proof { assert(rows.skip(1).skip(1) =~= rows.skip(2)); }
@safter `let available: AccountQuantity`
    proof { assert(rows.skip(2).skip(1) =~= rows.skip(3)); }
@before `Ok(Import {`
    proof { assert(imported(*self, d, Import { user_fp_namespace, transactions })); }
@props C12 C11 C20
@fn NationwideCsv::process_file
@ret r
@spec
    requires csv_rest(*old($1)).len() <= i32::MAX,
    ensures
        r is Ok <==> table_good(csv_rest(*old($1)), $2@),
        r matches Ok(ts) ==> table_trns(csv_rest(*old($1)), $2@, $3@, self.include_legacy_fingerprint, ts@),
@begin
    let ghost rows = csv_rest(*$1);
@chain 0 vec &str
    invariant
        vx_it.seq().unref() == headers@, vx_acc@.len() == vx_it.index(),
        forall|i: int| 0 <= i < vx_acc@.len() ==> (#[trigger] vx_acc@[i])@ == headers@[i]@,
---
    proof { assert(vx_it.seq().unref()[vx_it.index() as int] == *vx_it.seq()[vx_it.index() as int]); }
@safter `let headers_str`
    proof {
        let h = views(headers@);
        assert(head::<Vec<String>>(rows, 0)->0@ == headers@);
        assert(forall|i: int| 0 <= i < h.len() ==> #[trigger] h[i] == headers_str@[i]@);
        let f = five_titles(); let x = six_titles();
        if h.len() == 5 && h[0] == f[0] && h[1] == f[1] && h[2] == f[2] && h[3] == f[3] && h[4] == f[4] { assert(h =~= f); }
        if h.len() == 6 && h[0] == x[0] && h[1] == x[1] && h[2] == x[2] && h[3] == x[3] && h[4] == x[4] && h[5] == x[5] { assert(h =~= x); }
    }
@props C12
@fn NationwideCsv::process_rows
@ret r
@spec
    requires csv_rest(*old($1)).len() <= i32::MAX,
    ensures
        r is Ok <==> (forall|i: int| 0 <= i < csv_rest(*old($1)).len() ==> good_row::<T>(#[trigger] csv_rest(*old($1))[i])) && (csv_rest(*old($1)).len() > 0 ==> part_ok($2@)),
        r matches Ok(ts) ==> ts@.len() == csv_rest(*old($1)).len()
            && forall|i: int| 0 <= i < ts@.len() ==> row_trn::<T>(csv_rest(*old($1)), i, $2@, $3@, self.include_legacy_fingerprint, #[trigger] ts@[i]),
@begin
    let ghost rows = csv_rest(*$1);
@replace `it: csv_records`
it: crate::vx::csv_rows(csv_records)
@replace `str_record.deserialize(None)?`
crate::vx::csv_row::<T>(&str_record)?
@loop 0
    invariant
        it.seq() == rows, rows == csv_rest(*old($1)), rows.len() <= i32::MAX,
        transactions@.len() == it.index(),
        0 <= date_counter, it.index() == 0 ==> prev_date is None && date_counter == 0, it.index() > 0 ==> date_counter < it.index(),
        it.index() > 0 ==> part_ok($2@) && prev_date == Some((row_dates::<T>(rows))(it.index() - 1)) && date_counter == counter(row_dates::<T>(rows), it.index() - 1),
        forall|i: int| 0 <= i < it.index() ==> good_row::<T>(#[trigger] rows[i]),
        forall|i: int| 0 <= i < it.index() ==> row_trn::<T>(rows, i, $2@, $3@, self.include_legacy_fingerprint, #[trigger] transactions@[i]),
@loopbegin 0
    proof { assert(rows[it.index() as int] == result); }
@safter `let record: T`
    proof { assert(record == row_at::<T>(rows, it.index() as int)); }
@loopend 0
    proof { assert(date_counter == counter(row_dates::<T>(rows), it.index() as int)); }
@props C12 C10 C11 C20

@add in PostingFormer
    /// The date, the text and the postings of a row.
    spec fn row_date(self) -> NaiveDate;
    spec fn row_text(self) -> Seq<char>;
    spec fn row_good(self) -> bool;
    spec fn row_posts(self, ns: Seq<char>, account: Seq<char>, n: i32, legacy: bool, p: (Posting, Posting)) -> bool;
@fn PostingFormer::date
@ret r
@spec
    ensures r == self.row_date(),
@noquery
@fn PostingFormer::description
@ret r
@spec
    ensures r@ == self.row_text(),
@noquery
@fn PostingFormer::form_postings
@ret r
@spec
    requires 0 <= $3 < i32::MAX,
    ensures
        r is Ok <==> self.row_good() && part_ok($1@),
        r matches Ok(p) ==> self.row_posts($1@, $2@, $3, $4, p),
@noquery

@add in PostingFormer for RecordFive
    open spec fn row_date(self) -> NaiveDate { self.date.0 }
    open spec fn row_text(self) -> Seq<char> { if self.location@.len() == 0 { self.transactions@ } else { self.transactions@ + " @ "@ + self.location@ } }
    open spec fn row_good(self) -> bool { paid(self.paid_in, self.paid_out) is Some }
    open spec fn row_posts(self, ns: Seq<char>, account: Seq<char>, n: i32, legacy: bool, p: (Posting, Posting)) -> bool {
        pair(paid(self.paid_in, self.paid_out)->0, None, p)
        && says(p.0.comment, half_tags(tag_text("nwcsv5"@, 1, ns, five_bytes(self, n) + str_bytes("self"@)), "import-self"@),
            five_values(self, account).insert(mk("seq"@), mk(seq_text(ns, n as int))))
        && says(p.1.comment, half_tags(tag_text("nwcsv5"@, 1, ns, five_bytes(self, n) + str_bytes("peer"@)), "import-peer"@), five_values(self, account))
    }
@fn PostingFormer for RecordFive::date
@props C12
@fn PostingFormer for RecordFive::description
@tail
    proof { reveal_strlit(" @ "); }
@props C12
@fn PostingFormer for RecordFive::form_postings
@begin
    let ghost row = self;
    proof { reveal_strlit("-"); }
@before `Ok((`
    let ghost sc = self_comment.comment; let ghost pc = peer_comment.comment;
    let ghost t0 = half_tags(tag_text("nwcsv5"@, 1, $1@, five_bytes(row, $3) + str_bytes("self"@)), "import-self"@);
    let ghost t1 = half_tags(tag_text("nwcsv5"@, 1, $1@, five_bytes(row, $3) + str_bytes("peer"@)), "import-peer"@);
    let ghost v1 = five_values(row, $2@);
    let ghost v0 = v1.insert(mk("seq"@), mk(seq_text($1@, $3 as int)));
    proof {
        assert(seq_text($1@, $3 as int) =~= Seq::<char>::empty() + $1@ + "-"@ + disp(&(($3 + 1) as i32)));
        assert(sc.tags@ =~= t0); assert(pc.tags@ =~= t1);
        assert(pc.value_tags@ =~= v1); assert(sc.value_tags@ =~= v0);
        assert(holds(sc, t0, v0)); assert(holds(pc, t1, v1));
    }
@props C10 C11 C12 C20

@add in PostingFormer for RecordSix
    open spec fn row_date(self) -> NaiveDate { self.date.0 }
    open spec fn row_text(self) -> Seq<char> { self.description@ }
    open spec fn row_good(self) -> bool { paid(self.paid_in, self.paid_out) is Some }
    open spec fn row_posts(self, ns: Seq<char>, account: Seq<char>, n: i32, legacy: bool, p: (Posting, Posting)) -> bool {
        let a = paid(self.paid_in, self.paid_out)->0;
        let t0 = half_tags(tag_text("nwcsv6"@, 1, ns, six_bytes(self, n) + str_bytes("self"@)), "import-self"@);
        let t1 = half_tags(tag_text("nwcsv6"@, 1, ns, six_bytes(self, n) + str_bytes("peer"@)), "import-peer"@);
        let l0 = "fp-"@ + ns + "-"@ + hash64(legacy_bytes(self, n) + str_bytes(ASSETS_UNKNOWN@) + amount_bytes(a));
        let l1 = "fp-"@ + ns + "-"@ + hash64(legacy_bytes(self, n) + str_bytes(peer_account(a)) + amount_bytes(negated(a)));
        pair(a, Some(Balance::Amount(self.balance.0)), p)
        && says(p.0.comment, if legacy { t0.insert(mk(l0)) } else { t0 }, six_values(self, account).insert(mk("seq"@), mk(seq_text(ns, n as int))))
        && says(p.1.comment, if legacy { t1.insert(mk(l1)) } else { t1 }, six_values(self, account))
    }
@fn PostingFormer for RecordSix::date
@props C12
@fn PostingFormer for RecordSix::description
@props C12
@fn PostingFormer for RecordSix::form_postings
@begin
    let ghost row = self;
    proof { reveal_strlit("-"); }
@before `Ok((`
    let ghost sc = self_comment.comment; let ghost pc = peer_comment.comment;
    let ghost a = paid(row.paid_in, row.paid_out)->0;
    let ghost s0 = half_tags(tag_text("nwcsv6"@, 1, $1@, six_bytes(row, $3) + str_bytes("self"@)), "import-self"@);
    let ghost s1 = half_tags(tag_text("nwcsv6"@, 1, $1@, six_bytes(row, $3) + str_bytes("peer"@)), "import-peer"@);
    let ghost l0 = "fp-"@ + $1@ + "-"@ + hash64(legacy_bytes(row, $3) + str_bytes(ASSETS_UNKNOWN@) + amount_bytes(a));
    let ghost l1 = "fp-"@ + $1@ + "-"@ + hash64(legacy_bytes(row, $3) + str_bytes(peer_account(a)) + amount_bytes(negated(a)));
    let ghost t0 = if $4 { s0.insert(mk(l0)) } else { s0 };
    let ghost t1 = if $4 { s1.insert(mk(l1)) } else { s1 };
    let ghost v1 = six_values(row, $2@);
    let ghost v0 = v1.insert(mk("seq"@), mk(seq_text($1@, $3 as int)));
    proof {
        assert(seq_text($1@, $3 as int) =~= Seq::<char>::empty() + $1@ + "-"@ + disp(&(($3 + 1) as i32)));
        assert(sc.tags@ =~= t0); assert(pc.tags@ =~= t1);
        assert(pc.value_tags@ =~= v1); assert(sc.value_tags@ =~= v0);
        assert(holds(sc, t0, v0)); assert(holds(pc, t1, v1));
    }
@props C10 C11 C12 C20

@add in de::Fingerprintable for &GbpValue
    open spec fn bytes(self) -> Seq<u8> { crate::fingerprint::amount_bytes(self.0) }
@fn de::Fingerprintable for &GbpValue::fingerprint
@props C10 C20
@add de
#[verifier::external_type_specification]
pub struct ExGbpValue(GbpValue);
pub assume_specification [<GbpValue as Clone>::clone] (v: &GbpValue) -> (r: GbpValue) ensures r == *v;
use crate::fingerprint::*;
@fn de::RecordFive::fingerprint_v1
@ret r
@spec
    ensures
        r is Ok <==> part_ok($1@),
        r matches Ok(h) ==> crate::importers::util::fp_halves(h, "nwcsv5"@, 1, $1@, super::five_bytes(*self, $2)),
@begin
    proof { reveal_strlit("nwcsv5"); assert(part_ok("nwcsv5"@)); }
@props C10 C12 C20
@fn de::RecordSix::fingerprint_v1
@ret r
@spec
    ensures
        r is Ok <==> part_ok($1@),
        r matches Ok(h) ==> crate::importers::util::fp_halves(h, "nwcsv6"@, 1, $1@, super::six_bytes(*self, $2)),
@begin
    proof { reveal_strlit("nwcsv6"); assert(part_ok("nwcsv6"@)); }
@props C10 C12 C20
@fn de::RecordSix::fingerprint_legacy
@ret r
@spec
    ensures
        r is Ok <==> part_ok($1@),
        r matches Ok(h) ==> {
            &&& fp_is(h.self_, ""@, 0, $1@, super::legacy_bytes(*self, $2) + str_bytes($3.self_.account@) + amount_bytes($3.self_.amount))
            &&& fp_is(h.peer, ""@, 0, $1@, super::legacy_bytes(*self, $2) + str_bytes($3.peer.account@) + amount_bytes($3.peer.amount))
        },
@begin
    proof { reveal_strlit(""); assert(part_ok(""@)); }
@props C10 C12 C20

@add de
/// `£` , perhaps `-`, pounds, `.`, two digits of pence.
pub open spec fn signed_at(s: Seq<char>) -> int { if s.len() > 1 && s[1] == '-' { 2 } else { 1 } }
pub open spec fn pounds(s: Seq<char>) -> Seq<char> { s.subrange(signed_at(s), s.len() - 3) }
pub open spec fn pence(s: Seq<char>) -> Seq<char> { s.skip(s.len() - 2) }
pub open spec fn money_form(s: Seq<char>) -> bool {
    s.len() >= signed_at(s) + 4 && s[0] == '£' && s[s.len() - 3] == '.' && nds(pounds(s)) && nds(pence(s))
}
pub open spec fn money_rx() -> regex::Regex { re_of("^£(-?)(\\d+)\\.(\\d{2})$"@) }
pub axiom fn ax_money_rx(s: Seq<char>)
    ensures
        captured(money_rx(), s) is Some <==> money_form(s),
        captured(money_rx(), s) matches Some(g) ==> g.len() == 4 && g[1] == Some(s.subrange(1, signed_at(s))) && g[2] == Some(pounds(s)) && g[3] == Some(pence(s));
/// How many pence a text spells, and whether there is a minus sign.
pub open spec fn money_spelt(s: Seq<char>) -> Option<(bool, nat)> {
    if money_form(s) && digits(pounds(s)) && digits(pence(s)) && num(pounds(s)) * 100 + num(pence(s)) <= i64::MAX { Some((signed_at(s) == 2, num(pounds(s)) * 100 + num(pence(s)))) } else { None }
}
pub open spec fn is_gbp(a: Amount, m: (bool, nat)) -> bool {
    a.commodity.name@ == "GBP"@ && a.commodity.position is Left && dec_negative(a.quantity) == m.0 && dec_coeff(a.quantity) == m.1 && dec_scale(a.quantity) == 2
}
pub proof fn lemma_num2(s: Seq<char>) requires s.len() == 2, digits(s) ensures num(s) < 100
{ reveal_with_fuel(num, 3); assert(digit(s[0])); assert(digit(s[1])); assert(s.drop_last()[0] == s[0]); assert(s.last() == s[1]); assert(s.drop_last().last() == s[0]); }
@fn de::de::Visitor<'de > for DateVisitor::visit_str
@ret r
@spec
    ensures r is Ok <==> parsed_date($1@, "%d %b %Y"@) is Some, r matches Ok(d) ==> Some(d.0) == parsed_date($1@, "%d %b %Y"@),
@closure map
NaiveDate
-> (t: Date) ensures t.0 == #1
@props C12
@fn de::de::Visitor<'de > for GbpValueVisitor::visit_str
@ret r
@spec
    ensures r is Ok <==> money_spelt($1@) is Some, r matches Ok(v) ==> is_gbp(v.0, money_spelt($1@)->0),
@begin
    proof {
        let s = $1@;
        ax_money_rx(s);
        reveal_strlit("-"); reveal_strlit("^£(-?)(\\d+)\\.(\\d{2})$");
        if money_form(s) { ax_parse_i64(pounds(s)); ax_parse_i64(pence(s)); if digits(pence(s)) { lemma_num2(pence(s)); } 
          assert(s.subrange(1, signed_at(s)) =~= if signed_at(s) == 2 { "-"@ } else { Seq::<char>::empty() });
        }
    }
@replace `captures.get(1)`
crate::vx::cap_get(&captures, 1)
@closure and_then
i64
-> (o: Option<i64>) ensures o == (if #1 + pence > i64::MAX || #1 + pence < i64::MIN { None } else { Some((#1 + pence) as i64) })
@props C12
@fn de::deserialize_captured_number
@ret r
@replace `c.get(i) .unwrap() .as_str() .parse()`
crate::vx::parse_to::<T>(crate::vx::cap_get(c, i).unwrap().as_str())
@spec
    requires $2 < groups(*$1).len(), groups(*$1)[$2 as int] is Some,
    ensures r is Ok <==> parse_as::<T>(groups(*$1)[$2 as int]->0) is Some, r matches Ok(v) ==> Some(v) == parse_as::<T>(groups(*$1)[$2 as int]->0),
@props C12
@fn de::check_header
@ret r
@spec
    ensures r is Ok <==> $1@ == $2@,
@props C12
@fn de::deserialize_required_record
@ret r
@replace `csv_records.next()`
crate::vx::csv_next(csv_records)
@replace `str_record.deserialize(None)?`
crate::vx::csv_row::<T>(&str_record)?
@spec
    ensures
        r matches Ok(Some(x)) ==> super::head::<T>(csv_rest(*old($1)), 0) == Some(x) && csv_rest(*final($1)) == csv_rest(*old($1)).skip(1),
        r is Err || r->Ok_0 is None ==> super::head::<T>(csv_rest(*old($1)), 0) is None,
@props C12
