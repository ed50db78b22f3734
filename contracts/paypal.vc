@file importers/paypal_csv.rs
@wrap TRANSACTION_NAME_TAG TRANSACTION_TYPE_TAG
@pubfields PaypalCsv Record
@wrap Record de::Date de::Time de::DateVisitor de::TimeVisitor
@wrapimpl de::de::Visitor<'de > for DateVisitor
@wrapimpl de::de::Visitor<'de > for TimeVisitor
@wrapimpl TransactionImporter for PaypalCsv
@wrapimpl de::Into<TransactionStatus> for Status
@add
use crate::comment::{says, holds};
use crate::fingerprint::{fed, part_ok, str_bytes, date_bytes, time_bytes, amount_bytes, hash64, tag_text, lemma_str_cut, lemma_date_cut, lemma_time_cut, lemma_amount_cut, lemma_num8_cut, lemma_opt_str_cut, opt_str_bytes, lemma_assoc, lemma_assoc7};
use crate::importers::util::{negated, peer_account};
use ledger_parser::{PostingAmount, TransactionStatus};
#[verifier::external_type_specification]
pub struct ExPaypalCsv(PaypalCsv);
#[verifier::external_type_specification]
pub struct ExPaypalRecord(de::Record);
pub open spec fn status_of(s: de::Status) -> TransactionStatus { match s { de::Status::Completed => TransactionStatus::Cleared, de::Status::Pending => TransactionStatus::Pending } }
pub open spec fn money(q: rust_decimal::Decimal, currency: String) -> Amount { Amount { quantity: q, commodity: Commodity { name: currency, position: CommodityPosition::Left } } }
pub open spec fn row_bytes(v: de::Record) -> Seq<u8> {
    date_bytes(v.date.0) + time_bytes(v.time.0) + str_bytes(v.time_zone@) + opt_str_bytes(v.name) + str_bytes(v.type_@)
    + amount_bytes(money(v.amount, v.currency)) + amount_bytes(money(v.balance, v.currency))
}
pub open spec fn zone(db: TzAbbrDB, s: Seq<char>) -> Option<FixedOffset> { if db.map@.contains_key(mk(s)) { Some(db.map@[mk(s)]) } else { None } }
pub open spec fn time_of() -> spec_fn(Record) -> DateTime<FixedOffset> { |r: Record| r.datetime }
/// The text of a row under a title. serde reads each field by the visitor of its type.
pub uninterp spec fn under(sr: csv::StringRecord, headers: csv::StringRecord, title: Seq<char>) -> Seq<char>;
pub axiom fn ax_row_texts(sr: csv::StringRecord, headers: csv::StringRecord)
    ensures
        row_with_ok::<de::Record>(sr, headers) ==> {
            let r = row_with::<de::Record>(sr, headers);
            &&& Some(r.date.0) == parsed_date(under(sr, headers, "Date"@), "%d/%m/%Y"@)
            &&& Some(r.time.0) == parsed_time(under(sr, headers, "Time"@), "%H:%M:%S"@)
            &&& r.time_zone@ == under(sr, headers, "Time zone"@) && r.type_@ == under(sr, headers, "Type"@) && r.currency@ == under(sr, headers, "Currency"@)
        };
/// The instant a row gives, by its texts.
pub proof fn lemma_instant(sr: csv::StringRecord, headers: csv::StringRecord, db: TzAbbrDB, ns: Seq<char>, r: Record)
    requires row_with_ok::<de::Record>(sr, headers), read_as(row_with::<de::Record>(sr, headers), db, ns, r),
    ensures
        zone(db, under(sr, headers, "Time zone"@)) is Some,
        r.datetime == instant(zone(db, under(sr, headers, "Time zone"@))->0, date_time(parsed_date(under(sr, headers, "Date"@), "%d/%m/%Y"@)->0, parsed_time(under(sr, headers, "Time"@), "%H:%M:%S"@)->0)),
{ ax_row_texts(sr, headers); }
/// What a row is read as.
pub open spec fn read_as(v: de::Record, db: TzAbbrDB, ns: Seq<char>, r: Record) -> bool {
    &&& zone(db, v.time_zone@) is Some
    &&& r.datetime == instant(zone(db, v.time_zone@)->0, date_time(v.date.0, v.time.0))
    &&& r.name == v.name && r.type_ == v.type_ && r.status == v.status && r.receipt_id == v.receipt_id
    &&& r.amount == money(v.amount, v.currency) && r.balance == money(v.balance, v.currency)
    &&& r.partial_fp.algorithm_name@ == "ppcsv"@ && r.partial_fp.algorithm_version == 1 && r.partial_fp.user_namespace@ == ns
    &&& fed(r.partial_fp.acc) == row_bytes(v)
}
pub open spec fn posts(p: Posting, account: Seq<char>, a: Amount, b: Option<Balance>, s: TransactionStatus) -> bool {
    p.account@ == account && p.reality is Real && p.amount == Some(PostingAmount { amount: a, lot_price: None, price: None }) && p.balance == b && p.status == Some(s)
}
pub open spec fn sides(side: Seq<char>, legacy: bool, ns: Seq<char>, bytes: Seq<u8>) -> Set<String> {
    let t = Set::<String>::empty().insert(mk(side)).insert(mk("unknown-account"@));
    if legacy { t.insert(mk("fp-"@ + ns + "-"@ + hash64(bytes))) } else { t }
}
pub open spec fn receipt(r: Record) -> Map<String, String> {
    match r.receipt_id { Some(x) => Map::<String, String>::empty().insert(mk("receipt_id"@), x), None => Map::empty() }
}
pub open spec fn kind_name(r: Record) -> Map<String, String> {
    let m = Map::<String, String>::empty().insert(mk("trn_type"@), r.type_);
    match r.name { Some(x) => m.insert(mk("trn_name"@), x), None => m }
}
/// The pair of postings of a record. The peer need not carry a fingerprint tag (see the known finding), but carries no other.
pub open spec fn pair(legacy: bool, r: Record, bytes: Seq<u8>, p: (Posting, Posting)) -> bool {
    let ns = r.partial_fp.user_namespace@;
    let b0 = bytes + str_bytes("self"@);
    let b1 = bytes + str_bytes("peer"@);
    &&& posts(p.0, ASSETS_UNKNOWN@, r.amount, Some(Balance::Amount(r.balance)), status_of(r.status))
    &&& posts(p.1, peer_account(r.amount), negated(r.amount), None, status_of(r.status))
    &&& says(p.0.comment, sides("import-self"@, legacy, ns, b0).insert(mk(tag_text(r.partial_fp.algorithm_name@, r.partial_fp.algorithm_version, ns, b0))), receipt(r))
    &&& says(p.1.comment, sides("import-peer"@, legacy, ns, b1), kind_name(r))
        || says(p.1.comment, sides("import-peer"@, legacy, ns, b1).insert(mk(tag_text(r.partial_fp.algorithm_name@, r.partial_fp.algorithm_version, ns, b1))), kind_name(r))
}
pub open spec fn named(rs: Seq<Record>) -> bool { exists|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).name is Some }
pub open spec fn first_name(rs: Seq<Record>, s: String) -> bool {
    exists|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).name == Some(s) && forall|j: int| 0 <= j < i ==> (#[trigger] rs[j]).name is None
}
/// The transaction of the records of an instant.
pub open spec fn group_trn(c: PaypalCsv, dt: DateTime<FixedOffset>, rs: Seq<Record>, t: Transaction) -> bool {
    &&& t.date == day_in(dt, c.output_timezone) && first_name(rs, t.description)
    &&& t.comment is None && t.status is None && t.code is None && t.effective_date is None
    &&& t.postings@.len() == 2 * rs.len()
    &&& forall|i: int| 0 <= i < rs.len() ==> pair(c.include_legacy_fingerprint, #[trigger] rs[i], fed(rs[i].partial_fp.acc) + be(i, 8), (t.postings@[2 * i], t.postings@[2 * i + 1]))
}
pub type Row = Result<csv::StringRecord, csv::Error>;
pub open spec fn good_row(row: Row, headers: csv::StringRecord, db: TzAbbrDB, ns: Seq<char>) -> bool {
    row is Ok && row_with_ok::<de::Record>(row->Ok_0, headers) && part_ok(ns) && zone(db, row_with::<de::Record>(row->Ok_0, headers).time_zone@) is Some
}
pub open spec fn rows_read(rows: Seq<Row>, headers: csv::StringRecord, db: TzAbbrDB, ns: Seq<char>, rs: Seq<Record>) -> bool {
    &&& rs.len() == rows.len()
    &&& forall|i: int| 0 <= i < rs.len() ==> good_row(#[trigger] rows[i], headers, db, ns) && read_as(row_with::<de::Record>(rows[i]->Ok_0, headers), db, ns, rs[i])
}
pub open spec fn all_named(gs: Seq<(DateTime<FixedOffset>, Vec<Record>)>) -> bool { forall|g: int| 0 <= g < gs.len() ==> named((#[trigger] gs[g]).1@) }
/// The bytes of two rows with their numbers are equal only if the rows and the numbers are.
pub proof fn lemma_row(a: de::Record, i: int, x: Seq<u8>, b: de::Record, j: int, y: Seq<u8>)
    requires row_bytes(a) + be(i, 8) + x == row_bytes(b) + be(j, 8) + y, 0 <= i <= u64::MAX, 0 <= j <= u64::MAX,
    ensures
        i == j, x == y, a.date.0 == b.date.0, a.time.0 == b.time.0, a.time_zone@ == b.time_zone@, a.name == b.name, a.type_@ == b.type_@,
        a.amount == b.amount, a.balance == b.balance, a.currency == b.currency,
{
    ax_blen_string(a.time_zone); ax_blen_string(b.time_zone); ax_blen_string(a.type_); ax_blen_string(b.type_);
    let ma = money(a.amount, a.currency); let mb = money(b.amount, b.currency);
    let na = money(a.balance, a.currency); let nb = money(b.balance, b.currency);
    let a7 = be(i, 8) + x; let b7 = be(j, 8) + y;
    lemma_assoc(row_bytes(a), be(i, 8), x); lemma_assoc(row_bytes(b), be(j, 8), y);
    lemma_assoc7(date_bytes(a.date.0), time_bytes(a.time.0), str_bytes(a.time_zone@), opt_str_bytes(a.name), str_bytes(a.type_@), amount_bytes(ma), amount_bytes(na), a7);
    lemma_assoc7(date_bytes(b.date.0), time_bytes(b.time.0), str_bytes(b.time_zone@), opt_str_bytes(b.name), str_bytes(b.type_@), amount_bytes(mb), amount_bytes(nb), b7);
    let a6 = amount_bytes(na) + a7; let b6 = amount_bytes(nb) + b7;
    let a5 = amount_bytes(ma) + a6; let b5 = amount_bytes(mb) + b6;
    let a4 = str_bytes(a.type_@) + a5; let b4 = str_bytes(b.type_@) + b5;
    let a3 = opt_str_bytes(a.name) + a4; let b3 = opt_str_bytes(b.name) + b4;
    let a2 = str_bytes(a.time_zone@) + a3; let b2 = str_bytes(b.time_zone@) + b3;
    let a1 = time_bytes(a.time.0) + a2; let b1 = time_bytes(b.time.0) + b2;
    lemma_date_cut(a.date.0, a1, b.date.0, b1);
    lemma_time_cut(a.time.0, a2, b.time.0, b2);
    lemma_str_cut(a.time_zone@, a3, b.time_zone@, b3);
    lemma_opt_str_cut(a.name, a4, b.name, b4);
    lemma_str_cut(a.type_@, a5, b.type_@, b5);
    lemma_amount_cut(ma, a6, mb, b6);
    lemma_amount_cut(na, a7, nb, b7);
    lemma_num8_cut(i, x, j, y);
}
/// Two records of an import whose bytes agree are of one instant and have the same place in their groups: with the
/// records of an instant next to each other, they are the same record.
pub proof fn lemma_distinct(db: TzAbbrDB, ns: Seq<char>, va: de::Record, a: Record, i: int, x: Seq<u8>, vb: de::Record, b: Record, j: int, y: Seq<u8>)
    requires
        read_as(va, db, ns, a), read_as(vb, db, ns, b), 0 <= i <= u64::MAX, 0 <= j <= u64::MAX,
        fed(a.partial_fp.acc) + be(i, 8) + x == fed(b.partial_fp.acc) + be(j, 8) + y,
    ensures i == j, x == y, a.datetime == b.datetime,
{ lemma_row(va, i, x, vb, j, y); }
/// What the rows of a file are read as, with their instants taken from the zones of a table.
pub open spec fn rows_trns(c: PaypalCsv, rows: Seq<Row>, headers: csv::StringRecord, db: TzAbbrDB, rs: Seq<Record>, gs: Seq<(DateTime<FixedOffset>, Vec<Record>)>, ts: Seq<Transaction>) -> bool {
    &&& rows_read(rows, headers, db, c.fp_ns@, rs)
    &&& runs(rs, time_of(), gs)
    &&& ts.len() == gs.len()
    &&& forall|g: int| 0 <= g < gs.len() ==> group_trn(c, gs[g].0, gs[g].1@, #[trigger] ts[g])
}
/// The transactions made of the rows of a file.
pub open spec fn made(c: PaypalCsv, rows: Seq<Row>, headers: csv::StringRecord, db: TzAbbrDB, ts: Seq<Transaction>) -> bool {
    exists|rs: Seq<Record>, gs: Seq<(DateTime<FixedOffset>, Vec<Record>)>| #[trigger] rows_trns(c, rows, headers, db, rs, gs, ts)
}
pub open spec fn tz_rows(z: Seq<u8>) -> Seq<crate::tzabbr::TzRow> { table_in::<crate::tzabbr::TzRecord>(z) }
pub open spec fn zones(z: Seq<u8>, db: TzAbbrDB) -> bool {
    (forall|i: int| 0 <= i < tz_rows(z).len() ==> #[trigger] crate::tzabbr::good_tz(tz_rows(z), i)) && crate::tzabbr::tz_map(tz_rows(z), db.map@, tz_rows(z).len() as int)
}
pub open spec fn inputs(c: PaypalCsv, d: Seq<u8>, z: Seq<u8>) -> bool { crate::filespec::held(c.input, d) && crate::filespec::held(c.timezone_abbr_file, z) }
pub open spec fn imported(c: PaypalCsv, d: Seq<u8>, z: Seq<u8>, db: TzAbbrDB, i: Import) -> bool {
    inputs(c, d, z) && zones(z, db) && titles(d) is Some && made(c, titled_rows(d), titles(d)->0, db, i.transactions@) && i.user_fp_namespace@ == c.fp_ns@
}
pub open spec fn bad_rows(c: PaypalCsv, rows: Seq<Row>, headers: csv::StringRecord, db: TzAbbrDB) -> bool {
    (exists|i: int| 0 <= i < rows.len() && !good_row(#[trigger] rows[i], headers, db, c.fp_ns@))
    || (exists|rs: Seq<Record>, gs: Seq<(DateTime<FixedOffset>, Vec<Record>)>| rows_read(rows, headers, db, c.fp_ns@, rs) && #[trigger] runs(rs, time_of(), gs) && !all_named(gs))
}
pub open spec fn bad_file(c: PaypalCsv, d: Seq<u8>, z: Seq<u8>, db: TzAbbrDB) -> bool { inputs(c, d, z) && zones(z, db) && titles(d) is Some && bad_rows(c, titled_rows(d), titles(d)->0, db) }
pub open spec fn bad_titles(c: PaypalCsv, d: Seq<u8>) -> bool { crate::filespec::held(c.input, d) && titles(d) is None }
pub open spec fn bad_zones(c: PaypalCsv, z: Seq<u8>) -> bool { crate::filespec::held(c.timezone_abbr_file, z) && exists|i: int| 0 <= i < tz_rows(z).len() && !#[trigger] crate::tzabbr::good_tz(tz_rows(z), i) }
pub open spec fn import_gives(x: PaypalCsv, i: Import) -> bool {
    exists|d: Seq<u8>, z: Seq<u8>, db: TzAbbrDB| #[trigger] imported(x, d, z, db, i)
}
pub open spec fn import_bad(x: PaypalCsv) -> bool {
    crate::filespec::no_access(x.input) || crate::filespec::no_access(x.timezone_abbr_file)
    || (exists|d: Seq<u8>| #[trigger] bad_titles(x, d)) || (exists|z: Seq<u8>| #[trigger] bad_zones(x, z))
    || exists|d: Seq<u8>, z: Seq<u8>, db: TzAbbrDB| #[trigger] bad_file(x, d, z, db)
}
@add in TransactionImporter for PaypalCsv
    open spec fn gives(&self, i: Import) -> bool { import_gives(*self, i) }
    open spec fn bad(&self) -> bool { import_bad(*self) }
@fn TransactionImporter for PaypalCsv::get_transactions
@replace `csv::ReaderBuilder::new() .has_headers(true) .flexible(false) .trim(csv::Trim::All) .from_reader(self.input.reader()?)`
crate::vx::csv_titled(self.input.reader()?)
@replace `csv_rdr.headers()?.clone()`
crate::vx::csv_headers(&mut csv_rdr)?
@replace `csv_rdr.records()`
crate::vx::csv_records(&mut csv_rdr)
@safter `let mut csv_rdr`
    let ghost d = choose|d: Seq<u8>| #[trigger] crate::filespec::held(self.input, d) && csv_left(csv_rdr) == titled_rows(d) && csv_titles(csv_rdr) == titles(d);
    proof { assert(titles(d) is None ==> bad_titles(*self, d)); }
@replace `TzAbbrDB::from_reader(self.timezone_abbr_file.reader()?)?`
{ let tz_reader = self.timezone_abbr_file.reader()?; let ghost z0 = data_in(tz_reader);
  proof { z = z0; assert(crate::filespec::held(self.timezone_abbr_file, z)); assert((exists|i: int| 0 <= i < tz_rows(z).len() && !#[trigger] crate::tzabbr::good_tz(tz_rows(z), i)) ==> bad_zones(*self, z)); }
  TzAbbrDB::from_reader(tz_reader)? }
@before `let tz_abbrs`
    let ghost mut z = Seq::<u8>::empty();
@safter `let tz_abbrs =`
    let ghost db = tz_abbrs;
    proof { assert(zones(z, db)); assert(bad_rows(*self, titled_rows(d), titles(d)->0, db) ==> bad_file(*self, d, z, db)); }
@tail
    proof { if vx_t is Ok { assert(imported(*self, d, z, db, vx_t->Ok_0)); } }
@props C13 C11 C19 C20
@fn PaypalCsv::read_transactions
@ret r
@spec
    ensures
        r matches Ok(ts) ==> made(*self, csv_rest(*old($2)), *$1, *$3, ts@),
        r is Err ==> bad_rows(*self, csv_rest(*old($2)), *$1, *$3),
@begin
    let ghost rows = csv_rest(*$2);
@replace `vx_it: csv_records`
vx_it: crate::vx::csv_rows(csv_records)
@chain 0 result
    invariant_except_break
        vx_err is None,
    invariant
        rows == csv_rest(*old($2)), vx_it.seq() == rows,
        vx_err is None ==> vx_acc@.len() == vx_it.index(),
        forall|i: int| 0 <= i < vx_acc@.len() ==> good_row(#[trigger] rows[i], *$1, *$3, self.fp_ns@)
            && read_as(row_with::<de::Record>(rows[i]->Ok_0, *$1), *$3, self.fp_ns@, vx_acc@[i]),
    ensures
        vx_err is None ==> vx_acc@.len() == rows.len(),
        vx_err is Some ==> exists|i: int| 0 <= i < rows.len() && !good_row(#[trigger] rows[i], *$1, *$3, self.fp_ns@),
---
    proof { assert(rows[vx_it.index() as int] == vx_x); }
@before `let record_groups`
    let ghost rs = records@;
@replace `records.into_iter().chunk_by(|record| record.datetime)`
crate::vx::chunks(records, |record: &Record| -> (d: DateTime<FixedOffset>) ensures d == record.datetime { record.datetime }, Ghost(time_of()))
@chain 1 call crate::vx::same
@chain 2 result
    invariant_except_break
        vx_err is None,
    invariant
        vx_it.seq() == gs,
        vx_err is None ==> vx_acc@.len() == vx_it.index(),
        forall|g: int| 0 <= g < vx_acc@.len() ==> group_trn(*self, gs[g].0, gs[g].1@, #[trigger] vx_acc@[g]),
    ensures
        vx_err is None ==> vx_acc@.len() == gs.len(),
        vx_err is Some ==> !all_named(gs),
---
---
---
    proof { assert(runs(rs, time_of(), gs)); assert(vx_err is None ==> rows_trns(*self, csv_rest(*old($2)), *$1, *$3, rs, gs, vx_acc@)); assert(vx_err is None ==> made(*self, csv_rest(*old($2)), *$1, *$3, vx_acc@)); }
---
    let ghost gs = record_groups@;
@props C13 C20
@fn PaypalCsv::form_transaction
@ret r
@spec
    ensures
        r is Ok <==> named($2@),
        r matches Ok(t) ==> group_trn(*self, $1, $2@, t),
@chain 0 opt String
    invariant_except_break
        vx_r is None,
        forall|j: int| 0 <= j < vx_it.index() ==> (#[trigger] $2@[j]).name is None,
    invariant
        vx_it.seq().unref() == $2@,
    ensures
        vx_r is None ==> !named($2@),
        vx_r is Some ==> first_name($2@, vx_r->0),
---
    proof { assert(*vx_x == $2@[vx_it.index() as int]); }
@begin
    let ghost rs = $2@;
@loop 1
    invariant
        it.seq() == rs, rs == $2@, vx_n0 == it.index(),
        postings@.len() == 2 * it.index(),
        forall|i: int| 0 <= i < it.index() ==> pair(self.include_legacy_fingerprint, #[trigger] rs[i], fed(rs[i].partial_fp.acc) + be(i, 8), (postings@[2 * i], postings@[2 * i + 1])),
@loopbegin 1
    let ghost ps0 = postings@;
    let ghost k = it.index() as int;
    proof { assert(record == rs[k]); }
@loopend 1
    proof {
        assert(pair(self.include_legacy_fingerprint, rs[k], fed(rs[k].partial_fp.acc) + be(k, 8), (postings@[2 * k], postings@[2 * k + 1])));
        assert forall|i: int| 0 <= i < k + 1 implies pair(self.include_legacy_fingerprint, #[trigger] rs[i], fed(rs[i].partial_fp.acc) + be(i, 8), (postings@[2 * i], postings@[2 * i + 1])) by {
            if i < k { assert(postings@[2 * i] == ps0[2 * i]); assert(postings@[2 * i + 1] == ps0[2 * i + 1]); }
        }
    }
@props C13 C20 C11
@fn PaypalCsv::form_postings
@ret r
@spec
    ensures pair(self.include_legacy_fingerprint, $1, fed($1.partial_fp.acc), r),
@begin
    let ghost rec = $1;
@tail
    let ghost sc = self_comment; let ghost pc = peer_comment;
    let ghost b0 = fed(rec.partial_fp.acc) + str_bytes("self"@); let ghost b1 = fed(rec.partial_fp.acc) + str_bytes("peer"@);
    let ghost ns = rec.partial_fp.user_namespace@;
    let ghost t0 = sides("import-self"@, self.include_legacy_fingerprint, ns, b0).insert(mk(tag_text(rec.partial_fp.algorithm_name@, rec.partial_fp.algorithm_version, ns, b0)));
    let ghost t1 = sides("import-peer"@, self.include_legacy_fingerprint, ns, b1);
    let ghost t2 = t1.insert(mk(tag_text(rec.partial_fp.algorithm_name@, rec.partial_fp.algorithm_version, ns, b1)));
    proof {
        assert(sc.tags@ =~= t0); assert(sc.value_tags@ =~= receipt(rec));
        assert(pc.value_tags@ =~= kind_name(rec));
        assert(holds(sc, t0, receipt(rec)));
        if pc.tags@ =~= t1 { assert(holds(pc, t1, kind_name(rec))); } else { assert(pc.tags@ =~= t2); assert(holds(pc, t2, kind_name(rec))); }
    }
@props C10 C11 C13 C20
@fn Record::from_csv_record
@ret r
@spec
    ensures
        r is Ok <==> part_ok($3@) && zone(*$2, $1.time_zone@) is Some,
        r matches Ok(x) ==> read_as($1, *$2, $3@, x),
@begin
    proof { reveal_strlit("ppcsv"); assert(part_ok("ppcsv"@)); }
@tail
    proof {
        assert forall|n: Option<&str>| n is Some == v.name is Some && (n is Some ==> (n->0)@ == (v.name->0)@) implies #[trigger] crate::fingerprint::Fingerprintable::bytes(n) == opt_str_bytes(v.name) by {}
        assert(amount == money(v.amount, v.currency)); assert(balance == money(v.balance, v.currency));
        assert(fed(partial_fp.acc) =~= row_bytes(v));
    }
@replace `tz.from_local_datetime(&naive_datetime)`
crate::vx::from_local(&tz, &naive_datetime)
@props C10 C13 C19 C20
@fn deserialize_row
@ret r
@spec
    ensures
        r is Ok <==> good_row($1, *$2, *$3, $4@),
        r matches Ok(x) ==> read_as(row_with::<de::Record>($1->Ok_0, *$2), *$3, $4@, x),
@replace `sr?.deserialize(Some(headers))?`
crate::vx::csv_row_with::<de::Record>(&sr?, headers)?
@props C13
@fn parse_timezone
@ret r
@spec
    ensures
        r is Ok <==> zone(*$1, $2@) is Some,
        r matches Ok(o) ==> o == zone(*$1, $2@)->0,
@props C13 C19

@add de
#[verifier::external_type_specification]
pub struct ExStatus(Status);
impl vstd::std_specs::convert::IntoSpecImpl<TransactionStatus> for Status {
    open spec fn obeys_into_spec() -> bool { true }
    open spec fn into_spec(self) -> TransactionStatus { super::status_of(self) }
}
@fn de::Into<TransactionStatus> for Status::into
@props C13

@fn de::de::Visitor<'de > for DateVisitor::visit_str
@ret r
@spec
    ensures r is Ok <==> parsed_date($1@, "%d/%m/%Y"@) is Some, r matches Ok(d) ==> Some(d.0) == parsed_date($1@, "%d/%m/%Y"@),
@closure map
NaiveDate
-> (t: Date) ensures t.0 == #1
@props C13 C20
@fn de::de::Visitor<'de > for TimeVisitor::visit_str
@ret r
@spec
    ensures r is Ok <==> parsed_time($1@, "%H:%M:%S"@) is Some, r matches Ok(d) ==> Some(d.0) == parsed_time($1@, "%H:%M:%S"@),
@closure map
NaiveTime
-> (t: Time) ensures t.0 == #1
@props C13 C20
