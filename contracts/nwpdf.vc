@file importers/nationwide_pdf.rs
@pubfields NationwidePdf TransactionsAccumulator TransactionBuilder TransactionType
@wrap TransactionsAccumulator TransactionBuilder TransactionType
@wrapimpl TransactionImporter for NationwidePdf
@wrap table::TransactionLine table::Columns table::ColumnPos table::DateField table::Table
@wrap table::DATE table::DETAILS table::PAYMENTS table::RECEPITS table::BALANCE table::EARLIEST_YEAR table::LATEST_YEAR
@pubfields table::Columns table::ColumnPos table::Table table::DateField
@add
#[verifier::external_type_specification]
pub struct ExNationwidePdf(NationwidePdf);
use crate::comment::{says, holds};
use crate::fingerprint::{fed, part_ok, str_bytes, date_bytes, amount_bytes, hash64};
use crate::importers::util::{negated, peer_account};
use ledger_parser::{Balance, Commodity, CommodityPosition, PostingAmount};
pub open spec fn gbp(q: Decimal) -> Amount { Amount { quantity: q, commodity: Commodity { name: mk("GBP"@), position: CommodityPosition::Left } } }
/// The amount a text stands for: thousands separators do not count.
pub open spec fn amount_of(s: Seq<char>) -> Option<Amount> {
    match parsed_dec(replaced(s, seq![','], Seq::empty())) { Some(q) => Some(gbp(q)), None => None }
}
/// The transaction being read.
pub struct Pending { pub date: NaiveDate, pub n: i32, pub amount: Amount, pub out: bool, pub effective: Option<NaiveDate>, pub text: Seq<char>, pub balance: Option<Amount> }
pub open spec fn pending(b: TransactionBuilder) -> Pending {
    Pending { date: b.date, n: b.date_counter, amount: b.amount, out: b.type_ is Payment, effective: b.effective_date, text: b.description@, balance: b.balance }
}
pub open spec fn pend_opt(b: Option<TransactionBuilder>) -> Option<Pending> { match b { Some(x) => Some(pending(x)), None => None } }
pub open spec fn signed(p: Pending) -> Amount { if p.out { negated(p.amount) } else { p.amount } }
pub open spec fn pdf_bytes(p: Pending, account: Seq<char>, a: Amount) -> Seq<u8> {
    date_bytes(p.date) + be(p.n as int, 4) + str_bytes(p.text) + str_bytes(account) + amount_bytes(a)
}
pub open spec fn half(side: Seq<char>, ns: Seq<char>, b: Seq<u8>) -> Set<String> {
    Set::<String>::empty().insert(mk("unknown-account"@)).insert(mk(side)).insert(mk("fp-"@ + ns + "-"@ + hash64(b)))
}
pub open spec fn bank() -> Map<String, String> { Map::<String, String>::empty().insert(mk("bank"@), mk("Nationwide"@)) }
pub open spec fn posts(p: Posting, account: Seq<char>, a: Amount, b: Option<Amount>) -> bool {
    p.account@ == account && p.reality is Real && p.amount == Some(PostingAmount { amount: a, lot_price: None, price: None }) && p.status is None
    && p.balance == (match b { Some(x) => Some(Balance::Amount(x)), None => None })
}
/// The transaction made of what was read.
pub open spec fn made(p: Pending, ns: Seq<char>, t: Transaction) -> bool {
    let a = signed(p);
    &&& t.date == p.date && t.effective_date == p.effective && t.description@ == p.text && t.status is None && t.code is None && t.comment is None
    &&& t.postings@.len() == 2
    &&& posts(t.postings@[0], accounts::ASSETS_UNKNOWN@, a, p.balance) && posts(t.postings@[1], peer_account(a), negated(a), None)
    &&& says(t.postings@[0].comment, half("import-self"@, ns, pdf_bytes(p, accounts::ASSETS_UNKNOWN@, a)), bank().insert(mk("seq"@), mk(ns + "-"@ + disp(&((p.n + 1) as i32)))))
    &&& says(t.postings@[1].comment, half("import-peer"@, ns, pdf_bytes(p, peer_account(a), negated(a))), bank())
}
/// How far the reading of a statement has come: transactions read, the one being read, the last date, and its number of the day.
pub struct Reading { pub done: Seq<Pending>, pub cur: Option<Pending>, pub prev: Option<NaiveDate>, pub n: i32 }
pub open spec fn all_made(ps: Seq<Pending>, ns: Seq<char>, ts: Seq<Transaction>) -> bool {
    ts.len() == ps.len() && forall|i: int| 0 <= i < ps.len() ==> made(#[trigger] ps[i], ns, ts[i])
}
pub open spec fn stands(a: TransactionsAccumulator, s: Reading) -> bool {
    s.cur == pend_opt(a.cur_trn_opt) && s.prev == a.prev_date && s.n == a.date_counter && all_made(s.done, a.fp_ns@, a.trns@)
}
pub open spec fn sane(a: TransactionsAccumulator) -> bool {
    0 <= a.date_counter < i32::MAX && (a.cur_trn_opt matches Some(b) ==> 0 <= b.date_counter < i32::MAX)
}
pub open spec fn done_of(s: Reading) -> Seq<Pending> { match s.cur { Some(p) => s.done.push(p), None => s.done } }
/// A line with an amount starts a transaction.
pub open spec fn starts(s: Reading, ns: Seq<char>, l: table::TransactionLine, x: String, out: bool) -> Option<Reading> {
    let n = if l.implied_date != s.prev { 0 } else { (s.n + 1) as i32 };
    match (l.implied_date, amount_of(x@)) {
        (Some(d), Some(a)) => if !dec_negative(a.quantity) && (s.cur is Some ==> part_ok(ns)) {
            Some(Reading { done: done_of(s), cur: Some(Pending { date: d, n, amount: a, out, effective: None, text: l.detail@, balance: None }), prev: l.implied_date, n })
        } else { None },
        _ => None,
    }
}
/// A line without one continues it.
pub open spec fn continues(s: Reading, p: Pending, l: table::TransactionLine) -> Option<Reading> {
    let q = if l.detail@.len() == 0 { Some(p) }
        else if "Effective Date "@.is_prefix_of(l.detail@) {
            match parsed_date(l.detail@, "Effective Date %d %b %Y"@) { Some(d) => Some(Pending { effective: Some(d), ..p }), None => None }
        } else { Some(Pending { text: p.text + seq![' '] + l.detail@, ..p }) };
    match q { Some(q) => Some(Reading { cur: Some(q), prev: l.implied_date, ..s }), None => None }
}
pub open spec fn with_balance(s: Reading, b: Option<String>) -> Option<Reading> {
    match b {
        None => Some(s),
        Some(x) => match amount_of(x@) { Some(a) => Some(Reading { cur: Some(Pending { balance: Some(a), ..s.cur->0 }), ..s }), None => None },
    }
}
pub open spec fn read_line(s: Reading, ns: Seq<char>, l: table::TransactionLine) -> Option<Reading> {
    let t = match (l.payment, l.receipt) {
        (Some(_), Some(_)) => None,
        (Some(x), None) => starts(s, ns, l, x, true),
        (None, Some(x)) => starts(s, ns, l, x, false),
        (None, None) => match s.cur { Some(p) => continues(s, p, l), None => Some(s) },
    };
    match t { Some(t) => if t.cur is Some { with_balance(t, l.balance) } else { Some(t) }, None => None }
}
pub open spec fn read_lines(s: Reading, ns: Seq<char>, ls: Seq<table::TransactionLine>, n: int) -> Option<Reading>
    decreases n
{ if n <= 0 { Some(s) } else { match read_lines(s, ns, ls, n - 1) { Some(t) => read_line(t, ns, ls[n - 1]), None => None } } }
/// A gap of more than two line heights before a line.
pub open spec fn gap(ls: Seq<table::TransactionLine>, i: int) -> bool { ls[i].top > ls[i - 1].top + 2 * ls[i - 1].height }
/// The lines before the first gap.
pub open spec fn table_end(ls: Seq<table::TransactionLine>, i: int) -> int
    decreases ls.len() - i
{ if i >= ls.len() || (i > 0 && gap(ls, i)) { i } else { table_end(ls, i + 1) } }
pub proof fn lemma_stuck(s: Reading, ns: Seq<char>, ls: Seq<table::TransactionLine>, i: int, n: int)
    requires 0 <= i <= n, read_lines(s, ns, ls, i) is None,
    ensures read_lines(s, ns, ls, n) is None,
    decreases n - i,
{ if i < n { lemma_stuck(s, ns, ls, i, n - 1); } }
pub proof fn lemma_end(ls: Seq<table::TransactionLine>, i: int)
    requires 0 <= i <= ls.len(),
    ensures i <= table_end(ls, i) <= ls.len(),
    decreases ls.len() - i,
{ if i < ls.len() && !(i > 0 && gap(ls, i)) { lemma_end(ls, i + 1); } }
/// One transaction per line with an amount, in order.
pub open spec fn heads(ls: Seq<table::TransactionLine>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { heads(ls, n - 1) + (if ls[n - 1].payment is Some || ls[n - 1].receipt is Some { 1int } else { 0 }) } }
pub proof fn lemma_heads(s: Reading, ns: Seq<char>, ls: Seq<table::TransactionLine>, n: int)
    requires read_lines(s, ns, ls, n) is Some, 0 <= n,
    ensures
        done_of(read_lines(s, ns, ls, n)->0).len() == done_of(s).len() + heads(ls, n),
    decreases n,
{ if n > 0 { lemma_heads(s, ns, ls, n - 1); } }
/// Reading the tables of a page, and the pages of a document, one after the other.
pub open spec fn tab_lines(t: table::Tab) -> Option<Seq<table::TransactionLine>> {
    let ls = table::body(t.para, t.columns);
    match table::table_lines(t.columns, ls, ls.len() as int) { Some((_, ts)) => Some(ts), None => None }
}
pub open spec fn read_tab(s: Reading, ns: Seq<char>, t: table::Tab) -> Option<Reading> {
    match tab_lines(t) { Some(ls) => read_lines(s, ns, ls, table_end(ls, 0)), None => None }
}
pub open spec fn read_tabs(s: Reading, ns: Seq<char>, ts: Seq<table::Tab>, n: int) -> Option<Reading>
    decreases n
{ if n <= 0 { Some(s) } else { match read_tabs(s, ns, ts, n - 1) { Some(t) => read_tab(t, ns, ts[n - 1]), None => None } } }
pub open spec fn read_pages(s: Reading, ns: Seq<char>, ps: Seq<tesseract::Page>, n: int) -> Option<Reading>
    decreases n
{ if n <= 0 { Some(s) } else { match read_pages(s, ns, ps, n - 1) { Some(t) => read_tabs(t, ns, page_tabs(ps[n - 1]), page_tabs(ps[n - 1]).len() as int), None => None } } }
pub open spec fn page_tabs(p: tesseract::Page) -> Seq<table::Tab> { table::tabs(p.blocks@, p.blocks@.len() as int) }
pub open spec fn unread() -> Reading { Reading { done: Seq::empty(), cur: None, prev: None, n: 0 } }
pub proof fn lemma_tabs_stuck(s: Reading, ns: Seq<char>, ts: Seq<table::Tab>, i: int, n: int)
    requires 0 <= i <= n, read_tabs(s, ns, ts, i) is None,
    ensures read_tabs(s, ns, ts, n) is None,
    decreases n - i,
{ if i < n { lemma_tabs_stuck(s, ns, ts, i, n - 1); } }
pub proof fn lemma_pages_stuck(s: Reading, ns: Seq<char>, ps: Seq<tesseract::Page>, i: int, n: int)
    requires 0 <= i <= n, read_pages(s, ns, ps, i) is None,
    ensures read_pages(s, ns, ps, n) is None,
    decreases n - i,
{ if i < n { lemma_pages_stuck(s, ns, ps, i, n - 1); } }
/// How many lines the tables of a document have.
pub open spec fn size(t: table::Tab) -> nat { t.para.lines@.len() }
pub open spec fn sizes(ts: Seq<table::Tab>, n: int) -> nat
    decreases n
{ if n <= 0 { 0 } else { sizes(ts, n - 1) + size(ts[n - 1]) } }
pub open spec fn page_sizes(ps: Seq<tesseract::Page>, n: int) -> nat
    decreases n
{ if n <= 0 { 0 } else { page_sizes(ps, n - 1) + sizes(page_tabs(ps[n - 1]), page_tabs(ps[n - 1]).len() as int) } }
pub proof fn lemma_sizes(ts: Seq<table::Tab>, i: int, n: int)
    requires 0 <= i <= n,
    ensures sizes(ts, i) <= sizes(ts, n),
    decreases n - i,
{ if i < n { lemma_sizes(ts, i, n - 1); } }
pub proof fn lemma_page_sizes(ps: Seq<tesseract::Page>, i: int, n: int)
    requires 0 <= i <= n,
    ensures page_sizes(ps, i) <= page_sizes(ps, n),
    decreases n - i,
{ if i < n { lemma_page_sizes(ps, i, n - 1); } }
pub proof fn lemma_line_count(c: table::Columns, ls: Seq<tesseract::Line>, n: int)
    requires 0 <= n, table::table_lines(c, ls, n) is Some,
    ensures (table::table_lines(c, ls, n)->0).1.len() <= n,
    decreases n,
{ if n > 0 { lemma_line_count(c, ls, n - 1); } }
/// The bank account of a document: on its first line that says so.
pub open spec fn account_on(l: tesseract::Line) -> Option<Seq<char>> {
    let w = l.words@;
    if w.len() >= 4 && w[0].text@ == "Account"@ && w[1].text@ == "Number"@ && re_matches(re_of("^\\d{2}-\\d{2}-\\d{2}$"@), w[2].text@) && re_matches(re_of("^\\d{8}$"@), w[3].text@) {
        Some(w[2].text@ + " "@ + w[3].text@)
    } else { None }
}
pub open spec fn account_in(ls: Seq<tesseract::Line>, n: int) -> Option<Seq<char>>
    decreases n
{ if n <= 0 { None } else if account_in(ls, n - 1) is Some { account_in(ls, n - 1) } else { account_on(ls[n - 1]) } }
pub open spec fn account_of(ps: Seq<tesseract::Paragraph>, n: int) -> Option<Seq<char>>
    decreases n
{ if n <= 0 { None } else if account_of(ps, n - 1) is Some { account_of(ps, n - 1) } else { account_in(ps[n - 1].lines@, ps[n - 1].lines@.len() as int) } }
pub open spec fn account(d: tesseract::Document) -> Option<Seq<char>> {
    let ps = tesseract::paras(d.pages@, d.pages@.len() as int);
    account_of(ps, ps.len() as int)
}
pub proof fn lemma_account_in(ls: Seq<tesseract::Line>, i: int, n: int)
    requires 0 <= i <= n, account_in(ls, i) is Some,
    ensures account_in(ls, n) == account_in(ls, i),
    decreases n - i,
{ if i < n { lemma_account_in(ls, i, n - 1); } }
pub proof fn lemma_account_of(ps: Seq<tesseract::Paragraph>, i: int, n: int)
    requires 0 <= i <= n, account_of(ps, i) is Some,
    ensures account_of(ps, n) == account_of(ps, i),
    decreases n - i,
{ if i < n { lemma_account_of(ps, i, n - 1); } }
/// What a scan of the input gave; it did not work.
pub uninterp spec fn scanned(c: NationwidePdf, d: tesseract::Document) -> bool;
pub uninterp spec fn unscannable(c: NationwidePdf) -> bool;
/// What a document is imported as.
pub open spec fn read_doc(c: NationwidePdf, d: tesseract::Document) -> Option<(Seq<char>, Seq<Pending>)> {
    match account(d) {
        None => None,
        Some(a) => match crate::importers::nationwide::ns_of(c.commonopts.fp_ns, a) {
            None => None,
            Some(ns) => match read_pages(unread(), ns, d.pages@, d.pages@.len() as int) {
                Some(s) => if s.cur is Some ==> part_ok(ns) { Some((ns, done_of(s))) } else { None },
                None => None,
            },
        },
    }
}
pub open spec fn imported(c: NationwidePdf, d: tesseract::Document, i: Import) -> bool {
    scanned(c, d) && (read_doc(c, d) matches Some((ns, ps)) && i.user_fp_namespace@ == ns && all_made(ps, ns, i.transactions@))
}
pub open spec fn import_gives(x: NationwidePdf, i: Import) -> bool { exists|d: tesseract::Document| #[trigger] imported(x, d, i) }
pub open spec fn import_bad(x: NationwidePdf) -> bool { unscannable(x) || exists|d: tesseract::Document| #[trigger] scanned(x, d) && read_doc(x, d) is None }
@add in TransactionImporter for NationwidePdf
    open spec fn gives(&self, i: Import) -> bool { import_gives(*self, i) }
    open spec fn bad(&self) -> bool { import_bad(*self) }
@fn TransactionImporter for NationwidePdf::get_transactions
@begin
    proof { assert(unread().done =~= Seq::empty()); }
@safter `let user_fp_namespace =`
    let ghost ns = user_fp_namespace@; let ghost ps = doc.pages@;
    proof { assert(account_name@ == account(doc)->0); }
@loop 0
    invariant
        it.seq().unref() == doc.pages@, ps == doc.pages@, ns == user_fp_namespace@, acc.fp_ns@ == ns,
        scanned(*self, doc), account(doc) is Some, crate::importers::nationwide::ns_of(self.commonopts.fp_ns, account(doc)->0) == Some(ns),
        page_sizes(ps, ps.len() as int) < i32::MAX - 1,
        sane(acc), acc.date_counter <= page_sizes(ps, it.index() as int),
        read_pages(unread(), ns, ps, it.index() as int) matches Some(s) && stands(acc, s),
@loopbegin 0
    let ghost i = it.index() as int; let ghost s0 = read_pages(unread(), ns, ps, i)->0; let ghost ts = page_tabs(ps[i]); let ghost a0 = acc;
    proof {
        assert(it.seq().unref()[i] == *it.seq()[i]); assert(*page == ps[i]);
        lemma_page_sizes(ps, i + 1, ps.len() as int);
        assert(page_sizes(ps, i + 1) == page_sizes(ps, i) + sizes(ts, ts.len() as int));
        assert(read_pages(unread(), ns, ps, i + 1) == read_tabs(s0, ns, ts, ts.len() as int));
        if read_pages(unread(), ns, ps, i + 1) is None { lemma_pages_stuck(unread(), ns, ps, i + 1, ps.len() as int); }
    }
@loop 1
    it = it2
    invariant
        table::tab_views(it2.seq()) == ts, forall|j: int| 0 <= j < it2.seq().len() ==> table::sound(table::tab(#[trigger] it2.seq()[j])),
        acc.fp_ns@ == ns, sane(acc),
        scanned(*self, doc), account(doc) is Some, crate::importers::nationwide::ns_of(self.commonopts.fp_ns, account(doc)->0) == Some(ns),
        ps == doc.pages@, read_tabs(s0, ns, ts, ts.len() as int) is None ==> read_pages(unread(), ns, ps, ps.len() as int) is None,
        page_sizes(ps, i) + sizes(ts, ts.len() as int) < i32::MAX - 1,
        acc.date_counter <= page_sizes(ps, i) + sizes(ts, it2.index() as int),
        read_tabs(s0, ns, ts, it2.index() as int) matches Some(s) && stands(acc, s),
@loopbegin 1
    let ghost j = it2.index() as int; let ghost s1 = read_tabs(s0, ns, ts, j)->0;
    proof {
        assert(ts[j] == table::tab(it2.seq()[j])); assert(table == it2.seq()[j]);
        lemma_sizes(ts, j + 1, ts.len() as int);
        if read_tabs(s0, ns, ts, j + 1) is None { lemma_tabs_stuck(s0, ns, ts, j + 1, ts.len() as int); }
        let ls = table::body(*table.para, table.columns);
        if table::table_lines(table.columns, ls, ls.len() as int) is Some { lemma_line_count(table.columns, ls, ls.len() as int); }
        assert(read_tabs(s0, ns, ts, j + 1) == read_tab(s1, ns, ts[j]));
    }
@before `Ok(Import {`
    let ghost fin = read_pages(unread(), ns, ps, ps.len() as int)->0;
    proof { assert(read_doc(*self, doc) == Some((ns, done_of(fin)))); assert(imported(*self, doc, Import { user_fp_namespace, transactions })); }
@props C14 C11
@fn! NationwidePdf::ocr_document
@ret r
@spec
    ensures
        r matches Ok(d) ==> scanned(*self, d) && page_sizes(d.pages@, d.pages@.len() as int) < i32::MAX - 1,
        r is Err ==> unscannable(*self),
@fn find_account_name
@ret r
@spec
    ensures
        r is Some <==> account(*$1) is Some,
        r matches Some(s) ==> account(*$1) == Some(s@),
@begin
    let ghost ps = tesseract::paras($1.pages@, $1.pages@.len() as int);
@loop 0
    invariant
        tesseract::same_all(it.seq(), ps), ps == tesseract::paras($1.pages@, $1.pages@.len() as int),
        account_of(ps, it.index() as int) is None,
@loopbegin 0
    let ghost i = it.index() as int; let ghost ls = ps[i].lines@;
    proof { assert(*para == ps[i]); if account_of(ps, i + 1) is Some { lemma_account_of(ps, i + 1, ps.len() as int); } }
@loop 1
    it = it2
    invariant
        it2.seq().unref() == ls, 0 <= i < ps.len(), ls == ps[i].lines@, ps == tesseract::paras($1.pages@, $1.pages@.len() as int),
        account_of(ps, i) is None, account_of(ps, i + 1) is Some ==> account(*$1) == account_of(ps, i + 1),
        account_in(ls, it2.index() as int) is None,
@loopbegin 1
    let ghost j = it2.index() as int;
    proof { assert(it2.seq().unref()[j] == *it2.seq()[j]); assert(*line == ls[j]); if account_in(ls, j + 1) is Some { lemma_account_in(ls, j + 1, ls.len() as int); } }
@before `return Some(`
    proof { assert(sort_code@ + " "@ + acct_num@ =~= Seq::<char>::empty() + sort_code@ + " "@ + acct_num@); reveal_strlit(" "); }
@props C14 C20
@fn NationwidePdf::lines_to_transactions
@ret r
@spec
    requires sane(*old($1)), old($1).date_counter + $2@.len() < i32::MAX - 1,
    ensures
        r is Ok ==> sane(*final($1)), final($1).fp_ns == old($1).fp_ns,
        final($1).date_counter <= old($1).date_counter + $2@.len(),
        forall|s: Reading| #[trigger] stands(*old($1), s) ==> {
            &&& r is Ok <==> read_lines(s, old($1).fp_ns@, $2@, table_end($2@, 0)) is Some
            &&& r is Ok ==> stands(*final($1), read_lines(s, old($1).fp_ns@, $2@, table_end($2@, 0))->0)
        },
@begin
    let ghost ls = $2@; let ghost ns = $1.fp_ns@; let ghost a0 = *$1;
    proof { lemma_end(ls, 0); }
@loop 0
    invariant_except_break
        table_end(ls, 0) == table_end(ls, it.index() as int),
        it.index() == 0 <==> prev_trn_line is None,
        it.index() > 0 ==> *prev_trn_line->0 == ls[it.index() - 1],
        forall|s: Reading| #[trigger] stands(a0, s) ==> read_lines(s, ns, ls, it.index() as int) is Some && stands(*$1, read_lines(s, ns, ls, it.index() as int)->0),
    invariant
        it.seq().unref() == ls, ls == $2@, ns == a0.fp_ns@, $1.fp_ns == a0.fp_ns, a0 == *old($1),
        sane(*$1), a0.date_counter + ls.len() < i32::MAX - 1, $1.date_counter <= a0.date_counter + it.index(),
    ensures
        forall|s: Reading| #[trigger] stands(a0, s) ==> read_lines(s, ns, ls, table_end(ls, 0)) is Some && stands(*$1, read_lines(s, ns, ls, table_end(ls, 0))->0),
@loopbegin 0
    let ghost i = it.index() as int;
    proof { assert(*trn_line == ls[i]); lemma_end(ls, i); lemma_end(ls, i + 1); }
@before `acc.feed_line(trn_line)`
    proof {
        assert(!(i > 0 && gap(ls, i)));
        assert(table_end(ls, 0) == table_end(ls, i + 1));
        assert forall|s: Reading| #[trigger] stands(a0, s) && read_lines(s, ns, ls, i + 1) is None implies read_lines(s, ns, ls, table_end(ls, 0)) is None by {
            lemma_stuck(s, ns, ls, i + 1, table_end(ls, 0));
        }
    }
@loopend 0
    proof { assert forall|s: Reading| #[trigger] stands(a0, s) implies read_lines(s, ns, ls, i + 1) is Some && stands(*$1, read_lines(s, ns, ls, i + 1)->0) by { assert(stands(a0, s)); } }
@props C14
@fn TransactionsAccumulator::new
@ret r
@spec
    ensures
        r.fp_ns == $1, sane(r), r.date_counter == 0,
        stands(r, Reading { done: Seq::empty(), cur: None, prev: None, n: 0 }),
@props C14
@fn TransactionsAccumulator::feed_line
@ret r
@spec
    requires sane(*old(self)), old(self).date_counter < i32::MAX - 1,
    ensures
        r is Ok ==> sane(*final(self)), final(self).fp_ns == old(self).fp_ns,
        final(self).date_counter <= old(self).date_counter + 1,
        forall|s: Reading| #[trigger] stands(*old(self), s) ==> {
            &&& r is Ok <==> read_line(s, old(self).fp_ns@, *$1) is Some
            &&& r is Ok ==> stands(*final(self), read_line(s, old(self).fp_ns@, *$1)->0)
        },
@begin
    let ghost old_text = pend_opt(self.cur_trn_opt)->0.text; let ghost l = *$1;
@after `cur_trn.description.push_str(&trn_line.detail);`
    proof { assert(cur_trn.description@ =~= old_text + seq![' '] + l.detail@); }
@props C14
@fn TransactionsAccumulator::flush_transaction
@ret r
@spec
    requires sane(*old(self)),
    ensures
        r is Ok <==> (old(self).cur_trn_opt is Some ==> part_ok(old(self).fp_ns@)),
        final(self).fp_ns == old(self).fp_ns, final(self).prev_date == old(self).prev_date, final(self).date_counter == old(self).date_counter,
        final(self).cur_trn_opt is None,
        r is Ok ==> forall|ps: Seq<Pending>| #[trigger] all_made(ps, old(self).fp_ns@, old(self).trns@) ==>
            all_made(match old(self).cur_trn_opt { Some(b) => ps.push(pending(b)), None => ps }, final(self).fp_ns@, final(self).trns@),
@props C14
@fn TransactionsAccumulator::build
@ret r
@spec
    requires sane(self),
    ensures
        forall|s: Reading| #[trigger] stands(self, s) ==> {
            &&& r is Ok <==> (s.cur is Some ==> part_ok(self.fp_ns@))
            &&& r matches Ok(ts) ==> all_made(done_of(s), self.fp_ns@, ts@)
        },
@props C14
@fn TransactionBuilder::new
@ret r
@spec
    ensures
        r is Ok <==> $1 is Some && !dec_negative($3.quantity),
        r matches Ok(b) ==> pending(b) == (Pending { date: $1->0, n: $2, amount: $3, out: $4 is Payment, effective: None, text: $5@, balance: None }),
@props C14
@fn TransactionBuilder::build
@ret r
@spec
    requires 0 <= self.date_counter < i32::MAX,
    ensures
        r is Ok <==> part_ok($1@),
        r matches Ok(t) ==> made(pending(self), $1@, t),
@begin
    proof { reveal_strlit("nwpdf"); assert(part_ok("nwpdf"@)); reveal_strlit("-"); }
    let ghost p = pending(self); let ghost a = signed(p);
    let ghost b0 = pdf_bytes(p, accounts::ASSETS_UNKNOWN@, a); let ghost b1 = pdf_bytes(p, peer_account(a), negated(a));
    let ghost v0 = bank().insert(mk("seq"@), mk($1@ + "-"@ + disp(&((p.n + 1) as i32))));
    let ghost t0 = half("import-self"@, $1@, b0); let ghost t1 = half("import-peer"@, $1@, b1);
@before `Ok(Transaction`
    proof {
        assert(fed(self_fp.acc) + Seq::<u8>::empty() =~= b0);
        assert(fed(peer_fp.acc) + Seq::<u8>::empty() =~= b1);
        assert($1@ + "-"@ + disp(&((p.n + 1) as i32)) =~= Seq::<char>::empty() + $1@ + "-"@ + disp(&((p.n + 1) as i32)));
        assert forall|c: Comment| c.lines@.len() == 0 && c.tags@ =~= t0 && c.value_tags@ =~= v0 && #[trigger] crate::comment::written(c) == crate::comment::written(c) implies holds(c, t0, v0) by {}
        assert forall|c: Comment| c.lines@.len() == 0 && c.tags@ =~= t1 && c.value_tags@ =~= bank() && #[trigger] crate::comment::written(c) == crate::comment::written(c) implies holds(c, t1, bank()) by {}
    }
@lower vec
@closure map 0
Amount
-> (o: Balance) ensures o == Balance::Amount(#1)
@props C10 C11 C14 C20
@fn parse_amount
@ret r
@spec
    ensures
        r is Ok <==> amount_of($1@) is Some,
        r matches Ok(a) ==> a == amount_of($1@)->0,
@begin
    proof { ax_replaced_absent($1@, seq![','], Seq::empty()); reveal_strlit(""); reveal_strlit("GBP"); assert(""@ =~= Seq::<char>::empty()); }
@props C11 C14

@add table
use crate::vx::{day_of, lacks, num_part, p_plain, skipped, with_part, ymd, Part, Ymd};
use crate::importers::tesseract::{Block, Bounds};
/// A word's columns, cut off at the ends of the number range.
pub open spec fn right(w: Word) -> int { if w.left + w.width > i32::MAX { i32::MAX as int } else if w.left + w.width < i32::MIN { i32::MIN as int } else { w.left + w.width } }
pub open spec fn over(b: Bounds, w: Word) -> bool { b.max > w.left && b.min < right(w) }
/// The texts of the words of a line that overlap a column.
pub open spec fn texts(b: Bounds, ws: Seq<Word>, n: int) -> Seq<String>
    decreases n
{ if n <= 0 { Seq::empty() } else if over(b, ws[n - 1]) { texts(b, ws, n - 1).push(ws[n - 1].text) } else { texts(b, ws, n - 1) } }
pub open spec fn cell_text(b: Bounds, l: Line) -> Seq<char> { crate::vx::joined(crate::vx::views(texts(b, l.words@, l.words@.len() as int)), " "@) }
/// What a line has in a column.
pub open spec fn cell(b: Bounds, l: Line) -> Option<String> { if cell_text(b, l).len() == 0 { None } else { Some(mk(cell_text(b, l))) } }
/// A line with the five headings, in their order.
pub open spec fn is_header(l: Line) -> bool {
    l.words@.len() >= 5 && l.words@[0].text@ == "Date"@ && l.words@[1].text@ == "Details"@ && l.words@[2].text@ == "Payments"@ && l.words@[3].text@ == "Receipts"@ && l.words@[4].text@ == "Balance"@
}
pub open spec fn span(w: Word) -> Bounds { Bounds { min: w.left, max: right(w) as i32 } }
pub open spec fn between(a: Word, b: Word) -> Bounds { Bounds { min: a.left, max: b.left } }
pub open spec fn columns_of(i: usize, l: Line) -> Columns {
    let w = l.words@;
    Columns {
        header_line_idx: i, date: ColumnPos { horiz_bounds: span(w[0]) }, details: ColumnPos { horiz_bounds: between(w[1], w[2]) },
        payments: ColumnPos { horiz_bounds: between(w[2], w[3]) }, receipts: ColumnPos { horiz_bounds: between(w[3], w[4]) }, balance: ColumnPos { horiz_bounds: span(w[4]) },
    }
}
/// The table of a paragraph: below its first header line.
pub open spec fn header_at(ls: Seq<Line>, i: int) -> int
    decreases ls.len() - i
{ if i >= ls.len() || is_header(ls[i]) { i } else { header_at(ls, i + 1) } }
pub open spec fn columns_in(p: Paragraph) -> Option<Columns> {
    let h = header_at(p.lines@, 0);
    if h < p.lines@.len() { Some(columns_of(h as usize, p.lines@[h])) } else { None }
}
/// The date read so far.
pub struct Dating { pub p: Ymd, pub date: Option<NaiveDate> }
/// A year alone starts that year, a day and a month make a date of the year that was read before, and no words change nothing.
pub open spec fn dated(s: Dating, ws: Seq<String>) -> Option<(DateField, Dating)> {
    if ws.len() == 0 { Some((DateField::Nothing, s)) }
    else if ws.len() == 1 {
        match num_part(Part::Year, ws[0]@) {
            Some(y) => if 1980 <= y <= 2100 { Some((DateField::Year, Dating { p: Ymd { y: Some(y as i32), m: None, d: None }, date: s.date })) } else { None },
            None => None,
        }
    } else if ws.len() == 2 {
        match (num_part(Part::Day, ws[0]@), num_part(Part::Month, ws[1]@)) {
            (Some(d), Some(m)) => {
                let p = Ymd { y: s.p.y, m: Some(m as u32), d: Some(d as u32) };
                match day_of(p) { Some(x) => Some((DateField::DayMonth, Dating { p, date: Some(x) })), None => None }
            },
            _ => None,
        }
    } else { None }
}
pub open spec fn dates(b: Bounds, l: Line) -> Seq<String> { texts(b, l.words@, l.words@.len() as int) }
pub open spec fn line_of(c: Columns, d: Option<NaiveDate>, l: Line, detail: String) -> TransactionLine {
    TransactionLine { implied_date: d, detail, payment: cell(c.payments.horiz_bounds, l), receipt: cell(c.receipts.horiz_bounds, l), balance: cell(c.balance.horiz_bounds, l), top: l.top, height: l.height }
}
/// The lines of a table with something in the details column, other than those that give a year.
pub open spec fn table_lines(c: Columns, ls: Seq<Line>, n: int) -> Option<(Dating, Seq<TransactionLine>)>
    decreases n
{
    if n <= 0 { Some((Dating { p: Ymd { y: None, m: None, d: None }, date: None }, Seq::empty())) }
    else {
        match table_lines(c, ls, n - 1) {
            None => None,
            Some((s, ts)) => match dated(s, dates(c.date.horiz_bounds, ls[n - 1])) {
                None => None,
                Some((f, t)) => match (f, cell(c.details.horiz_bounds, ls[n - 1])) {
                    (DateField::Year, _) => Some((t, ts)),
                    (_, Some(x)) => Some((t, ts.push(line_of(c, t.date, ls[n - 1], x)))),
                    _ => Some((t, ts)),
                },
            },
        }
    }
}
pub proof fn lemma_lines_stuck(c: Columns, ls: Seq<Line>, i: int, n: int)
    requires 0 <= i <= n, table_lines(c, ls, i) is None,
    ensures table_lines(c, ls, n) is None,
    decreases n - i,
{ if i < n { lemma_lines_stuck(c, ls, i, n - 1); } }
pub open spec fn body(p: Paragraph, c: Columns) -> Seq<Line> { p.lines@.skip(c.header_line_idx + 1) }
/// All lines of all the tables of a page, in reading order.
pub struct Tab { pub columns: Columns, pub para: Paragraph }
pub open spec fn tab(t: Table) -> Tab { Tab { columns: t.columns, para: *t.para } }
pub open spec fn tabs_in(ps: Seq<Paragraph>, n: int) -> Seq<Tab>
    decreases n
{ if n <= 0 { Seq::empty() } else { match columns_in(ps[n - 1]) { Some(columns) => tabs_in(ps, n - 1).push(Tab { columns, para: ps[n - 1] }), None => tabs_in(ps, n - 1) } } }
pub open spec fn tabs(bs: Seq<Block>, n: int) -> Seq<Tab>
    decreases n
{ if n <= 0 { Seq::empty() } else { tabs(bs, n - 1) + tabs_in(bs[n - 1].paragraphs@, bs[n - 1].paragraphs@.len() as int) } }
pub open spec fn tab_views(ts: Seq<Table>) -> Seq<Tab> { ts.map_values(|t: Table| tab(t)) }
pub open spec fn sound(t: Tab) -> bool { t.columns.header_line_idx < t.para.lines@.len() }
pub proof fn lemma_header(ls: Seq<Line>, i: int)
    requires 0 <= i <= ls.len(),
    ensures i <= header_at(ls, i) <= ls.len(),
    decreases ls.len() - i,
{ if i < ls.len() && !is_header(ls[i]) { lemma_header(ls, i + 1); } }
@fn table::ColumnPos::new
@ret r
@spec
    ensures r.horiz_bounds == (Bounds { min: $1, max: $2 }),
@props C14
@fn table::ColumnPos::overlaps
@ret r
@spec
    ensures r == over(self.horiz_bounds, *$1),
@props C14
@fn table::ColumnPos::collect_words_in
@ret r
@eager &'a str
@spec
    ensures crate::vx::strs(r@) == dates(self.horiz_bounds, *$1),
@chain 0 vec &'a str
    invariant
        vx_it.seq().unref() == $1.words@,
        crate::vx::strs(vx_acc@) == texts(self.horiz_bounds, $1.words@, vx_it.index() as int),
---
    let ghost acc0 = vx_acc@;
    proof { assert(vx_it.seq().unref()[vx_it.index() as int] == *vx_x); assert($1.words@[vx_it.index() as int] == *vx_x); }
---
    proof { if vx_acc@.len() > acc0.len() { crate::vx::lemma_strs_push(acc0, vx_acc@.last()); } }
@props C14
@fn table::ColumnPos::join_words_in
@ret r
@spec
    ensures r == cell(self.horiz_bounds, *$1),
@chain 0 call crate::vx::same
@begin
    proof { assert forall|v: Seq<&str>| #[trigger] crate::vx::disps::<&str>(v) == crate::vx::views(crate::vx::strs(v)) by { crate::vx::lemma_disps(v); } }
@props C14
@fn table::Columns::find_in_line
@ret r
@spec
    ensures r == (if is_header(*$2) { Some(columns_of($1, *$2)) } else { None }),
@props C14
@fn table::Columns::find_in_paragraph
@ret r
@spec
    ensures r == columns_in(*$1), r matches Some(c) ==> sound(Tab { columns: c, para: *$1 }),
@begin
    proof { lemma_header($1.lines@, 0); }
@loop 0
    invariant
        it.seq().unref() == $1.lines@, vx_n0 == it.index(),
        header_at($1.lines@, 0) == header_at($1.lines@, it.index() as int),
@loopbegin 0
    proof { assert(it.seq().unref()[it.index() as int] == *it.seq()[it.index() as int]); }
@props C14
@fn table::parse_date_component
@ret r
@replace `date_fmt::parse(parsed, value, parts.iter().cloned()).map_err(Into::into)`
crate::vx::parse_item(parsed, value, &parts)
@spec
    ensures
        p_plain(*old($1)) && lacks(ymd(*old($1)), crate::vx::part_of($2)) ==> {
            &&& r is Ok <==> with_part(ymd(*old($1)), crate::vx::part_of($2), $3@) is Some
            &&& r is Ok ==> p_plain(*final($1)) && with_part(ymd(*old($1)), crate::vx::part_of($2), $3@) == Some(ymd(*final($1)))
        },
@props C14
@fn table::Columns::update_date_from_line
@ret r
@replace `const DAY_PART: date_fmt::Item = date_fmt::Item::Numeric(date_fmt::Numeric::Day, date_fmt::Pad::Zero);`
//# the constant is written out where it is used
@replace #0 `DAY_PART`
crate::vx::day_part()
@replace `const MONTH_PART: date_fmt::Item = date_fmt::Item::Fixed(date_fmt::Fixed::ShortMonthName);`
//# the constant is written out where it is used
@replace #0 `MONTH_PART`
crate::vx::month_part()
@replace `const YEAR_PART: date_fmt::Item = date_fmt::Item::Numeric(date_fmt::Numeric::Year, date_fmt::Pad::None);`
//# the constant is written out where it is used
@replace #0 `YEAR_PART`
crate::vx::year_part()
@replace `date_parts.year = None;`
crate::vx::no_year(date_parts);
@replace `date_parts.year.expect(`
crate::vx::year_of(date_parts).expect(
@replace `(EARLIEST_YEAR..=LATEST_YEAR).contains(&new_year)`
crate::vx::incl_contains(EARLIEST_YEAR, LATEST_YEAR, &new_year)
@replace #0 `date_parts.month = None;`
crate::vx::no_month(date_parts);
@replace #0 `date_parts.month = None;`
crate::vx::no_month(date_parts);
@replace #0 `date_parts.day = None;`
crate::vx::no_day(date_parts);
@replace #0 `date_parts.day = None;`
crate::vx::no_day(date_parts);
@spec
    requires p_plain(*old($1)),
    ensures
        ({
            let s = Dating { p: ymd(*old($1)), date: *old($2) };
            let ws = dates(self.date.horiz_bounds, *$3);
            &&& r is Ok <==> dated(s, ws) is Some
            &&& r is Ok ==> p_plain(*final($1)) && dated(s, ws) == Some((r->Ok_0, Dating { p: ymd(*final($1)), date: *final($2) }))
        }),
@chain 0 call crate::vx::same
@begin
    proof { let ws = dates(self.date.horiz_bounds, *$3); crate::vx::ax_num_part(ws[0]@); crate::vx::ax_num_part(ws[1]@); }
@props C14
@fn table::Table<'a >::read_lines
@ret r
@replace `self.para.lines.iter().skip(self.columns.header_line_idx + 1)`
crate::vx::skipped(&self.para.lines, self.columns.header_line_idx + 1)
@spec
    requires sound(tab(*self)),
    ensures
        ({
            let ls = body(*self.para, self.columns);
            let x = table_lines(self.columns, ls, ls.len() as int);
            &&& r is Ok <==> x is Some
            &&& r is Ok ==> (x->0).1 == r->Ok_0@
        }),
@begin
    let ghost ls = body(*self.para, self.columns); let ghost c = self.columns;
    proof { assert(self.para.lines.len() == self.para.lines@.len()); }
@loop 0
    invariant
        ls == body(*self.para, self.columns), c == self.columns, it.seq().unref() == ls, p_plain(date_parts),
        table_lines(c, ls, it.index() as int) == Some((Dating { p: ymd(date_parts), date }, trn_lines@)),
@loopbegin 0
    let ghost i = it.index() as int;
    proof {
        assert(it.seq().unref()[i] == *it.seq()[i]); assert(*line == ls[i]);
        if table_lines(c, ls, i + 1) is None { lemma_lines_stuck(c, ls, i + 1, ls.len() as int); }
    }
@props C14
@fn table::Table<'a >::find_in_page
@ret r
@eager Table<'a>
@spec
    ensures tab_views(r@) == tabs($1.blocks@, $1.blocks@.len() as int), forall|i: int| 0 <= i < r@.len() ==> sound(tab(#[trigger] r@[i])),
@closure map 0
Columns
-> (o: Table<'a>) ensures tab(o) == (Tab { columns: #1, para: *para })
@chain 0 vec Table<'a>
    invariant
        vx_it.seq().unref() == $1.blocks@,
        tab_views(vx_acc@) == tabs($1.blocks@, vx_it.index() as int),
        forall|i: int| 0 <= i < vx_acc@.len() ==> sound(tab(#[trigger] vx_acc@[i])),
---
    let ghost bi = vx_it.index() as int; let ghost acc0 = vx_acc@; let ghost bs = $1.blocks@;
    proof { assert(vx_it.seq().unref()[bi] == *vx_it.seq()[bi]); assert(*vx_x == bs[bi]); }
---
    proof { assert(tabs_in(bs[bi].paragraphs@, 0) =~= Seq::<Tab>::empty()); }
+++
    invariant
        vx_jt.seq().unref() == bs[bi].paragraphs@, 0 <= bi < bs.len(),
        tab_views(acc0) == tabs(bs, bi),
        tab_views(vx_acc@) == tab_views(acc0) + tabs_in(bs[bi].paragraphs@, vx_jt.index() as int),
        forall|i: int| 0 <= i < vx_acc@.len() ==> sound(tab(#[trigger] vx_acc@[i])),
---
    let ghost pi = vx_jt.index() as int; let ghost acc1 = vx_acc@;
    proof { assert(vx_jt.seq().unref()[pi] == *vx_jt.seq()[pi]); }
---
    proof {
        if vx_acc@.len() > acc1.len() { assert(tab_views(vx_acc@) =~= tab_views(acc1).push(tab(vx_acc@.last()))); }
        assert(tab_views(vx_acc@) =~= tab_views(acc0) + tabs_in(bs[bi].paragraphs@, pi + 1));
    }
@props C14
