@file filespec.rs
@pubfields FileSpec
@add
#[verifier::external_type_specification]
pub struct ExFileSpec(FileSpec);
pub assume_specification [<FileSpec as Clone>::clone] (f: &FileSpec) -> (r: FileSpec) ensures r == *f;
use crate::vx::{data_in, target};
/// The data a file held when it was read, and what was written to it. The standard streams are files too.
pub uninterp spec fn held(fs: FileSpec, d: Seq<u8>) -> bool;
pub uninterp spec fn put(fs: FileSpec, d: Seq<u8>) -> bool;
/// Opening, reading or writing a file fails.
pub uninterp spec fn no_access(fs: FileSpec) -> bool;
/// A command may write this data to this file, and so open it (which empties it): each command says when (and nothing else does).
pub uninterp spec fn may_put(fs: FileSpec, d: Seq<u8>) -> bool;
pub open spec fn may_open(fs: FileSpec) -> bool { exists|d: Seq<u8>| #[trigger] may_put(fs, d) }
pub open spec fn text_data(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
/// The text of a file, and the journal that a text spells.
pub open spec fn held_text(fs: FileSpec, s: Seq<char>) -> bool { held(fs, text_data(s)) }
pub open spec fn not_text(fs: FileSpec) -> bool { exists|d: Seq<u8>| #[trigger] held(fs, d) && forall|s: Seq<char>| #[trigger] text_data(s) != d }
pub open spec fn unreadable(fs: FileSpec) -> bool { no_access(fs) || not_text(fs) || exists|s: Seq<char>| #[trigger] held_text(fs, s) && crate::vx::journal(s) is None }
pub open spec fn unwritable(fs: FileSpec) -> bool { no_access(fs) }
/// What reading a journal gave, and which journals were written.
pub open spec fn was_read(fs: FileSpec, l: Ledger) -> bool { exists|s: Seq<char>| #[trigger] held_text(fs, s) && crate::vx::journal(s) == Some(l) }
pub open spec fn ledger_data(l: Ledger) -> Seq<u8> { text_data(disp(&l)) }
pub open spec fn wrote(fs: FileSpec, l: Ledger) -> bool { put(fs, ledger_data(l)) }
pub open spec fn may_write(fs: FileSpec, l: Ledger) -> bool { may_put(fs, ledger_data(l)) }
@fn FileSpec::reader
@ret r
@replace `Box::new(stdin())`
crate::vx::std_reader()
@replace `Box::new( File::open(path)?, )`
crate::vx::file_reader(path)?
@spec
    ensures r matches Ok(x) ==> held(*self, data_in(x)), r is Err ==> no_access(*self),
@props C18
@fn FileSpec::writer
@ret r
@replace `Box::new(stdout())`
crate::vx::std_writer()
@replace `Box::new( File::create(path)?, )`
crate::vx::file_writer(path)?
@spec
    requires may_open(*self),
    ensures r matches Ok(x) ==> target(x) == *self, r is Err ==> no_access(*self),
@props C18 C02
@add in FromStr for FileSpec
@fn FromStr for FileSpec::from_str
@ret r
@replace `Path(s.into())`
Path(crate::vx::str_path(s))
@spec
    ensures r is Ok, r->Ok_0 == (if $1@ == "-"@ { FileSpec::Stdio } else { FileSpec::Path(crate::vx::text_path($1@)) }),
@props C18
@fn read_file
@ret r
@replace `f.read_to_string(&mut content)?`
crate::vx::read_all(&mut f, &mut content)?
@spec
    ensures r matches Ok(s) ==> held_text(*$1, s@), r is Err ==> no_access(*$1) || not_text(*$1),
@props C02 C18
@fn read_ledger_file
@ret r
@replace `ledger_parser::parse(&content).map_err(Into::into)`
crate::vx::parse_journal(&content)
@spec
    ensures r is Ok ==> was_read(*$1, r->Ok_0), r is Err ==> unreadable(*$1),
@props C01 C02 C18
@fn write_file
@ret r
@replace `f.write_all(content.as_bytes())?`
crate::vx::write_text(&mut f, content)?
@spec
    requires may_put(*$1, text_data($2@)),
    ensures r is Ok ==> put(*$1, text_data($2@)), r is Err ==> no_access(*$1),
@props C02 C15 C17 C18
@fn write_ledger_file
@ret r
@spec
    requires may_write(*$1, *$2),
    ensures r is Ok ==> wrote(*$1, *$2), r is Err ==> unwritable(*$1),
@begin
    proof { assert(Seq::<char>::empty() + disp(&*$2) =~= disp(&*$2)); }
@props C02 C15 C17 C18

@file merge/sources.rs
@add
use crate::internal::{trns_in, trns_of, only_trns};
use ledger_parser::Ledger;
pub open spec fn key() -> String { mk("source-file"@) }
/// `r` is `t`, with the tag that says where it is from, which it has already or gets now.
pub open spec fn annotated(t: TransactionPostings, r: TransactionPostings, dflt: Seq<char>) -> bool {
    &&& r.posts == t.posts && r.trn.raw == t.trn.raw && r.trn.comment.lines == t.trn.comment.lines && r.trn.comment.tags == t.trn.comment.tags
    &&& r.trn.comment.value_tags@ == (if t.trn.comment.value_tags@.contains_key(key()) { t.trn.comment.value_tags@ } else { t.trn.comment.value_tags@.insert(key(), mk(dflt)) })
}
pub open spec fn all_annotated(t: Seq<TransactionPostings>, r: Seq<TransactionPostings>, dflt: Seq<char>) -> bool {
    r.len() == t.len() && forall|i: int| 0 <= i < t.len() ==> annotated(t[i], #[trigger] r[i], dflt)
}
pub open spec fn source(t: TransactionPostings) -> String { t.trn.comment.value_tags@[key()] }
pub open spec fn is_from(k: String) -> spec_fn(TransactionPostings) -> bool { |t: TransactionPostings| source(t) == k }
pub open spec fn any_from(a: Seq<TransactionPostings>, k: String) -> bool { exists|i: int| 0 <= i < a.len() && source(#[trigger] a[i]) == k }
/// The transactions by source, in ascending order of its name; each group keeps their order.
pub open spec fn groups(a: Seq<TransactionPostings>, names: Seq<String>, g: Seq<Vec<TransactionPostings>>) -> bool {
    &&& lex_sorted(names) && names.no_duplicates()
    &&& forall|k: String| #[trigger] names.contains(k) <==> any_from(a, k)
    &&& g.len() == names.len() && forall|n: int| 0 <= n < g.len() ==> (#[trigger] g[n])@ == a.filter(is_from(names[n]))
}
pub open spec fn file_groups(fs: FileSpec, l: Ledger, t: Seq<TransactionPostings>, a: Seq<TransactionPostings>, names: Seq<String>, g: Seq<Vec<TransactionPostings>>) -> bool {
    &&& filespec::was_read(fs, l) && only_trns(l.items@)
    &&& trns_in(trns_of(l.items@), t)
    &&& all_annotated(t, a, disp(&fs))
    &&& groups(a, names, g)
}
pub open spec fn bad_file(fs: FileSpec) -> bool {
    filespec::unreadable(fs) || exists|l: Ledger| #[trigger] filespec::was_read(fs, l) && !only_trns(l.items@)
}
pub open spec fn by_source(a: Seq<TransactionPostings>, m: Map<String, Vec<TransactionPostings>>) -> bool {
    &&& forall|k: String| #[trigger] m.contains_key(k) <==> any_from(a, k)
    &&& forall|k: String| #[trigger] m.contains_key(k) ==> m[k]@ == a.filter(is_from(k))
}
pub proof fn lemma_none_from(a: Seq<TransactionPostings>, k: String)
    requires !any_from(a, k),
    ensures a.filter(is_from(k)) == Seq::<TransactionPostings>::empty(),
{ assert forall|i: int| 0 <= i < a.len() implies !is_from(k)(#[trigger] a[i]) by { } lemma_filter_none(a, is_from(k)); }
pub proof fn lemma_grouped(a: Seq<TransactionPostings>, m0: Map<String, Vec<TransactionPostings>>, x: TransactionPostings, m1: Map<String, Vec<TransactionPostings>>)
    requires
        by_source(a, m0), 
        m1.contains_key(source(x)), m1[source(x)]@ == (if m0.contains_key(source(x)) { m0[source(x)]@ } else { Seq::empty() }).push(x),
        forall|k: String| k != source(x) ==> (#[trigger] m1.contains_key(k) <==> m0.contains_key(k)),
        forall|k: String| k != source(x) && #[trigger] m0.contains_key(k) ==> m1[k] == m0[k],
    ensures by_source(a.push(x), m1),
{
    let b = a.push(x);
    assert forall|k: String| #[trigger] m1.contains_key(k) <==> any_from(b, k) by {
        if any_from(a, k) { let i = choose|i: int| 0 <= i < a.len() && source(#[trigger] a[i]) == k; assert(source(b[i]) == k); }
        assert(source(b[a.len() as int]) == source(x));
        if any_from(b, k) && k != source(x) { let i = choose|i: int| 0 <= i < b.len() && source(#[trigger] b[i]) == k; assert(source(a[i]) == k); }
    }
    assert forall|k: String| #[trigger] m1.contains_key(k) implies m1[k]@ == b.filter(is_from(k)) by {
        lemma_filter_push(a, x, is_from(k));
        if k == source(x) && !m0.contains_key(k) { lemma_none_from(a, k); }
    }
}
pub open spec fn name_of(v: Seq<(String, Vec<TransactionPostings>)>) -> Seq<String> { v.map_values(|e: (String, Vec<TransactionPostings>)| e.0) }
pub open spec fn group_of(v: Seq<(String, Vec<TransactionPostings>)>) -> Seq<Vec<TransactionPostings>> { v.map_values(|e: (String, Vec<TransactionPostings>)| e.1) }
pub proof fn lemma_groups(a: Seq<TransactionPostings>, m: Map<String, Vec<TransactionPostings>>, u: Seq<(String, Vec<TransactionPostings>)>, v: Seq<(String, Vec<TransactionPostings>)>)
    requires
        by_source(a, m),
        forall|i: int| 0 <= i < u.len() ==> m.contains_key((#[trigger] u[i]).0) && m[u[i].0] == u[i].1,
        forall|k: String| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < u.len() && (#[trigger] u[i]).0 == k,
        forall|i: int, j: int| 0 <= i < j < u.len() ==> (#[trigger] u[i]).0 != (#[trigger] u[j]).0,
        exists|p: Seq<int>| #[trigger] permuted(u, p, v),
        forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> lex_le(v[i].0@, v[j].0@) || v[i].0@ == v[j].0@,
    ensures groups(a, name_of(v), group_of(v)),
{
    let p = choose|p: Seq<int>| #[trigger] permuted(u, p, v);
    let names = name_of(v);
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies names[i] != names[j] && lex_le((#[trigger] names[i])@, (#[trigger] names[j])@) by {
        assert(v[i] == u[p[i]]); assert(v[j] == u[p[j]]); assert(p[i] != p[j]);
        if p[i] < p[j] { assert(u[p[i]].0 != u[p[j]].0); } else { assert(u[p[j]].0 != u[p[i]].0); }
        assert(mk(v[i].0@) == v[i].0 && mk(v[j].0@) == v[j].0);
        assert(lex_le(v[i].0@, v[j].0@));
    }
    assert forall|k: String| #[trigger] names.contains(k) <==> any_from(a, k) by {
        if names.contains(k) { let i = choose|i: int| 0 <= i < names.len() && names[i] == k; assert(v[i] == u[p[i]]); assert(m.contains_key(u[p[i]].0)); }
        if any_from(a, k) {
            assert(m.contains_key(k));
            let i = choose|i: int| 0 <= i < u.len() && (#[trigger] u[i]).0 == k;
            lemma_perm_onto(p, u.len() as int, i);
            let j = choose|j: int| 0 <= j < u.len() && p[j] == i;
            assert(v[j] == u[i]); assert(names[j] == k);
        }
    }
    let g = group_of(v);
    assert forall|n: int| 0 <= n < g.len() implies (#[trigger] g[n])@ == a.filter(is_from(names[n])) by {
        assert(v[n] == u[p[n]]); assert(m.contains_key(u[p[n]].0));
    }
}
/// The tag is gone, all else is as it was.
pub open spec fn stripped(t: TransactionPostings, r: TransactionPostings) -> bool {
    &&& r.posts == t.posts && r.trn.raw == t.trn.raw && r.trn.comment.lines == t.trn.comment.lines && r.trn.comment.tags == t.trn.comment.tags
    &&& r.trn.comment.value_tags@ == t.trn.comment.value_tags@.remove(key())
}
pub open spec fn all_stripped(t: Seq<TransactionPostings>, r: Seq<TransactionPostings>) -> bool {
    r.len() == t.len() && forall|i: int| 0 <= i < t.len() ==> stripped(t[i], #[trigger] r[i])
}

@fn read_ledger_file
@ret r
@eager Vec<TransactionPostings>
@fattr #[verifier::loop_isolation(false)]
@replace `trns_by_source.into_iter()`
crate::vx::hm_into_vec(trns_by_source).into_iter()
@replace `source_trn_posts.sort_by(`
crate::vx::vec_sort_by(&mut source_trn_posts, 
@spec
    ensures
        r is Ok ==> exists|l: Ledger, t: Seq<TransactionPostings>, a: Seq<TransactionPostings>, names: Seq<String>| #[trigger] file_groups(*$1, l, t, a, names, r->Ok_0@),
        r is Err ==> bad_file(*$1),
@safter `filespec::read_ledger_file($1)`
    let ghost l0 = ledger;
@tail
    proof {
        assert(vx_t->Ok_0@ =~= group_of(sorted));
        assert(all_annotated(t0, ann, disp($1)));
        assert(file_groups(*$1, l0, t0, ann, name_of(sorted), vx_t->Ok_0@));
    }
@closure sort_by
&(String, Vec<TransactionPostings>) ; &(String, Vec<TransactionPostings>)
-> (o: std::cmp::Ordering) ensures o != std::cmp::Ordering::Greater ==> lex_le(#1.0@, #2.0@) || #1.0@ == #2.0@
@before `for mut trn_posts in`
    let ghost t0 = trns@;
    let ghost mut ann = Seq::<TransactionPostings>::empty();
@loop 0
    invariant
        it.seq() == t0,
        ann.len() == it.index(),
        forall|i: int| 0 <= i < ann.len() ==> annotated(t0[i], #[trigger] ann[i], disp($1)),
        by_source(ann, trns_by_source@),
@loopbegin 0
    let ghost y0 = trn_posts;
@loopend 0
    proof {
        assert(y0 == t0[it.index() as int]);
        assert(x.posts == y0.posts && x.trn.raw == y0.trn.raw);
        assert(y0.trn.comment.value_tags@.contains_key(key()) ==> x.trn.comment.value_tags@ =~= y0.trn.comment.value_tags@);
        assert(!y0.trn.comment.value_tags@.contains_key(key()) ==> x.trn.comment.value_tags@ =~= y0.trn.comment.value_tags@.insert(key(), mk(disp($1))));
        assert(annotated(t0[it.index() as int], x, disp($1)));
        lemma_grouped(ann, m0, x, trns_by_source@);
        ann = ann.push(x);
    }
@before `trns_by_source.entry(source)`
    let ghost x = trn_posts;
    let ghost m0 = trns_by_source@;
    assert(mk(source@) == source && mk(self::source(x)@) == self::source(x));
    assert(source == self::source(x));
@chain 0 vec (String, Vec<TransactionPostings>)
    invariant
        vx_acc@ == vx_it.seq().take(vx_it.index() as int),
        vx_it.index() == vx_it.seq().len() ==> vx_acc@ == vx_it.seq(),
@chain 1 vec Vec<TransactionPostings>
    invariant
        vx_it.seq() == sorted,
        vx_acc@ =~= group_of(sorted.take(vx_it.index() as int)),
        vx_it.index() == vx_it.seq().len() ==> vx_acc@ =~= group_of(sorted),
@before `crate::vx::vec_sort_by(`
    let ghost unsorted = source_trn_posts@;
    assert(by_source(ann, trns_by_source@));
@after `lhs.0.cmp(&rhs.0) });`
    let ghost sorted = source_trn_posts@;
    proof { lemma_groups(ann, trns_by_source@, unsorted, sorted); }
@props C01 C06 C07
@fn strip_sources
@vecparam 1
@spec
    ensures all_stripped(old($1)@, final($1)@),
@begin
    let ghost v0 = $1@;
    let ghost v1 = final($1)@;
@loop 0
    invariant
        it.seq().len() == v0.len(), v1.len() == v0.len(),
        forall|j: int| 0 <= j < it.seq().len() ==> *(#[trigger] it.seq()[j]) == v0[j] && *final(it.seq()[j]) == v1[j],
        forall|j: int| 0 <= j < it.index() ==> stripped(v0[j], #[trigger] v1[j]),
@loopbegin 0
    let ghost k = it.index() as int;
    proof { assert(*it.seq()[k] == *trn_posts); assert(*final(it.seq()[k]) == v1[k]); }
    let ghost x0 = *trn_posts;
@loopend 0
    proof { assert(stripped(x0, *trn_posts)); }
@props C07 C08
