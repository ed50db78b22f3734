//! Ghost prelude of the contracts: views and assumed contracts of foreign types.
//! Copied into the woven source as module `vx`; nothing here is part of the program.
#![allow(unused_imports, dead_code, unused_variables)]
#[allow(unused_macros)]
macro_rules! lazy_static {
    ($(static ref $n:ident : $t:ty = $e:expr;)*) => { $(
        #[allow(non_camel_case_types)] struct $n;
        impl std::ops::Deref for $n { type Target = $t; fn deref(&self) -> &$t { Box::leak(Box::new($e)) } }
    )* };
}

use std::collections::{HashMap, HashSet};
use std::path::{Path, PathBuf};
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpec;
use vstd::std_specs::iter::IteratorSpec;
use typed_generational_arena::{Arena, ArenaIndex, FixedGenerationalIndex, GenerationalIndex, Index as AIndex, StandardIndex};

verus! {

// ------------------------------------------------------------------ strings
/// The string with the given characters: strings are determined by their view.
pub uninterp spec fn mk(s: Seq<char>) -> String;
pub broadcast axiom fn ax_mk(s: Seq<char>) ensures #[trigger] mk(s)@ == s;
pub broadcast axiom fn ax_string_ext(s: String) ensures mk(#[trigger] s@) == s;
pub broadcast axiom fn ax_key_model() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<String>();
pub broadcast axiom fn ax_set_contains(m: Set<String>, k: &str)
    ensures #[trigger] vstd::std_specs::hash::set_contains_borrowed_key::<String, str>(m, k) == m.contains(mk(k@));
pub broadcast axiom fn ax_set_differ(m: Set<String>, n: Set<String>, k: &str)
    ensures #[trigger] vstd::std_specs::hash::sets_differ_by_borrowed_key::<String, str>(m, n, k) == (n == m.remove(mk(k@)));
pub broadcast axiom fn ax_map_contains<V>(m: Map<String, V>, k: &str)
    ensures #[trigger] vstd::std_specs::hash::contains_borrowed_key::<String, V, str>(m, k) == m.contains_key(mk(k@));
pub broadcast axiom fn ax_map_maps<V>(m: Map<String, V>, k: &str, v: V)
    ensures #[trigger] vstd::std_specs::hash::maps_borrowed_key_to_value::<String, V, str>(m, k, v) == (m.contains_key(mk(k@)) && m[mk(k@)] == v);
pub broadcast axiom fn ax_map_removed<V>(m: Map<String, V>, n: Map<String, V>, k: &str)
    ensures #[trigger] vstd::std_specs::hash::borrowed_key_removed::<String, V, str>(m, n, k) == (n == m.remove(mk(k@)));

pub broadcast axiom fn ax_into<K: Into<String>>() ensures #[trigger] <K as vstd::std_specs::convert::IntoSpec<String>>::obeys_into_spec();
pub broadcast axiom fn ax_into_str(s: &str) ensures #[trigger] <&str as vstd::std_specs::convert::IntoSpec<String>>::into_spec(s) == mk(s@);
pub broadcast axiom fn ax_into_string(s: String) ensures #[trigger] <String as vstd::std_specs::convert::IntoSpec<String>>::into_spec(s) == s;
/// `String::to_string` gives the same text.
pub broadcast axiom fn ax_to_string(s: &String, r: String) ensures #[trigger] vstd::string::to_string_from_display_ensures::<String>(s, r) <==> r@ == s@;
pub broadcast axiom fn ax_string_obeys() ensures #[trigger] <String as PartialEqSpec>::obeys_eq_spec();
pub broadcast axiom fn ax_string_eq(a: String, b: String) ensures #[trigger] a.eq_spec(&b) == (a == b);
pub broadcast axiom fn ax_str_obeys() ensures #[trigger] <str as PartialEqSpec>::obeys_eq_spec();
pub broadcast axiom fn ax_str_eq(a: &str, b: &str) ensures #[trigger] a.eq_spec(b) == (a@ == b@);

/// A text is its characters.
pub axiom fn ax_str_ext(a: &str, b: &str) requires a@ == b@ ensures a == b;
#[verifier::external_trait_specification]
pub trait ExPattern: Sized { type ExternalTraitSpecificationFor: core::str::pattern::Pattern; }
pub uninterp spec fn pat_seq<P>(p: P) -> Seq<char>;
pub broadcast axiom fn ax_pat_str(p: &str) ensures #[trigger] pat_seq::<&str>(p) == p@;
pub assume_specification<P: core::str::pattern::Pattern> [str::starts_with::<P>] (s: &str, p: P) -> (r: bool)
    ensures r == pat_seq(p).is_prefix_of(s@);

/// The strings of a sequence of string slices.
pub open spec fn strs(s: Seq<&str>) -> Seq<String> { s.map_values(|t: &str| mk(t@)) }

/// Stands for the body in the canary run, where only a function's entry is looked at.
#[verifier::external_body]
pub fn never<T>() -> T ensures false { loop {} }
pub proof fn lemma_strs_push(s: Seq<&str>, x: &str)
    ensures strs(s.push(x)) == strs(s).push(mk(x@)),
{ assert(strs(s.push(x)) =~= strs(s).push(mk(x@))); }

pub proof fn lemma_push_contains<T>(s: Seq<T>, x: T, y: T)
    ensures s.push(x).contains(y) <==> s.contains(y) || y == x,
{
    if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(s.push(x)[i] == y); }
    assert(s.push(x)[s.len() as int] == x);
    if s.push(x).contains(y) && y != x { let i = choose|i: int| 0 <= i < s.push(x).len() && s.push(x)[i] == y; assert(s[i] == y); }
}
pub proof fn lemma_filter_push<T>(s: Seq<T>, x: T, p: spec_fn(T) -> bool)
    ensures s.push(x).filter(p) == (if p(x) { s.filter(p).push(x) } else { s.filter(p) }),
{ reveal(Seq::filter); assert(s.push(x).drop_last() =~= s); }
pub proof fn lemma_take_filter<T>(s: Seq<T>, k: int, p: spec_fn(T) -> bool)
    requires 0 <= k < s.len(),
    ensures s.take(k + 1).filter(p) == (if p(s[k]) { s.take(k).filter(p).push(s[k]) } else { s.take(k).filter(p) }),
{ assert(s.take(k + 1) =~= s.take(k).push(s[k])); lemma_filter_push(s.take(k), s[k], p); }
/// Filtering keeps a sequence free of repetitions, and yields exactly the elements that satisfy the predicate.
pub proof fn lemma_filter<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    ensures
        s.no_duplicates() ==> s.filter(p).no_duplicates(),
        forall|x: T| #[trigger] s.filter(p).contains(x) <==> s.contains(x) && p(x),
        s.filter(p).to_set() =~= s.to_set().filter(p),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_filter(d, p);
        assert(d.push(s.last()) =~= s);
        lemma_filter_push(d, s.last(), p);
        assert forall|x: T| #[trigger] s.filter(p).contains(x) <==> s.contains(x) && p(x) by {
            if s.contains(x) && p(x) {
                let i = choose|i: int| 0 <= i < s.len() && s[i] == x;
                if i < d.len() { assert(d[i] == x); assert(d.contains(x)); assert(d.filter(p).contains(x)); let k = choose|k: int| 0 <= k < d.filter(p).len() && d.filter(p)[k] == x; assert(s.filter(p)[k] == x); }
                else { assert(s.filter(p).last() == x); }
            }
            if s.filter(p).contains(x) {
                let k = choose|k: int| 0 <= k < s.filter(p).len() && s.filter(p)[k] == x;
                if k < d.filter(p).len() { assert(d.filter(p)[k] == x); assert(d.filter(p).contains(x)); let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(s[i] == x); }
                else { assert(s[s.len() - 1] == x); }
            }
        }
        if s.no_duplicates() {
            assert(d.no_duplicates());
            assert(!d.contains(s.last())) by { if d.contains(s.last()) { let i = choose|i: int| 0 <= i < d.len() && d[i] == s.last(); assert(s[i] == s[s.len() - 1]); } }
            assert(!d.filter(p).contains(s.last()));
        }
        assert(s.filter(p).to_set() =~= s.to_set().filter(p));
    } else {
        reveal(Seq::filter);
        assert(s.filter(p).len() == 0);
        assert(s.filter(p).to_set() =~= s.to_set().filter(p));
    }
}

pub proof fn lemma_filter_all<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]),
    ensures s.filter(p) == s,
    decreases s.len(),
{
    if s.len() == 0 { reveal(Seq::filter); assert(s.filter(p) =~= s); }
    else { let d = s.drop_last(); assert forall|i: int| 0 <= i < d.len() implies p(#[trigger] d[i]) by { assert(s[i] == d[i]); } lemma_filter_all(d, p); assert(d.push(s.last()) =~= s); lemma_filter_push(d, s.last(), p); }
}
pub proof fn lemma_filter_none<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> !p(#[trigger] s[i]),
    ensures s.filter(p) == Seq::<T>::empty(),
    decreases s.len(),
{
    if s.len() == 0 { reveal(Seq::filter); assert(s.filter(p) =~= s); }
    else { let d = s.drop_last(); assert forall|i: int| 0 <= i < d.len() implies !p(#[trigger] d[i]) by { assert(s[i] == d[i]); } lemma_filter_none(d, p); assert(d.push(s.last()) =~= s); lemma_filter_push(d, s.last(), p); }
}
/// A permutation reaches every position.
pub proof fn lemma_perm_onto(p: Seq<int>, n: int, i: int)
    requires perm(p, n), 0 <= i < n,
    ensures exists|j: int| 0 <= j < n && p[j] == i,
{
    let r = vstd::set_lib::set_int_range(0, n);
    vstd::set_lib::lemma_int_range(0, n);
    p.unique_seq_to_set();
    assert(p.to_set().subset_of(r)) by { assert forall|x: int| p.to_set().contains(x) implies r.contains(x) by { let k = choose|k: int| 0 <= k < p.len() && p[k] == x; assert(0 <= p[k] < n); } }
    vstd::set_lib::lemma_subset_equality(p.to_set(), r);
    assert(p.to_set().contains(i));
    let j = choose|j: int| 0 <= j < p.len() && p[j] == i;
}

/// A fingerprint tag, a candidate tag (from the property statements, not from the constants).
pub open spec fn is_fp(s: Seq<char>) -> bool { "fp-"@.is_prefix_of(s) }
pub open spec fn is_cand(s: Seq<char>) -> bool { "candidate-"@.is_prefix_of(s) }
pub open spec fn unk() -> String { mk("unknown-account"@) }

// ------------------------------------------------------------------ ledger-parser, chrono, rust_decimal
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExDecimal(rust_decimal::Decimal);
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExNaiveDate(chrono::NaiveDate);
#[verifier::external_type_specification]
pub struct ExPosting(ledger_parser::Posting);
#[verifier::external_type_specification]
pub struct ExTransaction(ledger_parser::Transaction);
#[verifier::external_type_specification]
pub struct ExReality(ledger_parser::Reality);
#[verifier::external_type_specification]
pub struct ExTransactionStatus(ledger_parser::TransactionStatus);
#[verifier::external_type_specification]
pub struct ExPostingAmount(ledger_parser::PostingAmount);
#[verifier::external_type_specification]
pub struct ExBalance(ledger_parser::Balance);
#[verifier::external_type_specification]
pub struct ExAmount(ledger_parser::Amount);
#[verifier::external_type_specification]
pub struct ExCommodity(ledger_parser::Commodity);
#[verifier::external_type_specification]
pub struct ExCommodityPosition(ledger_parser::CommodityPosition);
#[verifier::external_type_specification]
pub struct ExPrice(ledger_parser::Price);
#[verifier::external_type_specification]
pub struct ExLedgerItem(ledger_parser::LedgerItem);
#[verifier::external_type_specification]
pub struct ExLedger(ledger_parser::Ledger);
#[verifier::external_type_specification]
pub struct ExCommodityPrice(ledger_parser::CommodityPrice);
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExNaiveDateTime(chrono::NaiveDateTime);
pub assume_specification<T: Default> [std::mem::take] (v: &mut T) -> (r: T) ensures r == *old(v), call_ensures(T::default, (), *final(v));

/// Amounts and balances are compared with the library's `==` (numeric equality of decimals).
pub broadcast axiom fn ax_pa_eq() ensures #[trigger] <ledger_parser::PostingAmount as PartialEqSpec>::obeys_eq_spec();
pub broadcast axiom fn ax_ba_eq() ensures #[trigger] <ledger_parser::Balance as PartialEqSpec>::obeys_eq_spec();

pub assume_specification [<ledger_parser::Amount as Clone>::clone] (d: &ledger_parser::Amount) -> (r: ledger_parser::Amount) ensures r == *d;
pub assume_specification [<ledger_parser::Commodity as Clone>::clone] (d: &ledger_parser::Commodity) -> (r: ledger_parser::Commodity) ensures r == *d;
pub assume_specification [<ledger_parser::Balance as Clone>::clone] (d: &ledger_parser::Balance) -> (r: ledger_parser::Balance) ensures r == *d;

pub broadcast axiom fn ax_date_eq_obeys() ensures #[trigger] <chrono::NaiveDate as PartialEqSpec>::obeys_eq_spec();
pub broadcast axiom fn ax_date_eq(a: chrono::NaiveDate, b: chrono::NaiveDate) ensures #[trigger] a.eq_spec(&b) == (a == b);
pub broadcast axiom fn ax_date_key() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<chrono::NaiveDate>();
pub assume_specification [<chrono::NaiveDate as Clone>::clone] (d: &chrono::NaiveDate) -> (r: chrono::NaiveDate) ensures r == *d;

// ------------------------------------------------------------------ typed-generational-arena
#[verifier::external_trait_specification]
pub trait ExArenaIndex: Copy { type ExternalTraitSpecificationFor: typed_generational_arena::ArenaIndex; }
#[verifier::external_trait_specification]
pub trait ExFGI: Copy + Eq { type ExternalTraitSpecificationFor: typed_generational_arena::FixedGenerationalIndex; }
#[verifier::external_trait_specification]
pub trait ExGI: typed_generational_arena::FixedGenerationalIndex { type ExternalTraitSpecificationFor: typed_generational_arena::GenerationalIndex; }
#[verifier::external_type_specification] #[verifier::external_body]
#[verifier::accept_recursive_types(T)] #[verifier::accept_recursive_types(I)] #[verifier::accept_recursive_types(G)]
pub struct ExIndex<T, I, G>(typed_generational_arena::Index<T, I, G>);
#[verifier::external_type_specification] #[verifier::external_body]
#[verifier::reject_recursive_types(T)] #[verifier::accept_recursive_types(I)] #[verifier::accept_recursive_types(G)]
pub struct ExArena<T, I, G>(typed_generational_arena::Arena<T, I, G>);
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct ExNG<T: nonzero_ext::NonZeroAble>(typed_generational_arena::NonzeroGeneration<T>);
#[verifier::external_trait_specification]
pub trait ExNZ { type ExternalTraitSpecificationFor: nonzero_ext::NonZeroAble; type NonZero: nonzero_ext::NonZero; }
#[verifier::external_trait_specification]
pub trait ExNZ2 { type ExternalTraitSpecificationFor: nonzero_ext::NonZero; type Primitive; }

/// The contents of an arena: a map from index to value; an index handed out is never handed out again.
pub uninterp spec fn am<T, I, G>(a: Arena<T, I, G>) -> Map<AIndex<T, I, G>, T>;
pub assume_specification<T, I: ArenaIndex, G: FixedGenerationalIndex> [Arena::<T, I, G>::insert] (a: &mut Arena<T, I, G>, v: T) -> (i: AIndex<T, I, G>)
    ensures !am(*old(a)).contains_key(i), am(*final(a)) == am(*old(a)).insert(i, v);
pub assume_specification<T, I: ArenaIndex, G: FixedGenerationalIndex> [Arena::<T, I, G>::new] () -> (a: Arena<T, I, G>)
    ensures am(a) == Map::<AIndex<T, I, G>, T>::empty();
pub assume_specification<T, I: ArenaIndex, G: FixedGenerationalIndex> [Arena::<T, I, G>::get] (a: &Arena<T, I, G>, i: AIndex<T, I, G>) -> (r: Option<&T>)
    ensures r is Some == am(*a).contains_key(i), r is Some ==> *r->0 == am(*a)[i];
pub assume_specification<T, I: ArenaIndex, G: FixedGenerationalIndex> [Arena::<T, I, G>::get_mut] (a: &mut Arena<T, I, G>, i: AIndex<T, I, G>) -> (r: Option<&mut T>)
    ensures
        r is Some == am(*old(a)).contains_key(i),
        r is Some ==> *r->0 == am(*old(a))[i] && am(*final(a)) == am(*old(a)).insert(i, *final(r->0)),
        r is None ==> *final(a) == *old(a);
pub assume_specification<T, I: ArenaIndex, G: GenerationalIndex> [Arena::<T, I, G>::remove] (a: &mut Arena<T, I, G>, i: AIndex<T, I, G>) -> (r: Option<T>)
    ensures
        r is Some == am(*old(a)).contains_key(i),
        r is Some ==> r->0 == am(*old(a))[i] && am(*final(a)) == am(*old(a)).remove(i),
        r is None ==> *final(a) == *old(a);
/// Position and generation of an index; the two together are the index.
pub uninterp spec fn arr<T, I, G>(i: AIndex<T, I, G>) -> I;
pub uninterp spec fn gen<T, I, G>(i: AIndex<T, I, G>) -> G;
pub axiom fn ax_idx_parts<T, I, G>(a: AIndex<T, I, G>, b: AIndex<T, I, G>) ensures arr(a) == arr(b) && gen(a) == gen(b) ==> a == b;
pub assume_specification<T, I: ArenaIndex + Copy, G: FixedGenerationalIndex + Copy> [AIndex::<T, I, G>::arr_idx] (i: &AIndex<T, I, G>) -> (r: I) ensures r == arr(*i);
pub assume_specification<T, I: ArenaIndex + Copy, G: FixedGenerationalIndex + Copy> [AIndex::<T, I, G>::gen] (i: &AIndex<T, I, G>) -> (r: G) ensures r == gen(*i);
pub axiom fn ax_gen_obeys() ensures <typed_generational_arena::NonzeroGeneration<usize> as PartialEqSpec>::obeys_eq_spec();
pub axiom fn ax_gen_eq(a: typed_generational_arena::NonzeroGeneration<usize>, b: typed_generational_arena::NonzeroGeneration<usize>)
    ensures #[trigger] a.eq_spec(&b) == (a == b);
/// `==` on indices is identity of the index.
pub broadcast axiom fn ax_idx_obeys<T>() ensures #[trigger] <StandardIndex<T> as PartialEqSpec>::obeys_eq_spec();
pub broadcast axiom fn ax_idx_eq<T>(a: StandardIndex<T>, b: StandardIndex<T>)
    ensures #[trigger] a.eq_spec(&b) == (a == b);

// ------------------------------------------------------------------ std collections
/// The elements an `IntoIterator` argument of `extend` yields, as a set / as a map.
pub uninterp spec fn elems<I, K>(i: I) -> Set<K>;
pub uninterp spec fn pairs<I, K, V>(i: I) -> Map<K, V>;
pub broadcast axiom fn ax_elems_set<K, S>(s: HashSet<K, S>) ensures #[trigger] elems::<HashSet<K, S>, K>(s) == s@;
pub broadcast axiom fn ax_pairs_map<K, V, S>(s: HashMap<K, V, S>) ensures #[trigger] pairs::<HashMap<K, V, S>, K, V>(s) == s@;
pub assume_specification<K: Eq + std::hash::Hash, S: std::hash::BuildHasher, A: std::alloc::Allocator, I: IntoIterator<Item = K>>
    [<HashSet<K, S, A> as Extend<K>>::extend::<I>] (s: &mut HashSet<K, S, A>, i: I)
    ensures final(s)@ == old(s)@.union(elems::<I, K>(i));
pub assume_specification<K: Eq + std::hash::Hash, V, S: std::hash::BuildHasher, A: std::alloc::Allocator, I: IntoIterator<Item = (K, V)>>
    [<HashMap<K, V, S, A> as Extend<(K, V)>>::extend::<I>] (s: &mut HashMap<K, V, S, A>, i: I)
    ensures final(s)@ == old(s)@.union_prefer_right(pairs::<I, K, V>(i));

pub assume_specification<T: PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool)
    ensures <T as PartialEqSpec>::obeys_eq_spec() ==> r == (exists|i: int| 0 <= i < s@.len() && (#[trigger] s@[i]).eq_spec(x));

pub assume_specification<'a, T: Copy> [Option::<&T>::copied] (o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(t) => Some(*t), None => None });
pub fn same<T>(v: Vec<T>) -> (r: Vec<T>) ensures r == v { v }
pub assume_specification<T> [std::mem::replace::<T>] (d: &mut T, s: T) -> (r: T)
    ensures r == *old(d), *final(d) == s;
/// The next iteration number (L12).
#[verifier::external_body]
pub fn succ(n: usize) -> (r: usize) ensures r == n + 1 { n + 1 }
/// The order of `Ord` on sortable values.
pub uninterp spec fn le<T>(a: T, b: T) -> bool;
pub broadcast axiom fn ax_le_string(a: String, b: String) ensures #[trigger] le::<String>(a, b) == lex_le(a@, b@);
pub broadcast axiom fn ax_le_pair(a: (String, String), b: (String, String))
    ensures #[trigger] le::<(String, String)>(a, b) == (if a.0 == b.0 { lex_le(a.1@, b.1@) } else { lex_le(a.0@, b.0@) });
#[verifier::external_body]
pub fn vec_sort<T: Ord>(v: &mut Vec<T>)
    ensures
        exists|p: Seq<int>| #[trigger] permuted(old(v)@, p, final(v)@),
        forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> le::<T>(#[trigger] final(v)@[i], #[trigger] final(v)@[j]),
{ v.sort() }
/// Strings put together with a separator between them.
pub open spec fn joined(s: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0] } else { joined(s.drop_last(), sep) + sep + s.last() } }
pub open spec fn views(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|t: String| t@) }
#[verifier::external_body]
pub fn vec_join(v: &Vec<String>, sep: &str) -> (r: String) ensures r@ == joined(views(v@), sep@) { v.join(sep) }
/// Strings are ordered by their characters' code points (the same order as of their UTF-8 bytes).
pub open spec fn lex_le(a: Seq<char>, b: Seq<char>) -> bool
    decreases a.len()
{
    if a.len() == 0 { true } else if b.len() == 0 { false }
    else if a[0] == b[0] { lex_le(a.skip(1), b.skip(1)) } else { (a[0] as u32) < (b[0] as u32) }
}
proof fn lemma_lex_refl(a: Seq<char>)
    ensures lex_le(a, a),
    decreases a.len(),
{ if a.len() > 0 { lemma_lex_refl(a.skip(1)); } }
pub proof fn lemma_lex_total(a: Seq<char>, b: Seq<char>)
    ensures lex_le(a, b) || lex_le(b, a), lex_le(a, b) && lex_le(b, a) ==> a == b, lex_le(a, a),
    decreases a.len() + b.len(),
{
    lemma_lex_refl(a);
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] {
        lemma_lex_total(a.skip(1), b.skip(1));
        if a.skip(1) == b.skip(1) {
            assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { if i > 0 { assert(a.skip(1)[i - 1] == b.skip(1)[i - 1]); } }
            assert(a.skip(1).len() == b.skip(1).len());
            assert(a =~= b);
        }
    } else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
pub open spec fn lex_sorted(s: Seq<String>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> lex_le((#[trigger] s[i])@, (#[trigger] s[j])@) }
/// Texts are compared in this order.
pub broadcast axiom fn ax_string_ord() ensures #[trigger] <String as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec();
pub broadcast axiom fn ax_string_cmp(a: String, b: String)
    ensures #[trigger] vstd::std_specs::cmp::OrdSpec::cmp_spec(&a, &b) == (if a@ == b@ { std::cmp::Ordering::Equal } else if lex_le(a@, b@) { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater });
/// The elements of a set in order.
pub open spec fn lists(s: Seq<String>, t: Set<String>) -> bool { lex_sorted(s) && s.no_duplicates() && s.to_set() == t }
pub open spec fn sorted_of(t: Set<String>) -> Seq<String> { choose|s: Seq<String>| lists(s, t) }
pub proof fn lemma_lists_unique(a: Seq<String>, b: Seq<String>, t: Set<String>)
    requires lists(a, t), lists(b, t),
    ensures a == b,
    decreases a.len(),
{
    broadcast use ax_string_ext;
    if a.len() == 0 {
        if b.len() > 0 { assert(b.to_set().contains(b[0])); assert(a.to_set().contains(b[0])); }
        assert(a =~= b);
    } else {
        let x = a.last();
        assert(a.contains(x)); assert(a.to_set().contains(x)); assert(b.to_set().contains(x));
        let y = b.last();
        assert(b.contains(y)); assert(b.to_set().contains(y)); assert(a.to_set().contains(y));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == x;
        let j = choose|j: int| 0 <= j < a.len() && a[j] == y;
        lemma_lex_total(x@, y@);
        if i < b.len() - 1 { assert(lex_le(b[i]@, b[b.len() - 1]@)); }
        if j < a.len() - 1 { assert(lex_le(a[j]@, a[a.len() - 1]@)); }
        assert(x@ == y@);
        assert(x == y) by { assert(mk(x@) == x); assert(mk(y@) == y); }
        let u = t.remove(x);
        lemma_drop_lists(a, t); lemma_drop_lists(b, t);
        lemma_lists_unique(a.drop_last(), b.drop_last(), u);
        assert(a =~= a.drop_last().push(x)); assert(b =~= b.drop_last().push(x));
    }
}
pub proof fn lemma_drop_lists(a: Seq<String>, t: Set<String>)
    requires lists(a, t), a.len() > 0,
    ensures lists(a.drop_last(), t.remove(a.last())),
{
    let d = a.drop_last();
    assert forall|i: int, j: int| 0 <= i < j < d.len() implies lex_le((#[trigger] d[i])@, (#[trigger] d[j])@) by { assert(lex_le(a[i]@, a[j]@)); }
    assert(d.no_duplicates());
    assert forall|z: String| d.to_set().contains(z) <==> t.remove(a.last()).contains(z) by {
        if d.contains(z) { let i = choose|i: int| 0 <= i < d.len() && d[i] == z; assert(a[i] == z); assert(a.contains(z)); assert(a.to_set().contains(z)); assert(a[i] != a[a.len() - 1]); }
        if t.contains(z) && z != a.last() { assert(a.to_set().contains(z)); let i = choose|i: int| 0 <= i < a.len() && a[i] == z; assert(d[i] == z); assert(d.contains(z)); }
    }
    assert(d.to_set() =~= t.remove(a.last()));
}
/// What sorting distinct strings gives is the sorted list of their set.
pub proof fn lemma_sorted(a: Seq<String>, b: Seq<String>, t: Set<String>)
    requires
        a.no_duplicates(), a.to_set() == t, exists|p: Seq<int>| #[trigger] permuted(a, p, b),
        forall|i: int, j: int| 0 <= i < j < b.len() ==> le::<String>(#[trigger] b[i], #[trigger] b[j]),
    ensures b == sorted_of(t), lists(b, t),
{
    broadcast use ax_le_string;
    let p = choose|p: Seq<int>| #[trigger] permuted(a, p, b);
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies b[i] != b[j] by { assert(b[i] == a[p[i]]); assert(b[j] == a[p[j]]); assert(p[i] != p[j]); }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies lex_le((#[trigger] b[i])@, (#[trigger] b[j])@) by { assert(le::<String>(b[i], b[j])); }
    assert forall|z: String| b.to_set().contains(z) <==> t.contains(z) by {
        if b.contains(z) { let i = choose|i: int| 0 <= i < b.len() && b[i] == z; assert(a[p[i]] == z); assert(a.contains(z)); assert(a.to_set().contains(z)); }
        if t.contains(z) { assert(a.to_set().contains(z)); let i = choose|i: int| 0 <= i < a.len() && a[i] == z; lemma_perm_onto(p, a.len() as int, i); let j = choose|j: int| 0 <= j < a.len() && p[j] == i; assert(b[j] == z); assert(b.contains(z)); }
    }
    assert(b.to_set() =~= t);
    assert(lists(b, t));
    lemma_lists_unique(b, sorted_of(t), t);
}
pub broadcast axiom fn ax_string_str_obeys() ensures #[trigger] <String as PartialEqSpec<str>>::obeys_eq_spec();
pub broadcast axiom fn ax_string_str_eq(a: String, b: &str) ensures #[trigger] <String as PartialEqSpec<str>>::eq_spec(&a, b) == (a@ == b@);
pub broadcast axiom fn ax_str_string_obeys() ensures #[trigger] <&str as PartialEqSpec<String>>::obeys_eq_spec();
pub broadcast axiom fn ax_str_string_eq(a: &str, b: String) ensures #[trigger] <&str as PartialEqSpec<String>>::eq_spec(&a, &b) == (a@ == b@);
pub broadcast axiom fn ax_str_string_obeys2() ensures #[trigger] <str as PartialEqSpec<String>>::obeys_eq_spec();
pub broadcast axiom fn ax_str_string_eq2(a: &str, b: String) ensures #[trigger] <str as PartialEqSpec<String>>::eq_spec(a, &b) == (a@ == b@);
pub broadcast axiom fn ax_from_str_obeys() ensures #[trigger] <String as vstd::std_specs::convert::FromSpec<&str>>::obeys_from_spec();
pub broadcast axiom fn ax_from_str(a: &str) ensures (#[trigger] <String as vstd::std_specs::convert::FromSpec<&str>>::from_spec(a))@ == a@;
/// `==` of statuses is derived.
pub broadcast axiom fn ax_status_obeys() ensures #[trigger] <ledger_parser::TransactionStatus as PartialEqSpec>::obeys_eq_spec();
pub broadcast axiom fn ax_status_eq(a: ledger_parser::TransactionStatus, b: ledger_parser::TransactionStatus) ensures #[trigger] a.eq_spec(&b) == (a == b);
pub assume_specification<T> [Option::<T>::replace] (o: &mut Option<T>, v: T) -> (r: Option<T>) ensures r == *old(o), *final(o) == Some(v);
pub assume_specification<T> [Option::<T>::or] (a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some { a } else { b });
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub assume_specification [str::to_lowercase] (s: &str) -> (r: String) ensures r@ == lower(s@);
pub open spec fn has_sub(s: Seq<char>, w: Seq<char>) -> bool { exists|i: int| 0 <= i <= s.len() - w.len() && #[trigger] s.subrange(i, i + w.len()) == w }
pub broadcast axiom fn ax_pat_string(p: &String) ensures #[trigger] pat_seq::<&String>(p) == p@;
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<P: core::str::pattern::Pattern> [str::ends_with::<P>] (s: &str, p: P) -> (r: bool) where for<'a> P::Searcher<'a>: core::str::pattern::ReverseSearcher<'a>
    ensures r == pat_seq(p).is_suffix_of(s@);
/// Comparisons and forms in another case: of the text, and no more is known.
pub uninterp spec fn same_ascii_case(a: Seq<char>, b: Seq<char>) -> bool;
pub uninterp spec fn upper(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn ascii_lower(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn ascii_upper(s: Seq<char>) -> Seq<char>;
pub assume_specification [str::eq_ignore_ascii_case] (a: &str, b: &str) -> (r: bool) ensures r == same_ascii_case(a@, b@), a@ == b@ ==> r;
pub assume_specification [str::to_uppercase] (s: &str) -> (r: String) ensures r@ == upper(s@);
pub assume_specification [str::to_ascii_uppercase] (s: &str) -> (r: String) ensures r@ == ascii_upper(s@);
pub assume_specification [str::to_ascii_lowercase] (s: &str) -> (r: String) ensures r@ == ascii_lower(s@);
pub assume_specification<T: Clone> [<T as std::borrow::ToOwned>::to_owned] (t: &T) -> (r: T) ensures cloned(*t, r);
pub assume_specification<P: core::str::pattern::Pattern> [str::contains::<P>] (s: &str, p: P) -> (r: bool)
    ensures r == has_sub(s@, pat_seq(p));
/// White space, and the text without it at both ends.
pub uninterp spec fn ws(c: char) -> bool;
pub open spec fn ltrim(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && ws(s[0]) { ltrim(s.skip(1)) } else { s } }
pub open spec fn rtrim(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && ws(s.last()) { rtrim(s.drop_last()) } else { s } }
pub open spec fn trimmed(s: Seq<char>) -> Seq<char> { rtrim(ltrim(s)) }
pub assume_specification [str::trim] (s: &str) -> (r: &str) ensures r@ == trimmed(s@);
pub assume_specification [str::trim_start] (s: &str) -> (r: &str) ensures r@ == ltrim(s@);
pub assume_specification [str::trim_end] (s: &str) -> (r: &str) ensures r@ == rtrim(s@);
/// The length of a text in bytes of UTF-8 (it is in memory, so its length fits).
pub open spec fn blen(s: Seq<char>) -> nat { vstd::utf8::encode_utf8(s).len() }
pub axiom fn ax_blen_string(s: String) ensures blen(s@) <= isize::MAX;
pub broadcast axiom fn ax_blen(s: &str) ensures #[trigger] blen(s@) <= isize::MAX;
/// Cutting a text after `n` bytes: all of them are ASCII characters here, so it is cut after `n` characters.
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 }
pub assume_specification [String::truncate] (s: &mut String, n: usize)
    requires ascii(old(s)@),
    ensures final(s)@ == (if n <= old(s)@.len() { old(s)@.take(n as int) } else { old(s)@ });
pub assume_specification [String::len] (s: &String) -> (r: usize) ensures r == blen(s@), r <= isize::MAX;
proof fn lemma_blen_cut(a: Seq<char>, b: Seq<char>)
    ensures blen(a + b) == blen(a) + blen(b), a.len() > 0 ==> blen(a) > 0,
{
    vstd::utf8::encode_utf8_concat(a, b);
    if a.len() > 0 {
        vstd::utf8::lemma_encode_utf8_len_strictly_monotonic(a, 0, a.len() as int);
        assert(a.take(a.len() as int) =~= a);
    }
}
pub proof fn lemma_trim_len(s: Seq<char>)
    ensures blen(trimmed(s)) == blen(s) ==> trimmed(s) == s,
{ lemma_ltrim_len(s); lemma_rtrim_len(ltrim(s)); }
proof fn lemma_ltrim_len(s: Seq<char>)
    ensures blen(ltrim(s)) <= blen(s), blen(ltrim(s)) == blen(s) ==> ltrim(s) == s,
    decreases s.len(),
{ if s.len() > 0 && ws(s[0]) { lemma_ltrim_len(s.skip(1)); lemma_blen_cut(seq![s[0]], s.skip(1)); assert(s =~= seq![s[0]] + s.skip(1)); } }
proof fn lemma_rtrim_len(s: Seq<char>)
    ensures blen(rtrim(s)) <= blen(s), blen(rtrim(s)) == blen(s) ==> rtrim(s) == s,
    decreases s.len(),
{ if s.len() > 0 && ws(s.last()) { lemma_rtrim_len(s.drop_last()); lemma_blen_cut(s.drop_last(), seq![s.last()]); lemma_blen_cut(seq![s.last()], Seq::empty()); assert(s =~= s.drop_last() + seq![s.last()]); assert(seq![s.last()] + Seq::<char>::empty() =~= seq![s.last()]); } }
/// `s.into_iter()` of a set, collected: every element once, in some order.
#[verifier::external_body]
pub fn hs_into_vec<K>(s: HashSet<K>) -> (r: Vec<K>)
    ensures r@.no_duplicates(), r@.to_set() == s@,
{ s.into_iter().collect() }
/// `v.iter_mut()` of a vector.
#[verifier::external_body]
pub fn iter_mut<'a, T>(v: &'a mut Vec<T>) -> (r: std::slice::IterMut<'a, T>)
    ensures
        r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some,
        r.remaining().len() == old(v)@.len(), final(v)@.len() == old(v)@.len(),
        forall|i: int| 0 <= i < old(v)@.len() ==> *(#[trigger] r.remaining()[i]) == old(v)@[i] && *final(r.remaining()[i]) == final(v)@[i],
{ v.iter_mut() }
/// `itertools::intersperse`, collected.
pub open spec fn interspersed<T>(v: Seq<T>, x: T) -> Seq<T>
    decreases v.len()
{ if v.len() <= 1 { v } else { interspersed(v.drop_last(), x).push(x).push(v.last()) } }
#[verifier::external_body]
pub fn intersperse<T: Clone>(v: Vec<T>, x: T) -> (r: Vec<T>) ensures r@ == interspersed(v@, x)
{ itertools::intersperse(v.into_iter(), x).collect() }
pub open spec fn disps<T: std::fmt::Display>(v: Seq<T>) -> Seq<Seq<char>> { v.map_values(|t: T| disp::<T>(&t)) }
pub proof fn lemma_disps(v: Seq<&str>) ensures disps::<&str>(v) == views(strs(v))
{
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] disps::<&str>(v)[i] == views(strs(v))[i] by {
        let t = v[i];
        ax_disp_ref::<str>(t); ax_disp_str(t);
        assert(disps::<&str>(v)[i] == disp::<&str>(&t));
        assert(strs(v)[i] == mk(t@));
        assert(views(strs(v))[i] == mk(t@)@);
        ax_mk(t@);
    }
    assert(disps::<&str>(v) =~= views(strs(v)));
}
/// `itertools::join`
#[verifier::external_body]
pub fn join<T: std::fmt::Display>(v: Vec<T>, sep: &str) -> (r: String) ensures r@ == joined(disps(v@), sep@) { itertools::join(v, sep) }
/// `m.into_iter()`, collected: every entry once, in some order.
#[verifier::external_body]
pub fn hm_into_vec<K, V>(m: HashMap<K, V>) -> (r: Vec<(K, V)>)
    ensures
        forall|i: int| 0 <= i < r@.len() ==> m@.contains_key((#[trigger] r@[i]).0) && m@[r@[i].0] == r@[i].1,
        forall|k: K| #[trigger] m@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == k,
        forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).0 != (#[trigger] r@[j]).0,
{ m.into_iter().collect() }
/// A slice sorted with a comparison that is a total preorder: a permutation, in order, equal elements keeping their order.
pub open spec fn perm(p: Seq<int>, n: int) -> bool {
    p.len() == n && p.no_duplicates() && forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n
}
pub open spec fn permuted<T>(a: Seq<T>, p: Seq<int>, b: Seq<T>) -> bool {
    b.len() == a.len() && perm(p, a.len() as int) && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[p[i]]
}
#[verifier::external_body]
pub fn vec_sort_by<T, F: FnMut(&T, &T) -> std::cmp::Ordering>(s: &mut Vec<T>, f: F)
    requires forall|a: T, b: T| #[trigger] call_requires(f, (&a, &b)),
    ensures
        exists|p: Seq<int>| #[trigger] permuted(old(s)@, p, final(s)@),
        forall|i: int, j: int| #![trigger final(s)@[i], final(s)@[j]] 0 <= i < j < final(s)@.len() ==> exists|o: std::cmp::Ordering| #[trigger] call_ensures(f, (&final(s)@[i], &final(s)@[j]), o) && o != std::cmp::Ordering::Greater,
{ s.sort_by(f) }
/// Dates are ordered like numbers.
pub uninterp spec fn date_num(d: chrono::NaiveDate) -> int;
pub broadcast axiom fn ax_date_inj(a: chrono::NaiveDate, b: chrono::NaiveDate) ensures #[trigger] date_num(a) == #[trigger] date_num(b) ==> a == b;
pub open spec fn int_cmp(a: int, b: int) -> std::cmp::Ordering {
    if a < b { std::cmp::Ordering::Less } else if a == b { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater }
}
pub broadcast axiom fn ax_date_ord() ensures #[trigger] <chrono::NaiveDate as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec();
pub broadcast axiom fn ax_date_cmp(a: chrono::NaiveDate, b: chrono::NaiveDate)
    ensures #[trigger] vstd::std_specs::cmp::OrdSpec::cmp_spec(&a, &b) == int_cmp(date_num(a), date_num(b));
/// `o.into_iter().flat_map(|v| v.iter()).copied()`, collected.
#[verifier::external_body]
pub fn opt_vec_copied<T: Copy>(o: Option<&Vec<T>>) -> (r: Vec<T>)
    ensures r@ == (match o { Some(v) => v@, None => Seq::<T>::empty() })
{ o.into_iter().flat_map(|v| v.iter()).copied().collect() }

// ------------------------------------------------------------------ paths
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExPath(std::path::Path);
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExPathBuf(PathBuf);
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExIoError(std::io::Error);
pub uninterp spec fn path_buf(p: &Path) -> PathBuf;
/// The path a value of any kind of path stands for.
pub uninterp spec fn path_of<P>(p: P) -> PathBuf;
pub broadcast axiom fn ax_path_of(p: PathBuf) ensures #[trigger] path_of::<PathBuf>(p) == p;
pub broadcast axiom fn ax_path_of_ref(p: &PathBuf) ensures #[trigger] path_of::<&PathBuf>(p) == *p;
pub broadcast axiom fn ax_path_of_path(p: &Path) ensures #[trigger] path_of::<&Path>(p) == path_buf(p);
pub broadcast axiom fn ax_path_key() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<Option<PathBuf>>();
/// The canonical form of a path, the directory it is in, and a path relative to a directory.
pub uninterp spec fn canon(p: PathBuf) -> Option<PathBuf>;
pub uninterp spec fn parent(p: PathBuf) -> Option<PathBuf>;
pub uninterp spec fn within(dir: PathBuf, p: PathBuf) -> PathBuf;
pub assume_specification<P: AsRef<Path>> [std::fs::canonicalize::<P>] (p: P) -> (r: Result<PathBuf, std::io::Error>)
    ensures r is Ok <==> canon(path_of(p)) is Some, r is Ok ==> Some(r->Ok_0) == canon(path_of(p));
pub assume_specification [Path::parent] (p: &Path) -> (r: Option<&Path>)
    ensures r is Some <==> parent(path_buf(p)) is Some, r is Some ==> Some(path_buf(r->0)) == parent(path_buf(p));
pub assume_specification<P: AsRef<Path>> [Path::join::<P>] (d: &Path, p: P) -> (r: PathBuf)
    ensures r == within(path_buf(d), path_of(p));
/// A file of RON (the file system does not change while rules are loaded): its value, if it can be read and is one of this type.
pub uninterp spec fn ron_value<T>(p: PathBuf) -> Option<T>;
#[verifier::external_body]
pub fn ron_file<T: serde::de::DeserializeOwned>(p: &Path) -> (r: anyhow::Result<T>)
    ensures r is Ok <==> ron_value::<T>(path_buf(p)) is Some, r matches Ok(v) ==> Some(v) == ron_value::<T>(path_buf(p))
{ Ok(ron::de::from_reader(std::fs::File::open(p)?)?) }
/// The value of a type that a text of RON spells.
pub uninterp spec fn ron_spelt<T>(d: Seq<u8>) -> Option<T>;
#[verifier::external_body]
pub fn ron_from<T: serde::de::DeserializeOwned, R: std::io::Read>(r: R) -> (v: anyhow::Result<T>)
    ensures v is Ok <==> ron_spelt::<T>(data_in(r)) is Some, v matches Ok(x) ==> Some(x) == ron_spelt::<T>(data_in(r))
{ Ok(ron::de::from_reader(r)?) }
#[verifier::external_body]
pub fn own_path(p: &Path) -> (r: PathBuf) ensures r == path_buf(p) { p.to_owned() }
/// The text of a path, if it is text, and the path a text names.
pub uninterp spec fn path_text(p: PathBuf) -> Option<Seq<char>>;
pub uninterp spec fn text_path(s: Seq<char>) -> PathBuf;
pub assume_specification [Path::to_str] (p: &Path) -> (r: Option<&str>)
    ensures r is Some <==> path_text(path_buf(p)) is Some, r is Some ==> Some((r->0)@) == path_text(path_buf(p));
#[verifier::external_body]
pub fn into_path(s: String) -> (r: PathBuf) ensures r == text_path(s@) { s.into() }
/// The directory of a file cannot be made.
pub uninterp spec fn no_dir(p: PathBuf) -> bool;
#[verifier::external_body]
pub fn make_dirs(p: &Path) -> (r: std::io::Result<()>)
    ensures r is Err ==> forall|f: PathBuf| #[trigger] parent(f) == Some(path_buf(p)) ==> no_dir(f) { std::fs::create_dir_all(p) }
pub assume_specification [<PathBuf as std::ops::Deref>::deref] (p: &PathBuf) -> (r: &Path) ensures path_buf(r) == *p;
pub assume_specification [<PathBuf as Clone>::clone] (p: &PathBuf) -> (r: PathBuf) ensures r == *p;
pub assume_specification<T, E> [Option::<Result<T, E>>::transpose] (o: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
    ensures r == (match o { None => Ok(None), Some(Ok(t)) => Ok(Some(t)), Some(Err(e)) => Err(e) });

// ------------------------------------------------------------------ regular expressions
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExRegexLib(regex::Regex);
pub uninterp spec fn re_matches(r: regex::Regex, s: Seq<char>) -> bool;
pub uninterp spec fn re_replaced(r: regex::Regex, s: Seq<char>, by: Seq<char>) -> Seq<char>;
pub assume_specification [regex::Regex::is_match] (r: &regex::Regex, s: &str) -> (b: bool) ensures b == re_matches(*r, s@);
/// The expression a pattern makes.
pub uninterp spec fn re_of(pat: Seq<char>) -> regex::Regex;
#[verifier::external_body]
pub fn rx(pat: &'static str) -> (r: &'static regex::Regex) ensures *r == re_of(pat@) { Box::leak(Box::new(regex::Regex::new(pat).unwrap())) }

#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExCaptures<'h>(regex::Captures<'h>);
/// The groups of the first match, the whole match being group 0.
pub uninterp spec fn captured(r: regex::Regex, s: Seq<char>) -> Option<Seq<Option<Seq<char>>>>;
pub uninterp spec fn groups(c: regex::Captures) -> Seq<Option<Seq<char>>>;
pub assume_specification<'h> [regex::Regex::captures] (r: &regex::Regex, s: &'h str) -> (c: Option<regex::Captures<'h>>)
    ensures c is Some == captured(*r, s@) is Some, c matches Some(c) ==> groups(c) == captured(*r, s@)->0;
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExMatch<'h>(regex::Match<'h>);
/// Where a match was found (in characters) in which text.
pub ghost struct Span { pub hay: Seq<char>, pub a: int, pub b: int }
pub uninterp spec fn span(m: regex::Match) -> Span;
pub open spec fn span_text(p: Span) -> Seq<char> { p.hay.subrange(p.a, p.b) }
pub open spec fn span_ok(p: Span) -> bool { 0 <= p.a <= p.b <= p.hay.len() }
pub uninterp spec fn group_spans(c: regex::Captures) -> Seq<Option<Span>>;
pub axiom fn ax_group_spans(c: regex::Captures)
    ensures
        group_spans(c).len() == groups(c).len(),
        forall|i: int| 0 <= i < groups(c).len() ==> ((#[trigger] groups(c)[i]) is Some <==> group_spans(c)[i] is Some),
        forall|i: int| 0 <= i < groups(c).len() && (#[trigger] groups(c)[i]) is Some ==> span_ok(group_spans(c)[i]->0) && span_text(group_spans(c)[i]->0) == groups(c)[i]->0;
/// A group's place; byte positions count the bytes of the characters before.
#[verifier::external_body]
pub fn cap_get<'h>(c: &regex::Captures<'h>, i: usize) -> (r: Option<regex::Match<'h>>)
    ensures
        r is Some <==> i < groups(*c).len() && groups(*c)[i as int] is Some,
        r matches Some(m) ==> Some(span(m)) == group_spans(*c)[i as int] && span_ok(span(m)) && span_text(span(m)) == groups(*c)[i as int]->0
{ c.get(i) }
pub assume_specification<'h> [regex::Match::<'h>::as_str] (m: &regex::Match<'h>) -> (r: &'h str) ensures r@ == span_text(span(*m));
pub assume_specification<'h> [regex::Match::<'h>::start] (m: &regex::Match<'h>) -> (r: usize) ensures r == blen(span(*m).hay.take(span(*m).a));
pub assume_specification<'h> [regex::Match::<'h>::end] (m: &regex::Match<'h>) -> (r: usize) ensures r == blen(span(*m).hay.take(span(*m).b));
/// All matches, from left to right, none overlapping another.
pub uninterp spec fn found(r: regex::Regex, s: Seq<char>) -> Seq<Seq<Option<Span>>>;
#[verifier::external_body]
pub fn captures_all<'h>(re: &regex::Regex, s: &'h str) -> (r: Vec<regex::Captures<'h>>)
    ensures
        r@.len() == found(*re, s@).len(),
        forall|i: int| 0 <= i < r@.len() ==> group_spans(#[trigger] r@[i]) == found(*re, s@)[i]
{ re.captures_iter(s).collect() }
/// The part of a text between two character boundaries.
pub open spec fn cut_at(s: Seq<char>, a: int, b: int, i: int, j: int) -> bool { 0 <= i <= j <= s.len() && a == blen(s.take(i)) && b == blen(s.take(j)) }
#[verifier::external_body]
pub fn str_cut<'a>(s: &'a str, a: usize, b: usize, Ghost(at): Ghost<(int, int)>) -> (r: &'a str)
    requires cut_at(s@, a as int, b as int, at.0, at.1)
    ensures r@ == s@.subrange(at.0, at.1)
{ &s[a..b] }
/// The rest of a text from a character boundary on.
#[verifier::external_body]
pub fn str_from<'a>(s: &'a str, a: usize, Ghost(at): Ghost<int>) -> (r: &'a str)
    requires 0 <= at <= s@.len(), a == blen(s@.take(at))
    ensures r@ == s@.skip(at)
{ &s[a..] }
#[verifier::external_body]
pub fn str_len(s: &str) -> (r: usize) ensures r == blen(s@) { s.len() }
/// A prefix has the bytes of its characters: prefixes of one byte length are one.
pub proof fn lemma_prefix(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures blen(s.take(i)) <= blen(s.take(j)), i < j ==> blen(s.take(i)) < blen(s.take(j)), blen(Seq::<char>::empty()) == 0,
{
    lemma_blen_cut(s.subrange(i, j), Seq::empty()); lemma_blen_cut(s.take(i), s.subrange(i, j));
    lemma_blen_cut(Seq::empty(), Seq::empty()); assert(Seq::<char>::empty() + Seq::<char>::empty() =~= Seq::<char>::empty());
    assert(s.take(i) + s.subrange(i, j) =~= s.take(j)); assert(s.subrange(i, j) + Seq::<char>::empty() =~= s.subrange(i, j));
}
/// The parts of a text between the occurrences of a character, and the text without the ones at its end.
pub open spec fn pieces(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { seq![s] }
    else if s.last() == c { pieces(s.drop_last(), c).push(Seq::empty()) }
    else { let p = pieces(s.drop_last(), c); p.drop_last().push(p.last().push(s.last())) }
}
pub open spec fn end_cut(s: Seq<char>, c: char) -> Seq<char> decreases s.len() { if s.len() > 0 && s.last() == c { end_cut(s.drop_last(), c) } else { s } }
pub open spec fn str_views(s: Seq<&str>) -> Seq<Seq<char>> { s.map_values(|x: &str| x@) }
#[verifier::external_body]
pub fn str_split<'a>(s: &'a str, c: char) -> (r: Vec<&'a str>) ensures str_views(r@) == pieces(s@, c) { s.split(c).collect() }
#[verifier::external_body]
pub fn str_end_cut<'a>(s: &'a str, c: char) -> (r: &'a str) ensures r@ == end_cut(s@, c) { s.trim_end_matches(c) }
pub proof fn lemma_pieces(s: Seq<char>, c: char)
    ensures pieces(s, c).len() > 0, forall|i: int| 0 <= i < pieces(s, c).len() ==> !(#[trigger] pieces(s, c)[i]).contains(c),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_pieces(s.drop_last(), c);
        let p = pieces(s.drop_last(), c);
        if s.last() != c {
            let q = p.last().push(s.last());
            if q.contains(c) { let k = choose|k: int| 0 <= k < q.len() && q[k] == c; assert(k < p.last().len()); assert(p.last()[k] == c); assert(p.last() == p[p.len() - 1]); }
        }
    }
}
/// The text with the first match replaced.
#[verifier::external_body]
pub fn re_replace(r: &regex::Regex, s: &str, by: &String) -> (t: String) ensures t@ == re_replaced(*r, s@, by@) { r.replace(s, by).into() }
/// `c[i]`
#[verifier::external_body]
pub fn cap<'a, 'h>(c: &'a regex::Captures<'h>, i: usize) -> (r: &'a str)
    requires i < groups(*c).len(), groups(*c)[i as int] is Some
    ensures r@ == groups(*c)[i as int]->0
{ &c[i] }
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExParseIntError(std::num::ParseIntError);
pub uninterp spec fn parsed_i32(s: Seq<char>) -> Option<i32>;
#[verifier::external_body]
pub fn parse_i32(s: &str) -> (r: Result<i32, std::num::ParseIntError>) ensures r is Ok <==> parsed_i32(s@) is Some, r matches Ok(v) ==> parsed_i32(s@) == Some(v) { s.parse() }

// ------------------------------------------------------------------ decimals
/// A decimal number is a sign, a coefficient and a scale (the number of digits after the point).
pub uninterp spec fn dec_negative(d: rust_decimal::Decimal) -> bool;
pub uninterp spec fn dec_coeff(d: rust_decimal::Decimal) -> nat;
pub uninterp spec fn dec_scale(d: rust_decimal::Decimal) -> nat;
pub open spec fn dec_signed(d: rust_decimal::Decimal) -> int { if dec_negative(d) { -(dec_coeff(d) as int) } else { dec_coeff(d) as int } }
/// The same number with the other sign.
pub uninterp spec fn dec_neg(d: rust_decimal::Decimal) -> rust_decimal::Decimal;
pub broadcast axiom fn ax_dec_neg(d: rust_decimal::Decimal)
    ensures
        dec_negative(#[trigger] dec_neg(d)) == !dec_negative(d), dec_coeff(dec_neg(d)) == dec_coeff(d), dec_scale(dec_neg(d)) == dec_scale(d);
pub broadcast axiom fn ax_dec_ext(a: rust_decimal::Decimal, b: rust_decimal::Decimal)
    requires #[trigger] dec_negative(a) == #[trigger] dec_negative(b), dec_coeff(a) == dec_coeff(b), dec_scale(a) == dec_scale(b),
    ensures a == b;
pub broadcast axiom fn ax_dec_neg_obeys() ensures #[trigger] <rust_decimal::Decimal as vstd::std_specs::ops::NegSpec>::obeys_neg_spec();
pub broadcast axiom fn ax_dec_neg_req(d: rust_decimal::Decimal) ensures #[trigger] vstd::std_specs::ops::NegSpec::neg_req(d);
pub broadcast axiom fn ax_dec_neg_is(d: rust_decimal::Decimal) ensures #[trigger] vstd::std_specs::ops::NegSpec::neg_spec(d) == dec_neg(d);
pub assume_specification [<rust_decimal::Decimal as core::ops::Neg>::neg] (d: rust_decimal::Decimal) -> (r: rust_decimal::Decimal);
pub assume_specification [rust_decimal::Decimal::is_sign_negative] (d: &rust_decimal::Decimal) -> (r: bool) ensures r == dec_negative(*d);

// ------------------------------------------------------------------ bytes
/// The last `w` bytes of `n`, the most significant one first.
pub open spec fn be(n: int, w: nat) -> Seq<u8>
    decreases w
{
    if w == 0 { Seq::empty() } else { be(n / 256, (w - 1) as nat).push((n % 256) as u8) }
}
pub open spec fn le_bytes(n: int, w: nat) -> Seq<u8> { be(n, w).reverse() }
#[verifier::external_body]
pub fn be_write_i16(b: &mut [u8], v: i16) requires old(b)@.len() >= 2
    ensures final(b)@.len() == old(b)@.len(), final(b)@.take(2) == be(v as int, 2), final(b)@.skip(2) == old(b)@.skip(2)
{ <byteorder::BigEndian as byteorder::ByteOrder>::write_i16(b, v) }
#[verifier::external_body]
pub fn le_write_i16(b: &mut [u8], v: i16) requires old(b)@.len() >= 2
    ensures final(b)@.len() == old(b)@.len(), final(b)@.take(2) == le_bytes(v as int, 2), final(b)@.skip(2) == old(b)@.skip(2)
{ <byteorder::LittleEndian as byteorder::ByteOrder>::write_i16(b, v) }
#[verifier::external_body]
pub fn be_write_i32(b: &mut [u8], v: i32) requires old(b)@.len() >= 4
    ensures final(b)@.len() == old(b)@.len(), final(b)@.take(4) == be(v as int, 4), final(b)@.skip(4) == old(b)@.skip(4)
{ <byteorder::BigEndian as byteorder::ByteOrder>::write_i32(b, v) }
#[verifier::external_body]
pub fn le_write_i32(b: &mut [u8], v: i32) requires old(b)@.len() >= 4
    ensures final(b)@.len() == old(b)@.len(), final(b)@.take(4) == le_bytes(v as int, 4), final(b)@.skip(4) == old(b)@.skip(4)
{ <byteorder::LittleEndian as byteorder::ByteOrder>::write_i32(b, v) }
#[verifier::external_body]
pub fn be_write_i64(b: &mut [u8], v: i64) requires old(b)@.len() >= 8
    ensures final(b)@.len() == old(b)@.len(), final(b)@.take(8) == be(v as int, 8), final(b)@.skip(8) == old(b)@.skip(8)
{ <byteorder::BigEndian as byteorder::ByteOrder>::write_i64(b, v) }
#[verifier::external_body]
pub fn le_write_i64(b: &mut [u8], v: i64) requires old(b)@.len() >= 8
    ensures final(b)@.len() == old(b)@.len(), final(b)@.take(8) == le_bytes(v as int, 8), final(b)@.skip(8) == old(b)@.skip(8)
{ <byteorder::LittleEndian as byteorder::ByteOrder>::write_i64(b, v) }
#[verifier::external_body]
pub fn be_write_u16(b: &mut [u8], v: u16) requires old(b)@.len() >= 2
    ensures final(b)@.len() == old(b)@.len(), final(b)@.take(2) == be(v as int, 2), final(b)@.skip(2) == old(b)@.skip(2)
{ <byteorder::BigEndian as byteorder::ByteOrder>::write_u16(b, v) }
#[verifier::external_body]
pub fn le_write_u16(b: &mut [u8], v: u16) requires old(b)@.len() >= 2
    ensures final(b)@.len() == old(b)@.len(), final(b)@.take(2) == le_bytes(v as int, 2), final(b)@.skip(2) == old(b)@.skip(2)
{ <byteorder::LittleEndian as byteorder::ByteOrder>::write_u16(b, v) }
#[verifier::external_body]
pub fn be_write_u32(b: &mut [u8], v: u32) requires old(b)@.len() >= 4
    ensures final(b)@.len() == old(b)@.len(), final(b)@.take(4) == be(v as int, 4), final(b)@.skip(4) == old(b)@.skip(4)
{ <byteorder::BigEndian as byteorder::ByteOrder>::write_u32(b, v) }
#[verifier::external_body]
pub fn le_write_u32(b: &mut [u8], v: u32) requires old(b)@.len() >= 4
    ensures final(b)@.len() == old(b)@.len(), final(b)@.take(4) == le_bytes(v as int, 4), final(b)@.skip(4) == old(b)@.skip(4)
{ <byteorder::LittleEndian as byteorder::ByteOrder>::write_u32(b, v) }
#[verifier::external_body]
pub fn be_write_u64(b: &mut [u8], v: u64) requires old(b)@.len() >= 8
    ensures final(b)@.len() == old(b)@.len(), final(b)@.take(8) == be(v as int, 8), final(b)@.skip(8) == old(b)@.skip(8)
{ <byteorder::BigEndian as byteorder::ByteOrder>::write_u64(b, v) }
#[verifier::external_body]
pub fn le_write_u64(b: &mut [u8], v: u64) requires old(b)@.len() >= 8
    ensures final(b)@.len() == old(b)@.len(), final(b)@.take(8) == le_bytes(v as int, 8), final(b)@.skip(8) == old(b)@.skip(8)
{ <byteorder::LittleEndian as byteorder::ByteOrder>::write_u64(b, v) }
pub assume_specification [rust_decimal::Decimal::serialize] (d: &rust_decimal::Decimal) -> (r: [u8; 16]) ensures r@ == dec_bytes(*d);
/// The library's encoding of a decimal number: one for one, 16 bytes.
pub uninterp spec fn dec_bytes(d: rust_decimal::Decimal) -> Seq<u8>;
pub axiom fn ax_dec_bytes(a: rust_decimal::Decimal, b: rust_decimal::Decimal) ensures dec_bytes(a).len() == 16, dec_bytes(a) == dec_bytes(b) ==> a == b;
/// The parts of a date and of a time of day.
pub uninterp spec fn date_y(d: chrono::NaiveDate) -> i32;
pub uninterp spec fn date_m(d: chrono::NaiveDate) -> u32;
pub uninterp spec fn date_d(d: chrono::NaiveDate) -> u32;
pub axiom fn ax_date_parts(a: chrono::NaiveDate, b: chrono::NaiveDate) ensures date_y(a) == date_y(b) && date_m(a) == date_m(b) && date_d(a) == date_d(b) ==> a == b;
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExNaiveTime(chrono::NaiveTime);
pub uninterp spec fn time_h(d: chrono::NaiveTime) -> u32;
pub uninterp spec fn time_m(d: chrono::NaiveTime) -> u32;
pub uninterp spec fn time_s(d: chrono::NaiveTime) -> u32;
pub uninterp spec fn time_n(d: chrono::NaiveTime) -> u32;
pub axiom fn ax_time_parts(a: chrono::NaiveTime, b: chrono::NaiveTime)
    ensures time_h(a) == time_h(b) && time_m(a) == time_m(b) && time_s(a) == time_s(b) && time_n(a) == time_n(b) ==> a == b;
pub assume_specification [<chrono::NaiveDate as chrono::Datelike>::year] (d: &chrono::NaiveDate) -> (r: i32) ensures r == date_y(*d);
pub assume_specification [<chrono::NaiveDate as chrono::Datelike>::month] (d: &chrono::NaiveDate) -> (r: u32) ensures r == date_m(*d);
pub assume_specification [<chrono::NaiveDate as chrono::Datelike>::day] (d: &chrono::NaiveDate) -> (r: u32) ensures r == date_d(*d);
pub assume_specification [<chrono::NaiveTime as chrono::Timelike>::hour] (d: &chrono::NaiveTime) -> (r: u32) ensures r == time_h(*d);
pub assume_specification [<chrono::NaiveTime as chrono::Timelike>::minute] (d: &chrono::NaiveTime) -> (r: u32) ensures r == time_m(*d);
pub assume_specification [<chrono::NaiveTime as chrono::Timelike>::second] (d: &chrono::NaiveTime) -> (r: u32) ensures r == time_s(*d);
pub assume_specification [<chrono::NaiveTime as chrono::Timelike>::nanosecond] (d: &chrono::NaiveTime) -> (r: u32) ensures r == time_n(*d);

// ------------------------------------------------------------------ files
#[verifier::external_trait_specification]
pub trait ExRead { type ExternalTraitSpecificationFor: std::io::Read; }
#[verifier::external_trait_specification]
pub trait ExWrite { type ExternalTraitSpecificationFor: std::io::Write; }
/// All the data a reader has to give; the file a writer writes to.
pub uninterp spec fn data_in<R>(r: R) -> Seq<u8>;
pub uninterp spec fn target(w: Box<dyn std::io::Write>) -> crate::filespec::FileSpec;
/// Opening the standard streams and files; a file is emptied when it is opened for writing.
#[verifier::external_body]
pub fn std_reader() -> (r: Box<dyn std::io::Read>) ensures crate::filespec::held(crate::filespec::FileSpec::Stdio, data_in(r)) { Box::new(std::io::stdin()) }
#[verifier::external_body]
pub fn file_reader(p: &PathBuf) -> (r: std::io::Result<Box<dyn std::io::Read>>)
    ensures r matches Ok(x) ==> crate::filespec::held(crate::filespec::FileSpec::Path(*p), data_in(x)), r is Err ==> crate::filespec::no_access(crate::filespec::FileSpec::Path(*p))
{ Ok(Box::new(std::fs::File::open(p)?)) }
#[verifier::external_body]
pub fn std_writer() -> (r: Box<dyn std::io::Write>)
    requires crate::filespec::may_open(crate::filespec::FileSpec::Stdio)
    ensures target(r) == crate::filespec::FileSpec::Stdio { Box::new(std::io::stdout()) }
#[verifier::external_body]
pub fn file_writer(p: &PathBuf) -> (r: std::io::Result<Box<dyn std::io::Write>>)
    requires crate::filespec::may_open(crate::filespec::FileSpec::Path(*p))
    ensures r matches Ok(x) ==> target(x) == crate::filespec::FileSpec::Path(*p), r is Err ==> crate::filespec::no_access(crate::filespec::FileSpec::Path(*p))
{ Ok(Box::new(std::fs::File::create(p)?)) }
#[verifier::external_body]
pub fn str_path(s: &str) -> (r: PathBuf) ensures r == text_path(s@) { s.into() }
/// Reading a reader to its end as text.
#[verifier::external_body]
pub fn read_all(r: &mut Box<dyn std::io::Read>, s: &mut String) -> (k: Result<usize, std::io::Error>)
    requires old(s)@.len() == 0
    ensures
        k is Ok ==> crate::filespec::text_data(final(s)@) == data_in(*old(r)),
        k is Err ==> (forall|s: Seq<char>| #[trigger] crate::filespec::text_data(s) != data_in(*old(r)))
            || forall|f: crate::filespec::FileSpec| #[trigger] crate::filespec::held(f, data_in(*old(r))) ==> crate::filespec::no_access(f)
{ r.read_to_string(s) }
/// Writing all of a text.
#[verifier::external_body]
pub fn write_text(w: &mut Box<dyn std::io::Write>, s: &str) -> (k: Result<(), std::io::Error>)
    requires crate::filespec::may_put(target(*old(w)), crate::filespec::text_data(s@))
    ensures
        k is Ok ==> crate::filespec::put(target(*old(w)), crate::filespec::text_data(s@)),
        k is Err ==> crate::filespec::no_access(target(*old(w)))
{ w.write_all(s.as_bytes()) }
/// The journal that a text spells.
pub uninterp spec fn journal(s: Seq<char>) -> Option<ledger_parser::Ledger>;
#[verifier::external_body]
pub fn parse_journal(s: &str) -> (r: anyhow::Result<ledger_parser::Ledger>)
    ensures r is Ok <==> journal(s@) is Some, r matches Ok(l) ==> journal(s@) == Some(l)
{ ledger_parser::parse(s).map_err(Into::into) }

// ------------------------------------------------------------------ CSV files
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExStringRecord(csv::StringRecord);
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExCsvError(csv::Error);
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::reject_recursive_types(R)]
pub struct ExStringRecordsIter<'r, R: 'r>(csv::StringRecordsIter<'r, R>);
#[verifier::external_trait_specification]
pub trait ExDeserialize<'de>: Sized { type ExternalTraitSpecificationFor: serde::Deserialize<'de>; fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error>; }
#[verifier::external_trait_specification]
pub trait ExStdError: core::fmt::Debug + core::fmt::Display { type ExternalTraitSpecificationFor: std::error::Error; }
#[verifier::external_trait_specification]
pub trait ExDeError: Sized + std::error::Error { type ExternalTraitSpecificationFor: serde::de::Error; fn custom<T: core::fmt::Display>(msg: T) -> Self; }
#[verifier::external_trait_specification]
pub trait ExVisitor<'de>: Sized {
    type ExternalTraitSpecificationFor: serde::de::Visitor<'de>;
    type Value;
    fn expecting(&self, formatter: &mut core::fmt::Formatter) -> core::fmt::Result;
    fn visit_str<E: serde::de::Error>(self, s: &str) -> Result<Self::Value, E>;
}
#[verifier::external_trait_specification]
pub trait ExDeserializer<'de>: Sized {
    type ExternalTraitSpecificationFor: serde::de::Deserializer<'de>;
    type Error: serde::de::Error;
    fn deserialize_str<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error>;
}
pub assume_specification<'a> [core::fmt::Formatter::<'a>::write_str] (f: &mut core::fmt::Formatter<'a>, s: &str) -> (r: core::fmt::Result);
#[verifier::external_trait_specification]
pub trait ExFromStr: Sized { type ExternalTraitSpecificationFor: std::str::FromStr; type Err; fn from_str(s: &str) -> Result<Self, Self::Err>; }
/// The value of a type that a text spells.
pub uninterp spec fn parse_as<T>(s: Seq<char>) -> Option<T>;
#[verifier::external_body]
pub fn parse_to<T: std::str::FromStr>(s: &str) -> (r: Result<T, <T as std::str::FromStr>::Err>)
    ensures r is Ok <==> parse_as::<T>(s@) is Some, r matches Ok(v) ==> parse_as::<T>(s@) == Some(v)
{ s.parse() }
pub open spec fn digit(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i]) }
/// The number a text of digits spells.
pub open spec fn num(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { num(s.drop_last()) * 10 + (s.last() as nat - '0' as nat) as nat } }
/// Digits of any script (`\d`).
pub uninterp spec fn nd(c: char) -> bool;
pub open spec fn nds(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> nd(#[trigger] s[i]) }
pub broadcast axiom fn ax_nd(c: char) ensures digit(c) ==> #[trigger] nd(c);
pub axiom fn ax_parse_i64(s: Seq<char>)
    requires s.len() > 0, nds(s),
    ensures parse_as::<i64>(s) == (if digits(s) && num(s) <= i64::MAX { Some(num(s) as i64) } else { None });
pub assume_specification [rust_decimal::Decimal::new] (n: i64, scale: u32) -> (r: rust_decimal::Decimal)
    requires scale <= 28
    ensures dec_negative(r) == (n < 0), dec_coeff(r) == (if n < 0 { -n } else { n as int }), dec_scale(r) == scale;
pub assume_specification [rust_decimal::Decimal::set_sign_negative] (d: &mut rust_decimal::Decimal, neg: bool)
    ensures dec_negative(*final(d)) == neg, dec_coeff(*final(d)) == dec_coeff(*old(d)), dec_scale(*final(d)) == dec_scale(*old(d));
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExRegexError(regex::Error);
/// The text is a regular expression.
pub uninterp spec fn re_ok(pat: Seq<char>) -> bool;
pub assume_specification [regex::Regex::new] (pat: &str) -> (r: Result<regex::Regex, regex::Error>)
    ensures r is Ok <==> re_ok(pat@), r matches Ok(x) ==> x == re_of(pat@);
#[verifier::external_trait_specification]
pub trait ExDeserializeOwned: for<'de> serde::Deserialize<'de> { type ExternalTraitSpecificationFor: serde::de::DeserializeOwned; }
/// The records that are left, and the row of a given type that a record spells (if it does).
pub uninterp spec fn csv_rest<R>(it: csv::StringRecordsIter<R>) -> Seq<Result<csv::StringRecord, csv::Error>>;
pub uninterp spec fn row_ok<T>(r: csv::StringRecord) -> bool;
pub uninterp spec fn row_of<T>(r: csv::StringRecord) -> T;
/// Reading on: all that is left (the loop over the reader, with its records in hand).
#[verifier::external_body]
pub fn csv_rows<R: std::io::Read>(it: &mut csv::StringRecordsIter<R>) -> (r: Vec<Result<csv::StringRecord, csv::Error>>) ensures r@ == csv_rest(*old(it)) { it.collect() }
#[verifier::external_body]
pub fn csv_row<T: serde::de::DeserializeOwned>(rec: &csv::StringRecord) -> (r: Result<T, csv::Error>)
    ensures r is Ok <==> row_ok::<T>(*rec), r matches Ok(t) ==> t == row_of::<T>(*rec)
{ rec.deserialize(None) }
pub uninterp spec fn row_with_ok<T>(rec: csv::StringRecord, headers: csv::StringRecord) -> bool;
pub uninterp spec fn row_with<T>(rec: csv::StringRecord, headers: csv::StringRecord) -> T;
#[verifier::external_body]
pub fn csv_row_with<T: serde::de::DeserializeOwned>(rec: &csv::StringRecord, headers: &csv::StringRecord) -> (r: Result<T, csv::Error>)
    ensures r is Ok <==> row_with_ok::<T>(*rec, *headers), r matches Ok(t) ==> t == row_with::<T>(*rec, *headers)
{ rec.deserialize(Some(headers)) }

#[verifier::external_type_specification] #[verifier::external_body] #[verifier::reject_recursive_types(R)]
pub struct ExCsvReader<R>(csv::Reader<R>);
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::reject_recursive_types(R)] #[verifier::reject_recursive_types(B)]
pub struct ExDecodeReaderBytes<R, B>(encoding_rs_io::DecodeReaderBytes<R, B>);
pub type CsvRow = Result<csv::StringRecord, csv::Error>;
/// The records of some data, fields trimmed: with or without a header line; the records a reader has still to give.
pub uninterp spec fn plain_rows(d: Seq<u8>) -> Seq<CsvRow>;
pub uninterp spec fn titled_rows(d: Seq<u8>) -> Seq<CsvRow>;
pub uninterp spec fn titles(d: Seq<u8>) -> Option<csv::StringRecord>;
pub uninterp spec fn csv_left<R>(r: csv::Reader<R>) -> Seq<CsvRow>;
pub uninterp spec fn csv_titles<R>(r: csv::Reader<R>) -> Option<csv::StringRecord>;
/// What text in the Windows-1252 encoding is in UTF-8.
pub uninterp spec fn from_1252(d: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub fn win1252(r: Box<dyn std::io::Read>) -> (d: encoding_rs_io::DecodeReaderBytes<Box<dyn std::io::Read>, Vec<u8>>) ensures data_in(d) == from_1252(data_in(r))
{ encoding_rs_io::DecodeReaderBytesBuilder::new().encoding(Some(encoding_rs::WINDOWS_1252)).build(r) }
/// A file has fewer records than 2^31 (it would take months to read).
#[verifier::external_body]
pub fn csv_plain<R: std::io::Read>(r: R) -> (c: csv::Reader<R>) ensures csv_left(c) == plain_rows(data_in(r)), csv_left(c).len() <= i32::MAX
{ csv::ReaderBuilder::new().has_headers(false).flexible(true).trim(csv::Trim::All).from_reader(r) }
#[verifier::external_body]
pub fn csv_titled<R: std::io::Read>(r: R) -> (c: csv::Reader<R>) ensures csv_left(c) == titled_rows(data_in(r)), csv_titles(c) == titles(data_in(r))
{ csv::ReaderBuilder::new().has_headers(true).flexible(false).trim(csv::Trim::All).from_reader(r) }
#[verifier::external_body]
pub fn csv_headers<R: std::io::Read>(c: &mut csv::Reader<R>) -> (r: Result<csv::StringRecord, csv::Error>)
    ensures
        r is Ok <==> csv_titles(*old(c)) is Some, r matches Ok(h) ==> csv_titles(*old(c)) == Some(h),
        csv_left(*final(c)) == csv_left(*old(c)),
{ c.headers().cloned() }
#[verifier::external_body]
pub fn csv_records<'r, R: std::io::Read>(c: &'r mut csv::Reader<R>) -> (it: csv::StringRecordsIter<'r, R>) ensures csv_rest(it) == csv_left(*old(c)) { c.records() }
/// The next record.
#[verifier::external_body]
pub fn csv_next<R: std::io::Read>(it: &mut csv::StringRecordsIter<R>) -> (r: Option<CsvRow>)
    ensures
        r is Some <==> csv_rest(*old(it)).len() > 0,
        r matches Some(x) ==> csv_rest(*old(it))[0] == x && csv_rest(*final(it)) == csv_rest(*old(it)).skip(1),
{ it.next() }

/// All rows of a table with a header line, read as rows of a given type.
pub uninterp spec fn table_in<T>(d: Seq<u8>) -> Seq<Result<T, csv::Error>>;
pub open spec fn table_of<R, T>(r: R) -> Seq<Result<T, csv::Error>> { table_in::<T>(data_in(r)) }
#[verifier::external_body]
pub fn csv_table<R: std::io::Read, T: serde::de::DeserializeOwned>(r: R) -> (t: Vec<Result<T, csv::Error>>) ensures t@ == table_of::<R, T>(r)
{ csv::Reader::from_reader(r).into_deserialize().collect() }

/// All rows of a tab separated table with a header line, fields trimmed.
pub uninterp spec fn tsv_in<T>(d: Seq<u8>) -> Seq<Result<T, csv::Error>>;
pub open spec fn tsv_of<R, T>(r: R) -> Seq<Result<T, csv::Error>> { tsv_in::<T>(data_in(r)) }
#[verifier::external_body]
pub fn tsv_table<R: std::io::Read, T: serde::de::DeserializeOwned>(r: R) -> (t: Vec<Result<T, csv::Error>>) ensures t@ == tsv_of::<R, T>(r)
{ csv::ReaderBuilder::new().delimiter(b'\t').has_headers(true).trim(csv::Trim::All).from_reader(r).into_deserialize().collect() }

// ------------------------------------------------------------------ time zones and instants
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExFixedOffset(chrono::FixedOffset);
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExTz(chrono_tz::Tz);
#[verifier::external_trait_specification]
pub trait ExOffset: Sized + Clone + std::fmt::Debug { type ExternalTraitSpecificationFor: chrono::Offset; }
#[verifier::external_trait_specification]
pub trait ExTimeZone: Sized + Clone { type ExternalTraitSpecificationFor: chrono::TimeZone; type Offset: chrono::Offset; }
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::reject_recursive_types(Z)]
pub struct ExDateTime<Z: chrono::TimeZone>(chrono::DateTime<Z>);
#[verifier::external_type_specification] #[verifier::reject_recursive_types(T)]
pub struct ExLocalResult<T>(chrono::LocalResult<T>);
/// The offset of so many seconds east.
pub uninterp spec fn east(secs: int) -> chrono::FixedOffset;
pub assume_specification [chrono::FixedOffset::east_opt] (secs: i32) -> (r: Option<chrono::FixedOffset>)
    ensures r == (if -86_400 < secs < 86_400 { Some(east(secs as int)) } else { None });
/// A date and a time of day, and the instant that is in a zone of fixed offset (there is always exactly one).
pub uninterp spec fn date_time(d: chrono::NaiveDate, t: chrono::NaiveTime) -> chrono::NaiveDateTime;
pub uninterp spec fn instant(z: chrono::FixedOffset, t: chrono::NaiveDateTime) -> chrono::DateTime<chrono::FixedOffset>;
/// The day an instant falls on in a zone.
pub uninterp spec fn moved<Z: chrono::TimeZone, Y: chrono::TimeZone>(t: chrono::DateTime<Z>, z: Y) -> chrono::DateTime<Y>;
pub uninterp spec fn local_time<Z: chrono::TimeZone>(t: chrono::DateTime<Z>) -> chrono::NaiveDateTime;
pub uninterp spec fn day(t: chrono::NaiveDateTime) -> chrono::NaiveDate;
pub open spec fn day_in<Z: chrono::TimeZone>(t: chrono::DateTime<chrono::FixedOffset>, z: Z) -> chrono::NaiveDate { day(local_time(moved(t, z))) }
pub assume_specification<Tz, Tz2> [chrono::DateTime::<Tz>::with_timezone] (t: &chrono::DateTime<Tz>, z: &Tz2) -> (r: chrono::DateTime<Tz2>) where Tz: chrono::TimeZone, Tz2: chrono::TimeZone, ensures r == moved(*t, *z);
pub assume_specification<Tz> [chrono::DateTime::<Tz>::naive_local] (t: &chrono::DateTime<Tz>) -> (r: chrono::NaiveDateTime) where Tz: chrono::TimeZone, ensures r == local_time(*t);
pub assume_specification [chrono::NaiveDateTime::date] (t: &chrono::NaiveDateTime) -> (r: chrono::NaiveDate) ensures r == day(*t);
pub assume_specification [chrono::NaiveDateTime::new] (d: chrono::NaiveDate, t: chrono::NaiveTime) -> (r: chrono::NaiveDateTime) ensures r == date_time(d, t);
#[verifier::external_body]
pub fn from_local(z: &chrono::FixedOffset, t: &chrono::NaiveDateTime) -> (r: chrono::LocalResult<chrono::DateTime<chrono::FixedOffset>>)
    ensures r == chrono::LocalResult::Single(instant(*z, *t))
{ chrono::TimeZone::from_local_datetime(z, t) }
/// Instants are compared as such, whatever their offsets.
pub uninterp spec fn same_instant(a: chrono::DateTime<chrono::FixedOffset>, b: chrono::DateTime<chrono::FixedOffset>) -> bool;
#[verifier::external_body]
pub fn opt_str(o: &Option<String>) -> (r: Option<&str>) ensures r is Some == o is Some, r is Some ==> r->0@ == o->0@ { o.as_deref() }
pub open spec fn concat<T>(s: Seq<Seq<T>>) -> Seq<T>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { concat(s.drop_last()) + s.last() } }

/// A sequence cut into its maximal runs of neighbours with equal keys, each with the key of its first element.
pub open spec fn flat<K, T>(gs: Seq<(K, Vec<T>)>) -> Seq<T>
    decreases gs.len()
{ if gs.len() == 0 { Seq::empty() } else { flat(gs.drop_last()) + gs.last().1@ } }
pub open spec fn runs<K: PartialEq, T>(s: Seq<T>, key: spec_fn(T) -> K, gs: Seq<(K, Vec<T>)>) -> bool {
    &&& flat(gs) == s
    &&& forall|g: int| 0 <= g < gs.len() ==> (#[trigger] gs[g]).1@.len() > 0 && gs[g].0 == key(gs[g].1@[0])
    &&& forall|g: int, i: int| 0 <= g < gs.len() && 0 < i < gs[g].1@.len() ==> #[trigger] key(gs[g].1@[i]).eq_spec(&key(gs[g].1@[i - 1]))
    &&& forall|g: int| 0 < g < gs.len() ==> !(#[trigger] key(gs[g].1@[0])).eq_spec(&key(gs[g - 1].1@.last()))
}
/// `v.into_iter().chunk_by(key)`, every group collected.
#[verifier::external_body]
pub fn chunks<K: PartialEq, T, F: Fn(&T) -> K>(v: Vec<T>, key: F, Ghost(k): Ghost<spec_fn(T) -> K>) -> (gs: Vec<(K, Vec<T>)>)
    requires forall|t: T| #[trigger] key.requires((&t,)), forall|t: T, r: K| #[trigger] key.ensures((&t,), r) ==> r == k(t),
    ensures runs(v@, k, gs@)
{ itertools::Itertools::chunk_by(v.into_iter(), |t| key(t)).into_iter().map(|(k, g)| (k, g.collect())).collect() }

/// `v.get_mut(i)`
#[verifier::external_body]
pub fn vec_get_mut<'a, T>(v: &'a mut Vec<T>, i: usize) -> (r: Option<&'a mut T>)
    ensures
        r is Some <==> i < old(v)@.len(),
        r matches Some(x) ==> *x == old(v)@[i as int] && final(v)@ == old(v)@.update(i as int, *final(x)),
        r is None ==> final(v)@ == old(v)@,
{ v.get_mut(i) }
pub broadcast axiom fn ax_pat_char(c: char) ensures #[trigger] pat_seq::<char>(c) == seq![c];
/// Every occurrence of a text replaced.
pub uninterp spec fn replaced(s: Seq<char>, p: Seq<char>, t: Seq<char>) -> Seq<char>;
pub axiom fn ax_replaced_absent(s: Seq<char>, p: Seq<char>, t: Seq<char>) ensures !has_sub(s, p) ==> replaced(s, p, t) == s;
pub assume_specification<P: core::str::pattern::Pattern> [str::replace::<P>] (s: &str, p: P, t: &str) -> (r: String) ensures r@ == replaced(s@, pat_seq(p), t@);
pub uninterp spec fn parsed_dec(s: Seq<char>) -> Option<rust_decimal::Decimal>;
pub assume_specification [<rust_decimal::Decimal as std::str::FromStr>::from_str] (s: &str) -> (r: Result<rust_decimal::Decimal, <rust_decimal::Decimal as std::str::FromStr>::Err>)
    ensures r is Ok <==> parsed_dec(s@) is Some, r matches Ok(d) ==> d == parsed_dec(s@)->0;
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExDecError(rust_decimal::Error);
pub uninterp spec fn parsed_date(s: Seq<char>, format: Seq<char>) -> Option<chrono::NaiveDate>;
pub assume_specification [chrono::NaiveDate::parse_from_str] (s: &str, f: &str) -> (r: Result<chrono::NaiveDate, chrono::ParseError>)
    ensures r is Ok <==> parsed_date(s@, f@) is Some, r matches Ok(d) ==> d == parsed_date(s@, f@)->0;
pub uninterp spec fn parsed_time(s: Seq<char>, format: Seq<char>) -> Option<chrono::NaiveTime>;
pub assume_specification [chrono::NaiveTime::parse_from_str] (s: &str, f: &str) -> (r: Result<chrono::NaiveTime, chrono::ParseError>)
    ensures r is Ok <==> parsed_time(s@, f@) is Some, r matches Ok(d) ==> d == parsed_time(s@, f@)->0;
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExChronoError(chrono::ParseError);
pub assume_specification [i32::saturating_add] (a: i32, b: i32) -> (r: i32)
    ensures r == (if a + b > i32::MAX { i32::MAX as int } else if a + b < i32::MIN { i32::MIN as int } else { a + b });

/// The parts of a date read so far: `year`, `month` and `day` are the parts of these names, and `plain` says that there are no others.
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExParsed(chrono::format::Parsed);
pub uninterp spec fn p_year(p: chrono::format::Parsed) -> Option<i32>;
pub uninterp spec fn p_month(p: chrono::format::Parsed) -> Option<u32>;
pub uninterp spec fn p_day(p: chrono::format::Parsed) -> Option<u32>;
pub uninterp spec fn p_plain(p: chrono::format::Parsed) -> bool;
pub struct Ymd { pub y: Option<i32>, pub m: Option<u32>, pub d: Option<u32> }
pub open spec fn ymd(p: chrono::format::Parsed) -> Ymd { Ymd { y: p_year(p), m: p_month(p), d: p_day(p) } }
/// The day of these parts, if they name one.
pub uninterp spec fn day_of(p: Ymd) -> Option<chrono::NaiveDate>;
pub assume_specification [<chrono::format::Parsed as Default>::default] () -> (r: chrono::format::Parsed)
    ensures p_plain(r), ymd(r) == (Ymd { y: None, m: None, d: None });
pub assume_specification [chrono::format::Parsed::to_naive_date] (p: &chrono::format::Parsed) -> (r: Result<chrono::NaiveDate, chrono::ParseError>)
    ensures p_plain(*p) ==> (r is Ok <==> day_of(ymd(*p)) is Some), p_plain(*p) && r is Ok ==> day_of(ymd(*p)) == Some(r->Ok_0);
#[verifier::external_body]
pub fn no_year(p: &mut chrono::format::Parsed) ensures p_plain(*final(p)) == p_plain(*old(p)), ymd(*final(p)) == (Ymd { y: None, ..ymd(*old(p)) }) { p.year = None; }
#[verifier::external_body]
pub fn no_month(p: &mut chrono::format::Parsed) ensures p_plain(*final(p)) == p_plain(*old(p)), ymd(*final(p)) == (Ymd { m: None, ..ymd(*old(p)) }) { p.month = None; }
#[verifier::external_body]
pub fn no_day(p: &mut chrono::format::Parsed) ensures p_plain(*final(p)) == p_plain(*old(p)), ymd(*final(p)) == (Ymd { d: None, ..ymd(*old(p)) }) { p.day = None; }
#[verifier::external_body]
pub fn year_of(p: &chrono::format::Parsed) -> (r: Option<i32>) ensures r == p_year(*p) { p.year }
/// The parts of a date that are read, and what texts mean as such.
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExItem<'a>(chrono::format::Item<'a>);
pub enum Part { Day, Month, Year, Other }
pub uninterp spec fn part_of(i: chrono::format::Item) -> Part;
pub uninterp spec fn num_part(p: Part, s: Seq<char>) -> Option<int>;
pub axiom fn ax_num_part(s: Seq<char>)
    ensures
        num_part(Part::Year, s) matches Some(n) ==> i32::MIN <= n <= i32::MAX,
        num_part(Part::Month, s) matches Some(n) ==> 1 <= n <= 12,
        num_part(Part::Day, s) matches Some(n) ==> 1 <= n <= 31;
#[verifier::external_body]
pub fn day_part<'a>() -> (r: chrono::format::Item<'a>) ensures part_of(r) is Day { chrono::format::Item::Numeric(chrono::format::Numeric::Day, chrono::format::Pad::Zero) }
#[verifier::external_body]
pub fn month_part<'a>() -> (r: chrono::format::Item<'a>) ensures part_of(r) is Month { chrono::format::Item::Fixed(chrono::format::Fixed::ShortMonthName) }
#[verifier::external_body]
pub fn year_part<'a>() -> (r: chrono::format::Item<'a>) ensures part_of(r) is Year { chrono::format::Item::Numeric(chrono::format::Numeric::Year, chrono::format::Pad::None) }
/// What reading a text as a part of a date adds to parts that do not have it yet.
pub open spec fn with_part(p: Ymd, k: Part, s: Seq<char>) -> Option<Ymd> {
    match num_part(k, s) {
        None => None,
        Some(n) => match k { Part::Day => Some(Ymd { d: Some(n as u32), ..p }), Part::Month => Some(Ymd { m: Some(n as u32), ..p }), _ => Some(Ymd { y: Some(n as i32), ..p }) },
    }
}
pub open spec fn lacks(p: Ymd, k: Part) -> bool { match k { Part::Day => p.d is None, Part::Month => p.m is None, Part::Year => p.y is None, Part::Other => false } }
#[verifier::external_body]
pub fn parse_item<'a>(p: &mut chrono::format::Parsed, s: &str, parts: &[chrono::format::Item<'a>; 1]) -> (r: Result<(), anyhow::Error>)
    ensures
        p_plain(*old(p)) && lacks(ymd(*old(p)), part_of(parts@[0])) ==> {
            &&& r is Ok <==> with_part(ymd(*old(p)), part_of(parts@[0]), s@) is Some
            &&& r is Ok ==> p_plain(*final(p)) && with_part(ymd(*old(p)), part_of(parts@[0]), s@) == Some(ymd(*final(p)))
        },
{ chrono::format::parse(p, s, parts.iter().cloned()).map_err(Into::into) }
/// `(a..=b).contains(&x)`
#[verifier::external_body]
pub fn incl_contains(a: i32, b: i32, x: &i32) -> (r: bool) ensures r == (a <= *x <= b) { (a..=b).contains(x) }
/// `v.iter().skip(n)`, collected.
#[verifier::external_body]
pub fn skipped<T>(v: &Vec<T>, n: usize) -> (r: Vec<&T>)
    ensures r@.unref() == (if n <= v@.len() { v@.skip(n as int) } else { Seq::empty() })
{ v.iter().skip(n).collect() }
pub broadcast axiom fn ax_string_ref_obeys() ensures #[trigger] <String as PartialEqSpec<&str>>::obeys_eq_spec();
pub broadcast axiom fn ax_string_ref_eq(a: String, b: &str) ensures #[trigger] <String as PartialEqSpec<&str>>::eq_spec(&a, &b) == (a@ == b@);

// ------------------------------------------------------------------ errors
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExError(anyhow::Error);
#[verifier::external_body]
pub fn verr() -> anyhow::Error { anyhow::anyhow!("") }

// ------------------------------------------------------------------ text output (lowered format!)
#[verifier::external_trait_specification]
pub trait ExDisplay: std::marker::PointeeSized { type ExternalTraitSpecificationFor: std::fmt::Display; }
/// The text `Display` gives for a value.
pub uninterp spec fn disp<T: ?Sized>(t: &T) -> Seq<char>;
pub broadcast axiom fn ax_disp_str(s: &str) ensures #[trigger] disp::<str>(s) == s@;
pub broadcast axiom fn ax_disp_string(s: &String) ensures #[trigger] disp::<String>(s) == s@;
pub broadcast axiom fn ax_disp_ref<T: ?Sized>(t: &T) ensures #[trigger] disp::<&T>(&t) == disp::<T>(t);
pub broadcast axiom fn ax_disp_mut<T: ?Sized>(t: &mut T) ensures #[trigger] disp::<&mut T>(&old(t)) == disp::<T>(&*old(t));
pub broadcast axiom fn ax_to_string_disp<T: std::fmt::Display + ?Sized>(t: &T, r: String) ensures #[trigger] vstd::string::to_string_from_display_ensures::<T>(t, r) ==> r@ == disp::<T>(t);
#[verifier::external_body]
pub fn push_lit(s: &mut String, l: &str) ensures final(s)@ == old(s)@ + l@ { s.push_str(l) }
#[verifier::external_body]
pub fn push_disp<T: std::fmt::Display + ?Sized>(s: &mut String, v: &T) ensures final(s)@ == old(s)@ + disp(v)
{ s.push_str(&format!("{}", v)) }

/// `uuid_b64::UuidB64::new().to_istring()`, as text: nothing is assumed about it.
#[verifier::external_body]
pub fn uuid_text() -> (r: String) { uuid_b64::UuidB64::new().to_istring().to_string() }

pub broadcast group ax {
    ax_pat_char, ax_dec_neg, ax_dec_neg_obeys, ax_dec_neg_req, ax_dec_neg_is,
    ax_date_eq_obeys, ax_date_eq, ax_into, ax_into_str, ax_into_string,
    ax_mk, ax_string_ext, ax_key_model, ax_set_contains, ax_set_differ, ax_map_contains, ax_map_maps, ax_map_removed, ax_pat_str,
    ax_to_string, ax_string_obeys, ax_string_eq, ax_str_obeys, ax_str_eq, ax_pa_eq, ax_ba_eq, ax_elems_set, ax_pairs_map,
    ax_date_key, ax_date_ord, ax_date_cmp, ax_idx_obeys, ax_idx_eq, ax_disp_str, ax_disp_string, ax_disp_ref, ax_disp_mut, ax_to_string_disp, ax_le_string, ax_le_pair, ax_string_ord, ax_string_str_obeys, ax_string_str_eq, ax_string_ref_obeys, ax_string_ref_eq, ax_str_string_obeys, ax_str_string_eq, ax_str_string_obeys2, ax_str_string_eq2, ax_from_str_obeys, ax_from_str, ax_status_obeys, ax_status_eq, ax_pat_string, ax_string_cmp, ax_blen, ax_path_of, ax_path_of_ref, ax_path_of_path, ax_path_key,
    vstd::std_specs::hash::group_hash_axioms,
}

} // verus!
