@file tags.rs
@wrap UNKNOWN_ACCOUNT CANDIDATE_FP_PREFIX FINGERPRINT_PREFIX TRANSACTION_SOURCE_KEY IMPORT_PEER IMPORT_SELF SEQ BANK ACCOUNT

@file comment.rs
@wrap Comment MAX_INLINE_TAG_LEN
@pubfields CommentBuilder
@add 
#[verifier::external_type_specification]
pub struct ExCommentBuilder(CommentBuilder);
pub open spec fn same_comment(a: Comment, b: Comment) -> bool { a.lines@ == b.lines@ && a.tags@ == b.tags@ && a.value_tags@ == b.value_tags@ }
pub assume_specification [<CommentBuilder as Clone>::clone] (b: &CommentBuilder) -> (r: CommentBuilder) ensures same_comment(r.comment, b.comment);
pub open spec fn txt<K: Into<String>>(k: K) -> String { <K as vstd::std_specs::convert::IntoSpec<String>>::into_spec(k) }
/// The fingerprint tags of a comment.
pub open spec fn fps(c: Comment) -> Set<String> { c.tags@.filter(|t: String| is_fp(t@)) }
pub open spec fn has_fp(c: Comment) -> bool { exists|fp: String| fps(c).contains(fp) }
/// `a` followed by the lines of `b` it does not hold yet.
pub open spec fn merged_lines(a: Seq<String>, b: Seq<String>) -> Seq<String>
    decreases b.len()
{
    if b.len() == 0 { a } else {
        let m = merged_lines(a, b.drop_last());
        if m.contains(b.last()) { m } else { m.push(b.last()) }
    }
}

pub proof fn lemma_merged_lines(a: Seq<String>, b: Seq<String>)
    ensures
        forall|x: String| #[trigger] merged_lines(a, b).contains(x) <==> a.contains(x) || b.contains(x),
        merged_lines(a, b).len() >= a.len(), merged_lines(a, b).take(a.len() as int) == a,
    decreases b.len(),
{
    let u = merged_lines(a, b);
    if b.len() == 0 { assert(u.take(a.len() as int) =~= a); }
    else {
        let d = b.drop_last(); let m = merged_lines(a, d); let y = b.last();
        lemma_merged_lines(a, d);
        assert(d.push(y) =~= b);
        assert forall|x: String| #[trigger] b.contains(x) <==> d.contains(x) || x == y by {
            if d.contains(x) { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(b[i] == x); }
            if b.contains(x) && x != y { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert(d[i] == x); }
            assert(b[b.len() - 1] == y);
        }
        if !m.contains(y) {
            assert(u == m.push(y));
            assert forall|x: String| #[trigger] u.contains(x) <==> m.contains(x) || x == y by {
                if m.contains(x) { let i = choose|i: int| 0 <= i < m.len() && m[i] == x; assert(u[i] == x); }
                if u.contains(x) && x != y { let i = choose|i: int| 0 <= i < u.len() && u[i] == x; assert(m[i] == x); }
                assert(u[m.len() as int] == y);
            }
        }
        assert(u.take(a.len() as int) =~= m.take(a.len() as int));
    }
}
pub proof fn lemma_merged_nothing(a: Seq<String>, b: Seq<String>)
    requires forall|x: String| #[trigger] b.contains(x) ==> a.contains(x),
    ensures merged_lines(a, b) == a,
    decreases b.len(),
{
    if b.len() > 0 {
        let d = b.drop_last();
        assert forall|x: String| #[trigger] d.contains(x) implies a.contains(x) by { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(b[i] == x); assert(b.contains(x)); }
        lemma_merged_nothing(a, d);
        assert(b[b.len() - 1] == b.last()); assert(b.contains(b.last()));
    }
}
/// The one form a comment is written in, as a function of its contents.
pub open spec fn is_short() -> spec_fn(String) -> bool { |t: String| blen(t@) <= 12 }
pub open spec fn is_long() -> spec_fn(String) -> bool { |t: String| !(blen(t@) <= 12) }
pub open spec fn short_tags(c: Comment) -> Set<String> { c.tags@.filter(is_short()) }
pub open spec fn long_tags(c: Comment) -> Set<String> { c.tags@.filter(is_long()) }
pub open spec fn group(s: Seq<char>) -> Seq<char> { ":"@ + s + ":"@ }
pub open spec fn short_lines(c: Comment) -> Seq<Seq<char>> {
    let s = sorted_of(short_tags(c));
    if s.len() == 0 { Seq::empty() } else { seq![group(joined(views(s), ":"@))] }
}
pub open spec fn long_lines(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|t: String| group(t@)) }
pub open spec fn tag_lines(c: Comment) -> Seq<Seq<char>> { short_lines(c) + long_lines(sorted_of(long_tags(c))) }
/// The first text line goes to the end of the first tag line.
pub open spec fn with_text(h: Seq<Seq<char>>, l: Seq<String>) -> Seq<Seq<char>>
    decreases l.len()
{
    if l.len() == 0 { h }
    else if l.len() == 1 && h.len() > 0 { h.update(0, h[0] + " "@ + trimmed(l[0]@)) }
    else { with_text(h, l.drop_last()).push(trimmed(l.last()@)) }
}
pub open spec fn value_line(c: Comment, k: String) -> Seq<char> { trimmed(k@) + ": "@ + trimmed(c.value_tags@[k]@) }
pub open spec fn value_lines(c: Comment, ks: Seq<String>) -> Seq<Seq<char>> { ks.map_values(|k: String| value_line(c, k)) }
pub open spec fn out_lines(c: Comment) -> Seq<Seq<char>> {
    with_text(tag_lines(c), c.lines@) + value_lines(c, sorted_of(c.value_tags@.dom()))
}
pub open spec fn written(c: Comment) -> Option<Seq<char>> {
    if out_lines(c).len() == 0 { None } else { Some(joined(out_lines(c), "\n"@)) }
}
/// A comment written from exactly these tags and values.
pub open spec fn holds(c: Comment, t: Set<String>, v: Map<String, String>) -> bool { c.lines@.len() == 0 && c.tags@ == t && c.value_tags@ == v }
pub open spec fn says(o: Option<String>, t: Set<String>, v: Map<String, String>) -> bool { exists|c: Comment| #[trigger] holds(c, t, v) && opt_view(o) == written(c) }
pub open spec fn opt_view(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
/// The two expressions comments are read with: a line that is a value tag, and a run of flag tags in a line.
pub open spec fn value_rx() -> regex::Regex { re_of(r"^[ ]*([^: ]+):(?:[ ]+(.+))?$"@) }
pub open spec fn flag_rx() -> regex::Regex { re_of(r":((?:[^: ]+:)+)"@) }
pub open spec fn spaces(s: Seq<char>, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && s[i] == ' ' { spaces(s, i + 1) } else { i } }
pub open spec fn word_end(s: Seq<char>, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && s[i] != ' ' && s[i] != ':' { word_end(s, i + 1) } else { i } }
/// The key and the value of a line that is a value tag: `key:` or `key: value`.
pub open spec fn value_tag(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    let a = spaces(s, 0); let b = word_end(s, a); let v = spaces(s, b + 1);
    if !(a < b < s.len() && s[b] == ':') { None }
    else if b + 1 == s.len() { Some((s.subrange(a, b), Seq::empty())) }
    else if v < s.len() { if v > b + 1 { Some((s.subrange(a, b), s.skip(v))) } else { None } }
    else if v > b + 2 { Some((s.subrange(a, b), seq![' '])) }
    else { None }
}
pub open spec fn flags_end(s: Seq<char>, i: int) -> int decreases s.len() - i { let j = word_end(s, i); if 0 <= i < j < s.len() && s[j] == ':' { flags_end(s, j + 1) } else { i } }
/// The runs of flag tags `:a:b:` of a line.
pub open spec fn flag_runs(s: Seq<char>, i: int) -> Seq<(int, int)>
    decreases s.len() - i
{
    if !(0 <= i < s.len()) { Seq::empty() }
    else if s[i] == ':' && i + 1 < flags_end(s, i + 1) <= s.len() { seq![(i, flags_end(s, i + 1))] + flag_runs(s, flags_end(s, i + 1)) }
    else { flag_runs(s, i + 1) }
}
pub axiom fn ax_value_rx(s: Seq<char>)
    requires !s.contains('\n'),
    ensures
        captured(value_rx(), s) is Some <==> value_tag(s) is Some,
        captured(value_rx(), s) matches Some(g) ==> g.len() == 3 && g[1] == Some((value_tag(s)->0).0)
            && (match g[2] { Some(v) => v == (value_tag(s)->0).1, None => (value_tag(s)->0).1.len() == 0 });
pub open spec fn run_spans(s: Seq<char>, r: (int, int), g: Seq<Option<Span>>) -> bool {
    g.len() == 2 && g[0] == Some(Span { hay: s, a: r.0, b: r.1 }) && g[1] == Some(Span { hay: s, a: r.0 + 1, b: r.1 })
}
pub axiom fn ax_flag_rx(s: Seq<char>)
    ensures
        found(flag_rx(), s).len() == flag_runs(s, 0).len(),
        forall|i: int| 0 <= i < flag_runs(s, 0).len() ==> run_spans(s, flag_runs(s, 0)[i], #[trigger] found(flag_rx(), s)[i]);
/// The runs of a line follow each other in it.
pub open spec fn runs_in(s: Seq<char>, r: Seq<(int, int)>) -> bool { forall|k: int| 0 <= k < r.len() ==> run_end(r, k) <= (#[trigger] r[k]).0 < r[k].1 <= s.len() }
pub open spec fn run_end(r: Seq<(int, int)>, k: int) -> int { if k <= 0 { 0 } else { r[k - 1].1 } }
pub proof fn lemma_word_end(s: Seq<char>, i: int)
    requires 0 <= i <= s.len(),
    ensures i <= word_end(s, i) <= s.len(),
    decreases s.len() - i,
{ if i < s.len() && s[i] != ' ' && s[i] != ':' { lemma_word_end(s, i + 1); } }
pub proof fn lemma_flags_end(s: Seq<char>, i: int)
    requires 0 <= i <= s.len(),
    ensures i <= flags_end(s, i) <= s.len(),
    decreases s.len() - i,
{ lemma_word_end(s, i); let j = word_end(s, i); if i < j < s.len() && s[j] == ':' { lemma_flags_end(s, j + 1); } }
pub proof fn lemma_runs(s: Seq<char>, i: int)
    requires 0 <= i <= s.len(),
    ensures runs_in(s, flag_runs(s, i)), flag_runs(s, i).len() > 0 ==> flag_runs(s, i)[0].0 >= i,
    decreases s.len() - i,
{
    if i < s.len() {
        let e = flags_end(s, i + 1);
        lemma_flags_end(s, i + 1);
        if s[i] == ':' && e > i + 1 {
            lemma_runs(s, e);
            let t = flag_runs(s, e); let r = flag_runs(s, i);
            assert(r =~= seq![(i, e)] + t);
            assert forall|k: int| 0 <= k < r.len() implies run_end(r, k) <= (#[trigger] r[k]).0 < r[k].1 <= s.len() by {
                if k > 0 { assert(r[k] == t[k - 1]); if k > 1 { assert(r[k - 1] == t[k - 2]); } }
            }
        } else { lemma_runs(s, i + 1); }
    }
}
pub proof fn lemma_run_end(s: Seq<char>, r: Seq<(int, int)>, k: int)
    requires runs_in(s, r), 0 <= k <= r.len(),
    ensures 0 <= run_end(r, k) <= s.len(), k < r.len() ==> run_end(r, k) <= r[k].0 < r[k].1 <= s.len(),
    decreases k,
{ if k > 0 { lemma_run_end(s, r, k - 1); assert(run_end(r, k - 1) <= r[k - 1].0 < r[k - 1].1 <= s.len()); } if k < r.len() { assert(run_end(r, k) <= r[k].0); } }
pub proof fn lemma_set_push<T>(s: Seq<T>, x: T)
    ensures s.push(x).to_set() == s.to_set().insert(x),
{
    let a = s.push(x);
    assert forall|y: T| #[trigger] a.to_set().contains(y) <==> s.to_set().insert(x).contains(y) by {
        if a.contains(y) { let i = choose|i: int| 0 <= i < a.len() && a[i] == y; if i < s.len() { assert(s[i] == y); assert(s.contains(y)); } }
        if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(a[i] == y); assert(a.contains(y)); }
        assert(a[s.len() as int] == x); assert(a.contains(x));
    }
    assert(a.to_set() =~= s.to_set().insert(x));
}
/// The text in a part of a line: none if it is blank.
pub open spec fn text_in(s: Seq<char>, a: int, b: int) -> Seq<Seq<char>> { let t = trimmed(s.subrange(a, b)); if t.len() > 0 { seq![t] } else { Seq::empty() } }
pub open spec fn run_tags(s: Seq<char>, r: (int, int)) -> Seq<String> { pieces(end_cut(s.subrange(r.0 + 1, r.1), ':'), ':').map_values(|t: Seq<char>| mk(t)) }
/// What comes before the `k`th run: the texts between the runs, and the tags in them.
pub open spec fn texts(s: Seq<char>, r: Seq<(int, int)>, k: int) -> Seq<Seq<char>> decreases k { if k <= 0 { Seq::empty() } else { texts(s, r, k - 1) + text_in(s, run_end(r, k - 1), r[k - 1].0) } }
pub open spec fn flags_of(s: Seq<char>, r: Seq<(int, int)>, k: int) -> Set<String> decreases k { if k <= 0 { Set::empty() } else { flags_of(s, r, k - 1).union(run_tags(s, r[k - 1]).to_set()) } }
/// What reading a comment gives, line by line.
pub ghost struct Read { pub lines: Seq<Seq<char>>, pub tags: Set<String>, pub values: Map<String, String> }
pub open spec fn read_line(o: Read, s: Seq<char>) -> Read {
    let r = flag_runs(s, 0);
    match value_tag(s) {
        Some((k, v)) => Read { values: o.values.insert(mk(k), mk(v)), ..o },
        None => Read { lines: o.lines + texts(s, r, r.len() as int) + text_in(s, run_end(r, r.len() as int), s.len() as int), tags: o.tags.union(flags_of(s, r, r.len() as int)), ..o },
    }
}
pub open spec fn read_lines(s: Seq<Seq<char>>) -> Read
    decreases s.len()
{ if s.len() == 0 { Read { lines: Seq::empty(), tags: Set::empty(), values: Map::empty() } } else { read_line(read_lines(s.drop_last()), s.last()) } }
pub open spec fn contents(c: Comment) -> Read { Read { lines: views(c.lines@), tags: c.tags@, values: c.value_tags@ } }
pub open spec fn parsed(s: Option<Seq<char>>, c: Comment) -> bool {
    match s { None => contents(c) == read_lines(Seq::empty()), Some(t) => contents(c) == read_lines(pieces(t, '\n')) }
}
/// Nothing to write: no comment.
pub proof fn lemma_written_none(c: Comment)
    requires c.lines@.len() == 0, c.tags@ == Set::<String>::empty(), c.value_tags@ == Map::<String, String>::empty(),
    ensures written(c) is None,
{
    assert(short_tags(c) =~= Set::<String>::empty()); assert(long_tags(c) =~= Set::<String>::empty());
    assert(c.value_tags@.dom() =~= Set::<String>::empty());
    lemma_sorted_empty();
}
pub proof fn lemma_sorted_empty()
    ensures sorted_of(Set::<String>::empty()).len() == 0,
{
    let e = Seq::<String>::empty();
    assert(e.to_set() =~= Set::<String>::empty());
    assert(lists(e, Set::<String>::empty()));
    lemma_lists_unique(e, sorted_of(Set::<String>::empty()), Set::<String>::empty());
}
/// Two comments of the same contents are written the same.
pub proof fn lemma_written_same(a: Comment, b: Comment)
    requires a.lines@ == b.lines@, a.tags@ == b.tags@, a.value_tags@ == b.value_tags@,
    ensures written(a) == written(b),
{
    assert(value_lines(a, sorted_of(a.value_tags@.dom())) =~= value_lines(b, sorted_of(b.value_tags@.dom())));
}
pub proof fn lemma_short(a: Seq<String>, c: Comment, b: Seq<String>)
    requires a.no_duplicates(), a.to_set() == c.tags@, 
        exists|p: Seq<int>| #[trigger] permuted(a.filter(is_short()), p, b),
        forall|i: int, j: int| 0 <= i < j < b.len() ==> le::<String>(#[trigger] b[i], #[trigger] b[j]),
    ensures b == sorted_of(short_tags(c)),
{ lemma_filter(a, is_short()); lemma_sorted(a.filter(is_short()), b, short_tags(c)); }
pub proof fn lemma_long(a: Seq<String>, c: Comment, b: Seq<String>)
    requires a.no_duplicates(), a.to_set() == c.tags@, 
        exists|p: Seq<int>| #[trigger] permuted(a.filter(is_long()), p, b),
        forall|i: int, j: int| 0 <= i < j < b.len() ==> le::<String>(#[trigger] b[i], #[trigger] b[j]),
    ensures b == sorted_of(long_tags(c)),
{ lemma_filter(a, is_long()); lemma_sorted(a.filter(is_long()), b, long_tags(c)); }
pub open spec fn parts(a: Seq<String>, c: Comment, x: Seq<String>, y: Seq<String>) -> bool {
    a.no_duplicates() && a.to_set() == c.tags@ && x == a.filter(is_short()) && y == a.filter(is_long())
}
pub proof fn lemma_empty_tags(c: Comment)
    ensures c.tags@.len() == 0 ==> tag_lines(c) =~= Seq::<Seq<char>>::empty(),
{
    if c.tags@.len() == 0 {
        assert(c.tags@ =~= Set::<String>::empty());
        assert(short_tags(c) =~= Set::<String>::empty()); assert(long_tags(c) =~= Set::<String>::empty());
        lemma_sorted_empty();
    }
}
pub open spec fn keys(e: Seq<(String, String)>) -> Seq<String> { e.map_values(|x: (String, String)| x.0) }
/// The entries of a map, sorted, come in the order of their keys.
pub proof fn lemma_entries(a: Seq<(String, String)>, m: Map<String, String>, b: Seq<(String, String)>)
    requires
        forall|i: int| 0 <= i < a.len() ==> m.contains_key((#[trigger] a[i]).0) && m[a[i].0] == a[i].1,
        forall|k: String| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == k,
        forall|i: int, j: int| 0 <= i < j < a.len() ==> (#[trigger] a[i]).0 != (#[trigger] a[j]).0,
        exists|p: Seq<int>| #[trigger] permuted(a, p, b),
        forall|i: int, j: int| 0 <= i < j < b.len() ==> le::<(String, String)>(#[trigger] b[i], #[trigger] b[j]),
    ensures
        keys(b) == sorted_of(m.dom()),
        forall|i: int| 0 <= i < b.len() ==> m.contains_key((#[trigger] b[i]).0) && m[b[i].0] == b[i].1,
{
    broadcast use ax_le_pair;
    let p = choose|p: Seq<int>| #[trigger] permuted(a, p, b);
    let ks = keys(b);
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies ks[i] != ks[j] && lex_le(ks[i]@, ks[j]@) by {
        assert(b[i] == a[p[i]]); assert(b[j] == a[p[j]]); assert(p[i] != p[j]);
        if p[i] < p[j] { assert(a[p[i]].0 != a[p[j]].0); } else { assert(a[p[j]].0 != a[p[i]].0); }
        assert(le::<(String, String)>(b[i], b[j]));
    }
    assert forall|i: int| 0 <= i < b.len() implies m.contains_key((#[trigger] b[i]).0) && m[b[i].0] == b[i].1 by { assert(b[i] == a[p[i]]); }
    assert forall|z: String| ks.to_set().contains(z) <==> m.dom().contains(z) by {
        if ks.contains(z) { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == z; assert(b[i].0 == z); }
        if m.dom().contains(z) {
            assert(m.contains_key(z));
            let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == z;
            lemma_perm_onto(p, a.len() as int, i);
            let j = choose|j: int| 0 <= j < a.len() && p[j] == i;
            assert(b[j] == a[i]); assert(ks[j] == z); assert(ks.contains(z));
        }
    }
    assert(ks.to_set() =~= m.dom());
    assert(lists(ks, m.dom()));
    lemma_lists_unique(ks, sorted_of(m.dom()), m.dom());
}

@fn Comment::from_opt_comment
@ret r
@fattr #[verifier::loop_isolation(false)]
@fattr #[verifier::spinoff_prover]
@fattr #[verifier::rlimit(40)]
@spec
    ensures parsed(match $1 { Some(s) => Some(s@), None => None }, r),
@safter `let mut result`
    proof { assert(contents(result) =~= read_lines(Seq::empty())) by { assert(views(result.lines@) =~= Seq::<Seq<char>>::empty()); } }
@before `for line in`
    proof { assert(pieces(comment@, '\n').take(0) =~= Seq::<Seq<char>>::empty()); }
@loopafter 0
    proof { let p = pieces(comment@, '\n'); assert(p.take(p.len() as int) =~= p); }
@sbefore `if leading_start < line.len()`
    proof {
        let e = r.len() as int;
        lemma_run_end(s, r, e); lemma_prefix(s, run_end(r, e), s.len() as int);
        assert(s.take(s.len() as int) =~= s);
    }
    let ghost l9 = views(result.lines@);
@replace `comment.split('\n')`
crate::vx::str_split(comment, '\n')
@replace `kv_parts .get(1)`
crate::vx::cap_get(&kv_parts, 1)
@replace `kv_parts.get(2)`
crate::vx::cap_get(&kv_parts, 2)
@replace `flag_group.get(0)`
crate::vx::cap_get(&flag_group, 0)
@replace `flag_group.get(1)`
crate::vx::cap_get(&flag_group, 1)
@replace `flags.as_str().trim_end_matches(':').split(':')`
crate::vx::str_split(crate::vx::str_end_cut(flags.as_str(), ':'), ':')
@replace `line[leading_start..leading_end].trim()`
crate::vx::str_cut(line, leading_start, leading_end, Ghost((run_end(r, k), r[k].0))).trim()
@replace `line[leading_start..].trim()`
crate::vx::str_cut(line, leading_start, crate::vx::str_len(line), Ghost((run_end(r, r.len() as int), s.len() as int))).trim()
@replace `leading_start < line.len()`
leading_start < crate::vx::str_len(line)
@replace `crate::vx::rx(r":((?:[^: ]+:)+)").captures_iter(line)`
crate::vx::captures_all(crate::vx::rx(r":((?:[^: ]+:)+)"), line)
@closure map
regex::Match<'_>
-> (t: &str) ensures t@ == span_text(span(#1))
@loop 0
    invariant
        str_views(it.seq()) == pieces(comment@, '\n'),
        contents(result) == read_lines(pieces(comment@, '\n').take(it.index() as int)),
@loopbegin 0
    let ghost s = line@;
    let ghost r = flag_runs(s, 0);
    let ghost o = read_lines(pieces(comment@, '\n').take(it.index() as int));
    proof {
        assert(str_views(it.seq())[it.index() as int] == s);
        lemma_pieces(comment@, '\n');
        ax_value_rx(s); ax_flag_rx(s); lemma_runs(s, 0);
        let p = pieces(comment@, '\n');
        assert(p.take(it.index() + 1).drop_last() =~= p.take(it.index() as int));
        assert(p.take(it.index() + 1).last() == s);
    }
@sbefore `result.value_tags.insert(`
    proof { reveal_strlit(""); assert(key@ =~= (value_tag(s)->0).0); assert(value@ =~= (value_tag(s)->0).1); }
@safter `result.value_tags.insert(`
    proof { assert(contents(result) == read_line(o, s)); }
@safter `if leading_start < crate::vx::str_len(line)`
    proof {
        let e = r.len() as int;
        let t = trimmed(s.subrange(run_end(r, e), s.len() as int));
        if run_end(r, e) == s.len() { assert(s.subrange(run_end(r, e), s.len() as int) =~= Seq::<char>::empty()); assert(t.len() == 0); }
        assert(views(result.lines@) =~= l9 + text_in(s, run_end(r, e), s.len() as int));
        assert(views(result.lines@) =~= read_line(o, s).lines);
        assert(contents(result) == read_line(o, s));
    }
@sbefore `leading_start = all.end()`
    proof {
        let t = trimmed(s.subrange(run_end(r, k), r[k].0));
        if run_end(r, k) == r[k].0 { assert(s.subrange(run_end(r, k), r[k].0) =~= Seq::<char>::empty()); assert(t.len() == 0); }
        assert(views(result.lines@) =~= l0 + text_in(s, run_end(r, k), r[k].0));
        assert(views(result.lines@) =~= o.lines + texts(s, r, k + 1));
    }
@loopend 1
    proof {
        assert(run_tags(s, r[k]).take(run_tags(s, r[k]).len() as int) =~= run_tags(s, r[k]));
        assert(result.tags@ =~= o.tags.union(flags_of(s, r, k + 1)));
    }
@loop 1
    it = it2
    invariant
        it2.seq().len() == r.len(),
        forall|i: int| 0 <= i < r.len() ==> group_spans(#[trigger] it2.seq()[i]) == found(flag_rx(), s)[i],
        leading_start == blen(s.take(run_end(r, it2.index() as int))),
        result.value_tags@ == o.values,
        views(result.lines@) == o.lines + texts(s, r, it2.index() as int),
        result.tags@ == o.tags.union(flags_of(s, r, it2.index() as int)),
@loopbegin 1
    let ghost k = it2.index() as int;
    let ghost l0 = views(result.lines@);
    let ghost t0 = result.tags@;
    proof {
        assert(flag_group == it2.seq()[k]);
        assert(run_spans(s, r[k], found(flag_rx(), s)[k]));
        ax_group_spans(flag_group);
        lemma_run_end(s, r, k);
        lemma_prefix(s, run_end(r, k), r[k].0);
        assert(cut_at(s, leading_start as int, blen(s.take(r[k].0)) as int, run_end(r, k), r[k].0));
    }
@loop 2
    it = it3
    invariant
        str_views(it3.seq()).map_values(|t: Seq<char>| mk(t)) == run_tags(s, r[k]),
        result.tags@ == t0.union(run_tags(s, r[k]).take(it3.index() as int).to_set()),
@loopbegin 2
    let ghost j = it3.index() as int;
    let ghost t1 = result.tags@;
    proof {
        assert(str_views(it3.seq())[j] == flag@);
        assert(run_tags(s, r[k])[j] == mk(flag@));
    }
@loopend 2
    proof {
        let w = run_tags(s, r[k]);
        assert(w.take(j + 1) =~= w.take(j).push(mk(flag@)));
        assert(result.tags@ == t1.insert(mk(flag@)));
        lemma_set_push(w.take(j), mk(flag@));
        assert(result.tags@ =~= t0.union(w.take(j + 1).to_set()));
    }
@props C03 C05 C07 C09 C15 C17 C18
@fn Comment::from_opt_string
@ret r
@spec
    ensures parsed(opt_view(*$1), r),
@props C05 C09 C17 C18

@fn trim_string
@ret r
@spec
    ensures r@ == trimmed($1@),
@begin
    proof { lemma_trim_len($1@); }
@props C09

@fn Comment::into_opt_comment
@ret r
@spec
    ensures opt_view(r) == written(self),
@begin
    let ghost c = self;
    proof { reveal_strlit(" "); lemma_sorted_empty(); lemma_empty_tags(c); }
@replace `self.tags.into_iter()`
crate::vx::hs_into_vec(self.tags)
@replace `self.value_tags.into_iter().collect()`
crate::vx::hm_into_vec(self.value_tags)
@before `if !short_tags.is_empty()`
    let ghost a = choose|a: Seq<String>| parts(a, c, short_tags@, long_tags@);
    proof {
        assert(permuted(Seq::<String>::empty(), Seq::<int>::empty(), Seq::<String>::empty()));
        if short_tags@.len() == 0 { assert(short_tags@ =~= Seq::<String>::empty()); lemma_short(a, c, short_tags@); }
    }
@after `crate::vx::vec_sort(&mut short_tags);`
    proof { lemma_short(a, c, short_tags@); assert(short_tags@.len() > 0); }
@after `crate::vx::vec_sort(&mut long_tags);`
    proof { lemma_long(a, c, long_tags@); assert(views(out_lines@) =~= short_lines(c)); }
@chain 0 partition
    invariant
        vx_it.seq().no_duplicates(), vx_it.seq().to_set() == c.tags@,
        vx_a@ == vx_it.seq().take(vx_it.index() as int).filter(is_short()),
        vx_b@ == vx_it.seq().take(vx_it.index() as int).filter(is_long()),
        vx_it.index() == vx_it.seq().len() ==> parts(vx_it.seq(), c, vx_a@, vx_b@),
        vx_it.index() == vx_it.seq().len() ==> exists|a: Seq<String>| parts(a, c, vx_a@, vx_b@),
---
    proof {
        lemma_take_filter(vx_it.seq(), vx_it.index() as int, is_short());
        lemma_take_filter(vx_it.seq(), vx_it.index() as int, is_long());
    }
---
    proof {
        assert(vx_it.seq().take(vx_it.seq().len() as int) =~= vx_it.seq());
        assert(vx_it.index() + 1 == vx_it.seq().len() ==> parts(vx_it.seq(), c, vx_a@, vx_b@));
    }
---
---
@chain 1 extend
    invariant
        vx_it.seq() == sorted_of(crate::comment::long_tags(c)),
        views(out_lines@) =~= short_lines(c) + long_lines(vx_it.seq().take(vx_it.index() as int)),
        vx_it.index() == vx_it.seq().len() ==> views(out_lines@) =~= tag_lines(c),
---
    let ghost o0 = views(out_lines@);
---
    proof {
        assert(out_lines@.last()@ =~= group(vx_it.seq()[vx_it.index() as int]@));
        assert(views(out_lines@) =~= o0.push(group(vx_it.seq()[vx_it.index() as int]@)));
        assert(long_lines(vx_it.seq().take(vx_it.index() + 1)) =~= long_lines(vx_it.seq().take(vx_it.index() as int)).push(group(vx_it.seq()[vx_it.index() as int]@)));
        assert(vx_it.seq().take(vx_it.index() + 1) =~= vx_it.seq().take(vx_it.index() as int).push(vx_it.seq()[vx_it.index() as int]));
        assert(vx_it.seq().take(vx_it.seq().len() as int) =~= vx_it.seq());
    }
@loop 2
    invariant
        it.seq() == c.lines@, vx_n0 == it.index(),
        views(out_lines@) =~= with_text(tag_lines(c), c.lines@.take(it.index() as int)),
        it.index() == it.seq().len() ==> views(out_lines@) =~= with_text(tag_lines(c), c.lines@),
@loopbegin 2
    let ghost o0 = views(out_lines@);
    let ghost ln = c.lines@.take(it.index() + 1);
    proof {
        reveal_strlit(" ");
        assert(ln.drop_last() =~= c.lines@.take(it.index() as int));
        assert(ln.last() == line);
        assert(c.lines@.take(c.lines@.len() as int) =~= c.lines@);
        if it.index() == 0 { assert(ln.drop_last().len() == 0); assert(o0 == tag_lines(c)); }
    }
@loopend 2
    proof {
        if it.index() == 0 && o0.len() > 0 {
            assert(out_lines@[0]@ =~= o0[0] + " "@ + trimmed(line@));
            assert(views(out_lines@) =~= o0.update(0, o0[0] + " "@ + trimmed(line@)));
        } else {
            assert(views(out_lines@) =~= o0.push(trimmed(line@)));
        }
    }
@before `let mut sorted_entries`
    let ghost base = views(out_lines@);
    proof { if c.lines@.len() == 0 { assert(c.lines@ =~= Seq::<String>::empty()); } }
@before `crate::vx::vec_sort(&mut sorted_entries);`
    let ghost e0 = sorted_entries@;
@after `crate::vx::vec_sort(&mut sorted_entries);`
    let ghost e = sorted_entries@;
    proof { lemma_entries(e0, c.value_tags@, e); }
@loop 3
    invariant
        it.seq() == e, keys(e) == sorted_of(c.value_tags@.dom()),
        forall|i: int| 0 <= i < e.len() ==> c.value_tags@.contains_key((#[trigger] e[i]).0) && c.value_tags@[e[i].0] == e[i].1,
        views(out_lines@) =~= base + value_lines(c, keys(e).take(it.index() as int)),
        it.index() == it.seq().len() ==> views(out_lines@) =~= base + value_lines(c, keys(e)),
@loopbegin 3
    let ghost o0 = views(out_lines@);
@loopend 3
    proof {
        assert(e[it.index() as int] == (k, v));
        assert(out_lines@.last()@ =~= value_line(c, k));
        assert(views(out_lines@) =~= o0.push(value_line(c, k)));
        assert(value_lines(c, keys(e).take(it.index() + 1)) =~= value_lines(c, keys(e).take(it.index() as int)).push(value_line(c, k)));
        assert(keys(e).take(it.index() + 1) =~= keys(e).take(it.index() as int).push(k));
        assert(keys(e).take(keys(e).len() as int) =~= keys(e));
    }
@props C05 C09 C18 C21

@fn Comment::new
@ret r
@spec
    ensures r.lines@.len() == 0, r.tags@ == Set::<String>::empty(), r.value_tags@ == Map::<String, String>::empty(),
@props C09 C05

@fn Comment::merge_from
@spec
    ensures
        final(self).lines@ == merged_lines(old(self).lines@, other.lines@),
        final(self).tags@ == old(self).tags@.union(other.tags@),
        final(self).value_tags@ == old(self).value_tags@.union_prefer_right(other.value_tags@),
@begin
    let ghost a0 = self.lines@;
    let ghost b0 = other.lines@;
@chain 0 any
    invariant_except_break
        !vx_r,
        forall|j: int| 0 <= j < vx_it.index() ==> self.lines@[j] != other_line,
    invariant
        vx_it.seq().unref() == self.lines@,
    ensures
        vx_r == (exists|j: int| 0 <= j < self.lines@.len() && self.lines@[j] == other_line),
---
    proof { assert(vx_it.seq().unref()[vx_it.index() as int] == self.lines@[vx_it.index() as int]); }
@loop 0
    invariant
        it.seq() == b0,
        self.lines@ == merged_lines(a0, b0.take(it.index() as int)),
        self.tags == old(self).tags, self.value_tags == old(self).value_tags,
@loopbegin 0
    let ghost l0 = self.lines@;
@loopafter 0
    proof { assert(b0.take(b0.len() as int) =~= b0); }
@loopend 0
    proof { assert(b0.take(it.index() + 1).drop_last() =~= b0.take(it.index() as int)); }
@props C05 C08

@fn Comment::builder
@ret r
@spec
    ensures r.comment.lines@.len() == 0, r.comment.tags@ == Set::<String>::empty(), r.comment.value_tags@ == Map::<String, String>::empty(),
@props C09 C10 C11 C12 C13 C14
@fn CommentBuilder::new
@ret r
@spec
    ensures r.comment.lines@.len() == 0, r.comment.tags@ == Set::<String>::empty(), r.comment.value_tags@ == Map::<String, String>::empty(),
@props C09 C10 C11 C12 C13 C14
@fn CommentBuilder::build
@ret r
@spec
    ensures r == self.comment,
@props C09 C10 C11 C12 C13 C14
@fn CommentBuilder::with_tag
@ret r
@spec
    ensures
        r.comment.lines@ == self.comment.lines@, r.comment.value_tags@ == self.comment.value_tags@,
        r.comment.tags@ == self.comment.tags@.insert(txt($1)),
@props C09 C10 C11 C12 C13 C14
@fn CommentBuilder::with_option_tag
@ret r
@spec
    ensures
        r.comment.lines@ == self.comment.lines@, r.comment.value_tags@ == self.comment.value_tags@,
        r.comment.tags@ == (match $1 { Some(k) => self.comment.tags@.insert(txt(k)), None => self.comment.tags@ }),
@props C09 C10 C11 C12 C13 C14
@fn CommentBuilder::with_value_tag
@ret r
@spec
    ensures
        r.comment.lines@ == self.comment.lines@, r.comment.tags@ == self.comment.tags@,
        r.comment.value_tags@ == self.comment.value_tags@.insert(txt($1), txt($2)),
@props C09 C10 C11 C12 C13 C14
@fn CommentBuilder::with_option_value_tag
@ret r
@spec
    ensures
        r.comment.lines@ == self.comment.lines@, r.comment.tags@ == self.comment.tags@,
        r.comment.value_tags@ == (match $2 { Some(v) => self.comment.value_tags@.insert(txt($1), txt(v)), None => self.comment.value_tags@ }),
@props C09 C10 C11 C12 C13 C14
