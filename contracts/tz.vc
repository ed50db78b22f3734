@file tzabbr.rs
@pubfields TzRecord TzAbbrDB
@wrap TzAbbrDB
@add
#[verifier::external_type_specification]
pub struct ExTzRecord(TzRecord);
pub open spec fn digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn two(s: Seq<char>, i: int) -> int { (s[i] as int - '0' as int) * 10 + (s[i + 1] as int - '0' as int) }
/// `UTC`, a sign and two digits.
pub open spec fn hours_form(s: Seq<char>) -> bool {
    s.len() == 6 && s[0] == 'U' && s[1] == 'T' && s[2] == 'C' && (s[3] == '+' || s[3] == '-') && digit(s[4]) && digit(s[5])
}
/// The same, a colon and two digits more.
pub open spec fn minutes_form(s: Seq<char>) -> bool { s.len() == 9 && hours_form(s.take(6)) && s[6] == ':' && digit(s[7]) && digit(s[8]) }
/// The seconds east a text stands for.
pub open spec fn offset_of(s: Seq<char>) -> Option<int> {
    let (ok, abs) = if hours_form(s) { (true, two(s, 4) * 3600) } else if minutes_form(s) { (two(s, 7) <= 59, two(s, 4) * 3600 + two(s, 7) * 60) } else { (false, 0) };
    if ok && abs < 86_400 { Some(if s[3] == '+' { abs } else { -abs }) } else { None }
}
pub axiom fn ax_hours(s: Seq<char>)
    ensures
        captured(re_of("^UTC([-+])([0-9]{2})$"@), s) == (if hours_form(s) { Some(seq![Some(s), Some(s.subrange(3, 4)), Some(s.subrange(4, 6))]) } else { None });
pub axiom fn ax_minutes(s: Seq<char>)
    ensures
        captured(re_of("^UTC([-+])([0-9]{2}):([0-9]{2})$"@), s)
            == (if minutes_form(s) { Some(seq![Some(s), Some(s.subrange(3, 4)), Some(s.subrange(4, 6)), Some(s.subrange(7, 9))]) } else { None });
pub axiom fn ax_two(s: Seq<char>) requires s.len() == 2, digit(s[0]), digit(s[1]) ensures parsed_i32(s) == Some(two(s, 0) as i32);
pub type TzRow = Result<TzRecord, csv::Error>;
/// Every row is good and defines an abbreviation of its own.
pub open spec fn good_tz(rows: Seq<TzRow>, i: int) -> bool {
    &&& rows[i] is Ok
    &&& offset_of(rows[i]->Ok_0.utc_offset@) is Some
    &&& forall|j: int| 0 <= j < i ==> (#[trigger] rows[j])->Ok_0.abbreviation != rows[i]->Ok_0.abbreviation
}
pub open spec fn tz_map(rows: Seq<TzRow>, m: Map<String, FixedOffset>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < n ==> m.contains_key((#[trigger] rows[i])->Ok_0.abbreviation) && m[rows[i]->Ok_0.abbreviation] == east(offset_of(rows[i]->Ok_0.utc_offset@)->0)
    &&& forall|k: String| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < n && (#[trigger] rows[i])->Ok_0.abbreviation == k
}
@fn TzAbbrDB::from_reader
@ret res
@spec
    ensures
        res is Ok <==> forall|i: int| 0 <= i < table_of::<R, TzRecord>($1).len() ==> #[trigger] good_tz(table_of::<R, TzRecord>($1), i),
        res matches Ok(t) ==> tz_map(table_of::<R, TzRecord>($1), t.map@, table_of::<R, TzRecord>($1).len() as int),
@begin
    let ghost rows = table_of::<R, TzRecord>($1);
@replace `csv::Reader::from_reader(r)`
crate::vx::csv_table::<R, TzRecord>(r)
@replace `it: rdr.deserialize()`
it: rdr
@loop 0
    invariant
        it.seq() == rows, rows == table_of::<R, TzRecord>($1),
        forall|i: int| 0 <= i < it.index() ==> #[trigger] good_tz(rows, i),
        tz_map(rows, map@, it.index() as int),
@loopbegin 0
    let ghost m0 = map@;
    let ghost i = it.index() as int;
    proof { assert(rows[i] == result && i < rows.len());
        assert(result is Err ==> !good_tz(rows, i));
        assert(result is Ok && offset_of(result->Ok_0.utc_offset@) is None ==> !good_tz(rows, i)); }
@before `match map.entry(`
    let ghost rec = record;
    proof {
        if m0.contains_key(rec.abbreviation) { let j = choose|j: int| 0 <= j < i && (#[trigger] rows[j])->Ok_0.abbreviation == rec.abbreviation; assert(!good_tz(rows, i)); }
    }
@loopend 0
    proof {
        assert(map@ == m0.insert(rec.abbreviation, offset));
        assert forall|k: String| #[trigger] map@.contains_key(k) implies exists|j: int| 0 <= j < i + 1 && (#[trigger] rows[j])->Ok_0.abbreviation == k by {
            if k == rec.abbreviation { assert(rows[i]->Ok_0.abbreviation == k); }
            else { assert(m0.contains_key(k)); let j = choose|j: int| 0 <= j < i && (#[trigger] rows[j])->Ok_0.abbreviation == k; assert(rows[j]->Ok_0.abbreviation == k); }
        }
        assert(good_tz(rows, i));
    }
@props C19 C13
@fn TzAbbrDB::abbr_to_tz
@ret r
@spec
    ensures r == (if self.map@.contains_key(mk($1@)) { Some(self.map@[mk($1@)]) } else { None }),
@props C19 C13
@fn parse_utc_offset
@ret r
@spec
    ensures
        r is Ok <==> offset_of($1@) is Some,
        r matches Ok(o) ==> o == east(offset_of($1@)->0),
@begin
    proof {
        ax_hours($1@); ax_minutes($1@);
        if hours_form($1@) || minutes_form($1@) { ax_two($1@.subrange(4, 6)); }
        if minutes_form($1@) { ax_two($1@.subrange(7, 9)); assert(hours_form($1@.take(6))); }
        reveal_strlit("+");
        if hours_form($1@) || minutes_form($1@) { assert(($1@.subrange(3, 4) == "+"@) == ($1@[3] == '+')) by { if $1@[3] == '+' { assert($1@.subrange(3, 4) =~= "+"@); } else { assert($1@.subrange(3, 4)[0] != "+"@[0]); } } }
    }
@replace #0 `&captures[1] == "+"`
crate::vx::cap(&captures, 1) == "+"
@replace #0 `&captures[1] == "+"`
crate::vx::cap(&captures, 1) == "+"
@replace #0 `captures[2].parse()?`
crate::vx::parse_i32(crate::vx::cap(&captures, 2))?
@replace #0 `captures[2].parse()?`
crate::vx::parse_i32(crate::vx::cap(&captures, 2))?
@replace `captures[3].parse()?`
crate::vx::parse_i32(crate::vx::cap(&captures, 3))?
@props C19
