@file fingerprint.rs
@wrap Fingerprint
@pubfields Fingerprint FingerprintBuilder
@wrapimpl Fingerprintable
@add in Fingerprintable
    /// The bytes a value contributes to the hash.
    spec fn bytes(self) -> Seq<u8>;
@add
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExAccumulator(Accumulator);
#[verifier::external_type_specification]
pub struct ExFingerprintBuilder(FingerprintBuilder);
pub assume_specification [<FingerprintBuilder as Clone>::clone] (b: &FingerprintBuilder) -> (r: FingerprintBuilder) ensures r == *b;
/// The bytes hashed so far, and what a hash of them reads as (SHA-1 and base64 are the libraries').
pub uninterp spec fn fed(a: Accumulator) -> Seq<u8>;
pub uninterp spec fn hash64(b: Seq<u8>) -> Seq<char>;
/// The 20 bytes of SHA-1 in base64 without padding: 27 ASCII characters.
pub axiom fn ax_hash64(b: Seq<u8>) ensures hash64(b).len() == 27, ascii(hash64(b));
pub open spec fn str_bytes(s: Seq<char>) -> Seq<u8> { be(blen(s) as int, 8) + vstd::utf8::encode_utf8(s) }
pub open spec fn date_bytes(d: NaiveDate) -> Seq<u8> { be(12, 8) + be(date_y(d) as int, 4) + be(date_m(d) as int, 4) + be(date_d(d) as int, 4) }
pub open spec fn time_bytes(t: NaiveTime) -> Seq<u8> { be(16, 8) + be(time_h(t) as int, 4) + be(time_m(t) as int, 4) + be(time_s(t) as int, 4) + be(time_n(t) as int, 4) }
pub open spec fn amount_bytes(a: Amount) -> Seq<u8> {
    be(17 + blen(a.commodity.name@) as int, 8) + dec_bytes(a.quantity) + be(if a.commodity.position is Left { 1 } else { 2 }, 1) + str_bytes(a.commodity.name@)
}
/// A namespace or algorithm name that keeps tags parseable (the pattern's meaning is the regex library's).
pub open spec fn part_char(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9') || c == '_' || c == '+' || c == '/' }
pub open spec fn part_ok(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> part_char(#[trigger] s[i]) }
pub axiom fn ax_part(s: Seq<char>) ensures re_matches(re_of("^[a-zA-Z0-9_+/]*$"@), s) == part_ok(s);
/// What a builder makes once `more` has been added to it.
pub open spec fn fp_of(f: Fingerprint, b: FingerprintBuilder, more: Seq<u8>) -> bool {
    f.algorithm_name@ == b.algorithm_name@ && f.algorithm_version == b.algorithm_version && f.user_namespace@ == b.user_namespace@
    && f.value@ == hash64(fed(b.acc) + more)
}
pub open spec fn fp_is(f: Fingerprint, name: Seq<char>, version: i64, ns: Seq<char>, bytes: Seq<u8>) -> bool {
    f.algorithm_name@ == name && f.algorithm_version == version && f.user_namespace@ == ns && f.value@ == hash64(bytes)
}
pub open spec fn tag_text(name: Seq<char>, version: i64, ns: Seq<char>, bytes: Seq<u8>) -> Seq<char> {
    "fp-"@ + name + "."@ + disp(&version) + "."@ + ns + "-"@ + hash64(bytes)
}
// The encodings are one for one, and no encoding continues another: a sequence of values of given types is read off its bytes.
pub open spec fn pow(w: nat) -> int
    decreases w
{ if w == 0 { 1 } else { 256 * pow((w - 1) as nat) } }
pub proof fn lemma_be_len(n: int, w: nat)
    ensures be(n, w).len() == w,
    decreases w,
{ if w > 0 { lemma_be_len(n / 256, (w - 1) as nat); } }
pub proof fn lemma_be_inj(a: int, b: int, w: nat)
    requires be(a, w) == be(b, w),
    ensures exists|k: int| a - b == #[trigger] (k * pow(w)),
    decreases w,
{
    if w == 0 { assert(a - b == (a - b) * pow(0)); } else {
        let x = be(a / 256, (w - 1) as nat); let y = be(b / 256, (w - 1) as nat);
        lemma_be_len(a / 256, (w - 1) as nat); lemma_be_len(b / 256, (w - 1) as nat);
        assert(be(a, w).drop_last() =~= x); assert(be(b, w).drop_last() =~= y);
        assert(be(a, w).last() == (a % 256) as u8); assert(be(b, w).last() == (b % 256) as u8);
        lemma_be_inj(a / 256, b / 256, (w - 1) as nat);
        let k = choose|k: int| a / 256 - b / 256 == #[trigger] (k * pow((w - 1) as nat));
        assert(a - b == 256 * (a / 256 - b / 256));
        assert(256 * (k * pow((w - 1) as nat)) == k * pow(w)) by (nonlinear_arith) requires pow(w) == 256 * pow((w - 1) as nat);
        assert(a - b == k * pow(w));
    }
}
pub proof fn lemma_be4(a: int, b: int)
    requires be(a, 4) == be(b, 4), -0x1_0000_0000 < a - b < 0x1_0000_0000,
    ensures a == b,
{
    lemma_be_inj(a, b, 4);
    let k = choose|k: int| a - b == #[trigger] (k * pow(4));
    assert(pow(4) == 0x1_0000_0000) by (compute);
    assert(k == 0) by (nonlinear_arith) requires -0x1_0000_0000 < k * 0x1_0000_0000 < 0x1_0000_0000;
}
pub proof fn lemma_be8(a: int, b: int)
    requires be(a, 8) == be(b, 8), 0 <= a < 0x1_0000_0000_0000_0000, 0 <= b < 0x1_0000_0000_0000_0000,
    ensures a == b,
{
    lemma_be_inj(a, b, 8);
    let k = choose|k: int| a - b == #[trigger] (k * pow(8));
    assert(pow(8) == 0x1_0000_0000_0000_0000) by (compute);
    assert(k == 0) by (nonlinear_arith) requires -0x1_0000_0000_0000_0000 < k * 0x1_0000_0000_0000_0000 < 0x1_0000_0000_0000_0000;
}
/// Equal bytes, equally long beginnings: both parts are equal.
pub proof fn lemma_cut(a: Seq<u8>, x: Seq<u8>, b: Seq<u8>, y: Seq<u8>)
    requires a + x == b + y, a.len() == b.len(),
    ensures a == b, x == y,
{
    assert(a =~= (a + x).take(a.len() as int)); assert(b =~= (b + y).take(b.len() as int));
    assert(x =~= (a + x).skip(a.len() as int)); assert(y =~= (b + y).skip(b.len() as int));
}
pub proof fn lemma_assoc(p: Seq<u8>, q: Seq<u8>, r: Seq<u8>) ensures (p + q) + r == p + (q + r) { assert((p + q) + r =~= p + (q + r)); }
pub proof fn lemma_assoc6(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>, e: Seq<u8>, f: Seq<u8>, x: Seq<u8>)
    ensures a + b + c + d + e + f + x == a + (b + (c + (d + (e + (f + x))))),
{
    lemma_assoc(a + b + c + d + e, f, x); lemma_assoc(a + b + c + d, e, f + x); lemma_assoc(a + b + c, d, e + (f + x));
    lemma_assoc(a + b, c, d + (e + (f + x))); lemma_assoc(a, b, c + (d + (e + (f + x))));
}
pub proof fn lemma_assoc7(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>, e: Seq<u8>, f: Seq<u8>, g: Seq<u8>, x: Seq<u8>)
    ensures a + b + c + d + e + f + g + x == a + (b + (c + (d + (e + (f + (g + x)))))),
{ lemma_assoc(a + b + c + d + e + f, g, x); lemma_assoc6(a, b, c, d, e, f, g + x); }
pub proof fn lemma_utf8_inj(a: Seq<char>, b: Seq<char>)
    requires vstd::utf8::encode_utf8(a) == vstd::utf8::encode_utf8(b),
    ensures a == b,
{ vstd::utf8::encode_utf8_decode_utf8(a); vstd::utf8::encode_utf8_decode_utf8(b); }
/// A text of `n` bytes, and what follows it.
pub proof fn lemma_str_cut(a: Seq<char>, x: Seq<u8>, b: Seq<char>, y: Seq<u8>)
    requires blen(a) <= isize::MAX, blen(b) <= isize::MAX, str_bytes(a) + x == str_bytes(b) + y,
    ensures a == b, x == y,
{
    let (la, lb) = (be(blen(a) as int, 8), be(blen(b) as int, 8));
    let (ua, ub) = (vstd::utf8::encode_utf8(a), vstd::utf8::encode_utf8(b));
    lemma_be_len(blen(a) as int, 8); lemma_be_len(blen(b) as int, 8);
    assert(str_bytes(a) + x =~= la + (ua + x)); assert(str_bytes(b) + y =~= lb + (ub + y));
    lemma_cut(la, ua + x, lb, ub + y);
    lemma_be8(blen(a) as int, blen(b) as int);
    lemma_cut(ua, x, ub, y);
    lemma_utf8_inj(a, b);
}
pub proof fn lemma_num4_cut(a: int, x: Seq<u8>, b: int, y: Seq<u8>)
    requires be(a, 4) + x == be(b, 4) + y, -0x1_0000_0000 < a - b < 0x1_0000_0000,
    ensures a == b, x == y,
{
    lemma_be_len(a, 4); lemma_be_len(b, 4);
    lemma_cut(be(a, 4), x, be(b, 4), y);
    lemma_be4(a, b);
}
pub proof fn lemma_date_cut(a: NaiveDate, x: Seq<u8>, b: NaiveDate, y: Seq<u8>)
    requires date_bytes(a) + x == date_bytes(b) + y,
    ensures a == b, x == y,
{
    lemma_be_len(12, 8);
    let a3 = be(date_d(a) as int, 4) + x; let b3 = be(date_d(b) as int, 4) + y;
    let a2 = be(date_m(a) as int, 4) + a3; let b2 = be(date_m(b) as int, 4) + b3;
    let a1 = be(date_y(a) as int, 4) + a2; let b1 = be(date_y(b) as int, 4) + b2;
    assert(date_bytes(a) + x =~= be(12, 8) + a1); assert(date_bytes(b) + y =~= be(12, 8) + b1);
    lemma_cut(be(12, 8), a1, be(12, 8), b1);
    lemma_num4_cut(date_y(a) as int, a2, date_y(b) as int, b2);
    lemma_num4_cut(date_m(a) as int, a3, date_m(b) as int, b3);
    lemma_num4_cut(date_d(a) as int, x, date_d(b) as int, y);
    ax_date_parts(a, b);
}
pub proof fn lemma_time_cut(a: NaiveTime, x: Seq<u8>, b: NaiveTime, y: Seq<u8>)
    requires time_bytes(a) + x == time_bytes(b) + y,
    ensures a == b, x == y,
{
    lemma_be_len(16, 8);
    let a4 = be(time_n(a) as int, 4) + x; let b4 = be(time_n(b) as int, 4) + y;
    let a3 = be(time_s(a) as int, 4) + a4; let b3 = be(time_s(b) as int, 4) + b4;
    let a2 = be(time_m(a) as int, 4) + a3; let b2 = be(time_m(b) as int, 4) + b3;
    let a1 = be(time_h(a) as int, 4) + a2; let b1 = be(time_h(b) as int, 4) + b2;
    assert(time_bytes(a) + x =~= be(16, 8) + a1); assert(time_bytes(b) + y =~= be(16, 8) + b1);
    lemma_cut(be(16, 8), a1, be(16, 8), b1);
    lemma_num4_cut(time_h(a) as int, a2, time_h(b) as int, b2);
    lemma_num4_cut(time_m(a) as int, a3, time_m(b) as int, b3);
    lemma_num4_cut(time_s(a) as int, a4, time_s(b) as int, b4);
    lemma_num4_cut(time_n(a) as int, x, time_n(b) as int, y);
    ax_time_parts(a, b);
}
/// An amount is read off its bytes: quantity, side and name.
pub proof fn lemma_amount_cut(a: Amount, x: Seq<u8>, b: Amount, y: Seq<u8>)
    requires
        amount_bytes(a) + x == amount_bytes(b) + y,
    ensures a.quantity == b.quantity, a.commodity.position is Left == b.commodity.position is Left, a.commodity.name@ == b.commodity.name@, x == y,
{
    let sa = a.commodity.name@; let sb = b.commodity.name@;
    ax_blen_string(a.commodity.name); ax_blen_string(b.commodity.name);
    let la = be(17 + blen(sa) as int, 8); let lb = be(17 + blen(sb) as int, 8);
    lemma_be_len(17 + blen(sa) as int, 8); lemma_be_len(17 + blen(sb) as int, 8);
    let pa: int = if a.commodity.position is Left { 1 } else { 2 }; let pb: int = if b.commodity.position is Left { 1 } else { 2 };
    let a3 = str_bytes(sa) + x; let b3 = str_bytes(sb) + y;
    let a2 = be(pa, 1) + a3; let b2 = be(pb, 1) + b3;
    let a1 = dec_bytes(a.quantity) + a2; let b1 = dec_bytes(b.quantity) + b2;
    assert(amount_bytes(a) + x =~= la + a1); assert(amount_bytes(b) + y =~= lb + b1);
    lemma_cut(la, a1, lb, b1);
    ax_dec_bytes(a.quantity, b.quantity); ax_dec_bytes(b.quantity, a.quantity);
    lemma_cut(dec_bytes(a.quantity), a2, dec_bytes(b.quantity), b2);
    lemma_be_len(pa, 1); lemma_be_len(pb, 1);
    lemma_cut(be(pa, 1), a3, be(pb, 1), b3);
    reveal_with_fuel(be, 3);
    assert(be(pa, 1)[0] == pa as u8); assert(be(pb, 1)[0] == pb as u8);
    lemma_str_cut(sa, x, sb, y);
}
pub open spec fn opt_amount_bytes(v: Option<Amount>) -> Seq<u8> { match v { Some(g) => be(1, 1) + amount_bytes(g), None => be(0, 1) } }
pub proof fn lemma_opt_amount_cut(a: Option<Amount>, x: Seq<u8>, b: Option<Amount>, y: Seq<u8>)
    requires opt_amount_bytes(a) + x == opt_amount_bytes(b) + y,
    ensures
        a is Some == b is Some, x == y,
        a is Some ==> a->0.quantity == b->0.quantity && a->0.commodity.name@ == b->0.commodity.name@,
{
    let ta: int = if a is Some { 1 } else { 0 }; let tb: int = if b is Some { 1 } else { 0 };
    let ra = if a is Some { amount_bytes(a->0) + x } else { x }; let rb = if b is Some { amount_bytes(b->0) + y } else { y };
    assert(opt_amount_bytes(a) + x =~= be(ta, 1) + ra); assert(opt_amount_bytes(b) + y =~= be(tb, 1) + rb);
    lemma_be_len(ta, 1); lemma_be_len(tb, 1);
    lemma_cut(be(ta, 1), ra, be(tb, 1), rb);
    reveal_with_fuel(be, 3);
    assert(be(ta, 1)[0] == ta as u8); assert(be(tb, 1)[0] == tb as u8);
    if a is Some { lemma_amount_cut(a->0, x, b->0, y); }
}
/// The two halves of a record never share their bytes.
pub open spec fn opt_str_bytes(v: Option<String>) -> Seq<u8> { match v { Some(g) => be(1, 1) + str_bytes(g@), None => be(0, 1) } }
pub proof fn lemma_opt_str_cut(a: Option<String>, x: Seq<u8>, b: Option<String>, y: Seq<u8>)
    requires opt_str_bytes(a) + x == opt_str_bytes(b) + y,
    ensures a == b, x == y,
{
    lemma_be_len(0, 1); lemma_be_len(1, 1); reveal_with_fuel(be, 3);
    let p = match a { Some(g) => str_bytes(g@) + x, None => x };
    let q = match b { Some(g) => str_bytes(g@) + y, None => y };
    let n: int = if a is Some { 1 } else { 0 }; let m: int = if b is Some { 1 } else { 0 };
    assert(opt_str_bytes(a) + x =~= be(n, 1) + p); assert(opt_str_bytes(b) + y =~= be(m, 1) + q);
    lemma_cut(be(n, 1), p, be(m, 1), q);
    assert(be(0, 1)[0] == 0u8 && be(1, 1)[0] == 1u8);
    if a is Some && b is Some { ax_blen_string(a->0); ax_blen_string(b->0); lemma_str_cut((a->0)@, x, (b->0)@, y); ax_string_ext(a->0); ax_string_ext(b->0); }
}
pub proof fn lemma_num8_cut(a: int, x: Seq<u8>, b: int, y: Seq<u8>)
    requires be(a, 8) + x == be(b, 8) + y, 0 <= a <= u64::MAX, 0 <= b <= u64::MAX,
    ensures a == b, x == y,
{ lemma_be_len(a, 8); lemma_be_len(b, 8); lemma_cut(be(a, 8), x, be(b, 8), y); lemma_be8(a, b); }
pub proof fn lemma_halves(x: Seq<u8>)
    ensures x + str_bytes("self"@) != x + str_bytes("peer"@),
{
    if x + str_bytes("self"@) == x + str_bytes("peer"@) {
        lemma_cut(x, str_bytes("self"@), x, str_bytes("peer"@));
        assert(str_bytes("self"@) + Seq::<u8>::empty() =~= str_bytes("self"@)); assert(str_bytes("peer"@) + Seq::<u8>::empty() =~= str_bytes("peer"@));
        ax_blen("self"); ax_blen("peer");
        lemma_str_cut("self"@, Seq::empty(), "peer"@, Seq::empty());
        reveal_strlit("self"); reveal_strlit("peer");
        assert("self"@[0] == "peer"@[0]);
    }
}
@fn FingerprintBuilder::with
@ret r
@spec
    ensures
        r.algorithm_name == self.algorithm_name, r.algorithm_version == self.algorithm_version, r.user_namespace == self.user_namespace,
        fed(r.acc) == fed(self.acc) + $1.bytes(),
@props C10 C20
@fn FingerprintBuilder::build
@ret r
@spec
    ensures fp_of(r, self, Seq::empty()),
@tail
    proof { assert(fed(self.acc) + Seq::<u8>::empty() =~= fed(self.acc)); }
@props C10 C20 C21
@fn FingerprintBuilder::new
@begin
    proof { ax_part($1@); ax_part($3@); }
@ret r
@spec
    ensures
        r is Ok <==> part_ok($1@) && part_ok($3@),
        r matches Ok(b) ==> b.algorithm_name@ == $1@ && b.algorithm_version == $2 && b.user_namespace@ == $3@ && fed(b.acc) == Seq::<u8>::empty(),
@props C10 C20
@fn Fingerprint::tag
@ret r
@spec
    ensures r@ == "fp-"@ + self.algorithm_name@ + "."@ + disp(&self.algorithm_version) + "."@ + self.user_namespace@ + "-"@ + self.value@,
@props C10 C20
@fn Fingerprint::legacy_tag
@ret r
@spec
    ensures r@ == "fp-"@ + self.user_namespace@ + "-"@ + self.value@,
@props C10 C20
@fn! Accumulator::new
@ret r
@spec
    ensures fed(r) == Seq::<u8>::empty(),
@fn! Accumulator::add_bytes
@spec
    ensures fed(*final(self)) == fed(*old(self)) + $1@,
@fn! Accumulator::into_base64
@ret r
@spec
    ensures r@ == hash64(fed(self)),
@fn Accumulator::with
@ret r
@spec
    ensures fed(r) == fed(self) + $1.bytes(),
@props C10 C20

@fn Fingerprintable::fingerprint
@ret r
@spec
    ensures fed(r) == fed($1) + self.bytes(),
@noquery

@add in Fingerprintable for &[u8]
    open spec fn bytes(self) -> Seq<u8> { self@ }
@fn Fingerprintable for &[u8]::fingerprint
@props C10 C20

@add in Fingerprintable for i32
    open spec fn bytes(self) -> Seq<u8> { be(self as int, 4) }
@fn Fingerprintable for i32::fingerprint
@props C10 C20
@add in Fingerprintable for u8
    open spec fn bytes(self) -> Seq<u8> { be(self as int, 1) }
@fn Fingerprintable for u8::fingerprint
@tail
    proof { reveal_with_fuel(be, 3); assert(buf@ =~= be(self as int, 1)); }
@props C10 C20
@add in Fingerprintable for u32
    open spec fn bytes(self) -> Seq<u8> { be(self as int, 4) }
@fn Fingerprintable for u32::fingerprint
@props C10 C20
@add in Fingerprintable for u64
    open spec fn bytes(self) -> Seq<u8> { be(self as int, 8) }
@fn Fingerprintable for u64::fingerprint
@props C10 C20
@add in Fingerprintable for usize
    open spec fn bytes(self) -> Seq<u8> { be(self as int, 8) }
@fn Fingerprintable for usize::fingerprint
@props C10 C20
@add in Fingerprintable for &Amount
    open spec fn bytes(self) -> Seq<u8> { amount_bytes(*self) }
@fn Fingerprintable for &Amount::fingerprint
@props C10 C20
@add in Fingerprintable for Option<T>
    open spec fn bytes(self) -> Seq<u8> { match self { Some(v) => be(1, 1) + v.bytes(), None => be(0, 1) } }
@fn Fingerprintable for Option<T>::fingerprint
@props C10 C20
@add in Fingerprintable for &str
    open spec fn bytes(self) -> Seq<u8> { str_bytes(self@) }
@fn Fingerprintable for &str::fingerprint
@props C10 C20
@add in Fingerprintable for NaiveDate
    open spec fn bytes(self) -> Seq<u8> { date_bytes(self) }
@fn Fingerprintable for NaiveDate::fingerprint
@props C10 C20
@add in Fingerprintable for NaiveTime
    open spec fn bytes(self) -> Seq<u8> { time_bytes(self) }
@fn Fingerprintable for NaiveTime::fingerprint
@props C10 C20
@add in Fingerprintable for i8
    open spec fn bytes(self) -> Seq<u8> { be(self as int, 1) }
@fn Fingerprintable for i8::fingerprint
@tail
    proof { let x = self; assert(x < 0 ==> (x as u8) as i16 == (x as i16) + 256) by (bit_vector); assert(x >= 0 ==> (x as u8) as i16 == x as i16) by (bit_vector); reveal_with_fuel(be, 3); assert(buf@ =~= be(self as int, 1)); }
@props C10 C20
@add in Fingerprintable for i16
    open spec fn bytes(self) -> Seq<u8> { be(self as int, 2) }
@fn Fingerprintable for i16::fingerprint
@props C10 C20
@add in Fingerprintable for i64
    open spec fn bytes(self) -> Seq<u8> { be(self as int, 8) }
@fn Fingerprintable for i64::fingerprint
@props C10 C20
@add in Fingerprintable for u16
    open spec fn bytes(self) -> Seq<u8> { be(self as int, 2) }
@fn Fingerprintable for u16::fingerprint
@props C10 C20

@fn is_fingerprint
@ret r
@spec
    ensures r == is_fp($1@),
@props C02 C03 C10 C17
