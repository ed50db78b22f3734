@file rules/processor.rs
@wrapimpl TransactionProcessorFactory
@wrapimpl TransactionProcessor
@add in TransactionProcessorFactory
    /// Processors made from this do `p`, and fail on `q`.
    spec fn made(&self, p: spec_fn(Seq<TransactionPostings>, Seq<TransactionPostings>) -> bool, q: spec_fn(Seq<TransactionPostings>) -> bool) -> bool;
    spec fn unusable(&self) -> bool;
@add in TransactionProcessor
    spec fn processed(&self, a: Seq<TransactionPostings>, b: Seq<TransactionPostings>) -> bool;
    spec fn refused(&self, a: Seq<TransactionPostings>) -> bool;
@add
pub open spec fn doing(t: &dyn TransactionProcessor) -> spec_fn(Seq<TransactionPostings>, Seq<TransactionPostings>) -> bool { |a: Seq<TransactionPostings>, b: Seq<TransactionPostings>| t.processed(a, b) }
pub open spec fn refusing(t: &dyn TransactionProcessor) -> spec_fn(Seq<TransactionPostings>) -> bool { |a: Seq<TransactionPostings>| t.refused(a) }
@fn TransactionProcessorFactory::make_processor
@ret r
@spec
    ensures r is Ok ==> self.made(doing(&*r->Ok_0), refusing(&*r->Ok_0)), r is Err ==> self.unusable(),
@noquery
@fn TransactionProcessor::update_transactions
@ret r
@spec
    ensures r is Ok ==> self.processed($1@, r->Ok_0@), r is Err ==> self.refused($1@),
@noquery

@file rules/table/commontypes.rs
@wrap RegexVisitor
@wrapimpl de::Visitor<'de > for RegexVisitor
@add
#[verifier::external_type_specification]
pub struct ExRegex(Regex);
@fn! de::Visitor<'de > for RegexVisitor::expecting
@fn de::Visitor<'de > for RegexVisitor::visit_str
@ret r
@spec
    ensures r is Ok <==> re_ok($1@), r matches Ok(x) ==> x.0 == re_of($1@),
@closure map
regex::Regex
-> (t: Regex) ensures t.0 == #1
@props C16

@file rules/table/ctx.rs
@wrap PostingContext
@add
use crate::comment::Comment;
/// What rules see and change: a transaction and one of its postings.
#[verifier::ext_equal]
pub ghost struct Com { pub lines: Seq<String>, pub tags: Set<String>, pub vals: Map<String, String> }
#[verifier::ext_equal]
pub ghost struct St { pub trn: ledger_parser::Transaction, pub tc: Com, pub post: ledger_parser::Posting, pub pc: Com }
pub open spec fn com(c: Comment) -> Com { Com { lines: c.lines@, tags: c.tags@, vals: c.value_tags@ } }
pub open spec fn st_of(t: TransactionInternal, p: PostingInternal) -> St { St { trn: t.raw, tc: com(t.comment), post: p.raw, pc: com(p.comment) } }
pub open spec fn st(c: PostingContext) -> St { st_of(*c.trn, *c.post) }
/// The context is about the same transaction and posting.
#[verifier::prophetic]
pub open spec fn same_place(a: PostingContext, b: PostingContext) -> bool { *final(a.trn) == *final(b.trn) && *final(a.post) == *final(b.post) }

@file rules/table/predicate.rs
@add
use crate::rules::table::ctx::{St, st};
#[verifier::external_type_specification]
pub struct ExPredicate(Predicate);
#[verifier::external_type_specification]
pub struct ExStringMatch(StringMatch);
pub open spec fn str_matches(m: StringMatch, s: Seq<char>) -> bool
    decreases m
{
    match m {
        StringMatch::AsLower(m) => str_matches(*m, lower(s)),
        StringMatch::Contains(w) => has_sub(s, w@),
        StringMatch::Eq(w) => w@ == s,
        StringMatch::Matches(r) => re_matches(r.0, s),
    }
}
pub proof fn lemma_part(p: Predicate, ps: Vec<Predicate>, k: int)
    requires 0 <= k < ps@.len(), p == Predicate::All(ps) || p == Predicate::Any(ps),
    ensures decreases_to!(p => ps@[k]),
{ assert(decreases_to!(ps => ps[k])); match p { Predicate::All(q) => { assert(decreases_to!(p => q)); } Predicate::Any(q) => { assert(decreases_to!(p => q)); } _ => {} } }
/// When a predicate holds.
pub open spec fn holds(p: Predicate, s: St) -> bool
    decreases p
{
    match p {
        Predicate::True => true,
        Predicate::All(ps) => forall|i: int| 0 <= i < ps@.len() ==> holds(#[trigger] ps@[i], s),
        Predicate::Any(ps) => exists|i: int| 0 <= i < ps@.len() && holds(#[trigger] ps@[i], s),
        Predicate::Account(m) => str_matches(m, s.post.account@),
        Predicate::Not(q) => !holds(*q, s),
        Predicate::PostingFlagTag(m) => exists|t: String| s.pc.tags.contains(t) && str_matches(m, #[trigger] t@),
        Predicate::PostingHasFlagTag(t) => s.pc.tags.contains(t),
        Predicate::PostingHasValueTag(k) => s.pc.vals.contains_key(k),
        Predicate::PostingValueTag(k, m) => s.pc.vals.contains_key(k) && str_matches(m, s.pc.vals[k]@),
        Predicate::TransactionDescription(m) => str_matches(m, s.trn.description@),
    }
}

@fn StringMatch::matches_string
@ret r
@spec
    ensures r == str_matches(*self, $1@),
    decreases *self,
@props C15

@fn Predicate::is_match
@ret r
@spec
    ensures r == holds(*self, st(*$1)),
    decreases *self,
@closure map
&String
-> (b: bool) ensures b == str_matches(*matcher, #1@)
@chain 0 all
    invariant_except_break
        vx_r,
        forall|j: int| 0 <= j < vx_it.index() ==> holds(#[trigger] preds@[j], st(*$1)),
    invariant
        vx_it.seq().unref() == preds@,
        *self == Predicate::All(*preds),
    ensures
        vx_r == holds(*self, st(*$1)),
---
    proof { let k = vx_it.index() as int; assert(vx_it.seq().unref()[k] == *vx_it.seq()[k]); assert(*vx_it.seq()[k] == preds@[k]); lemma_part(*self, *preds, k); }
@chain 1 any
    invariant_except_break
        !vx_r,
        forall|j: int| 0 <= j < vx_it.index() ==> !holds(#[trigger] preds@[j], st(*$1)),
    invariant
        vx_it.seq().unref() == preds@,
        *self == Predicate::Any(*preds),
    ensures
        vx_r == holds(*self, st(*$1)),
---
    proof { let k = vx_it.index() as int; assert(vx_it.seq().unref()[k] == *vx_it.seq()[k]); assert(*vx_it.seq()[k] == preds@[k]); lemma_part(*self, *preds, k); }
@chain 2 any
    invariant_except_break
        !vx_r,
        forall|j: int| 0 <= j < vx_it.index() ==> !str_matches(*matcher, (#[trigger] vx_it.seq()[j])@),
        vx_it.index() == vx_it.seq().len() ==> !holds(*self, st(*$1)),
    invariant
        vx_it.seq().unref().to_set() == $1.post.comment.tags@,
        *self == Predicate::PostingFlagTag(*matcher),
    ensures
        vx_r == holds(*self, st(*$1)),
---
    proof { let i = vx_it.index() as int; assert(vx_it.seq().unref()[i] == *vx_it.seq()[i]); assert($1.post.comment.tags@.contains(*vx_it.seq()[i])); }
@props C15

@file rules/table/mod.rs
@pubfields Table Chain Rule RuleResult Action RegexReplace Command
@wrap START_CHAIN
@wrapimpl TransactionProcessorFactory for Command
@wrapimpl TransactionProcessor for Table
@add in TransactionProcessorFactory for Command
    open spec fn made(&self, p: spec_fn(Seq<TransactionPostings>, Seq<TransactionPostings>) -> bool, q: spec_fn(Seq<TransactionPostings>) -> bool) -> bool { exists|t: Table| #[trigger] is_rules(self.rules, t) && valid(t) && does(t, p, q) }
    open spec fn unusable(&self) -> bool { bad_rules(self.rules) }
@add in TransactionProcessor for Table
    open spec fn processed(&self, a: Seq<TransactionPostings>, b: Seq<TransactionPostings>) -> bool { all_applied(*self, a, b) }
    open spec fn refused(&self, a: Seq<TransactionPostings>) -> bool { exists|i: int, e: Fail| 0 <= i < a.len() && #[trigger] fails(*self, a[i], e) }
@add
#[verifier::external_type_specification]
pub struct ExCommand(Command);
/// The rules that the file at a path stands for.
pub open spec fn is_rules(p: PathBuf, t: Table) -> bool {
    exists|es: Seq<source::Entry>, s: Set<Option<PathBuf>>| source::parsed(p) == Some(es)
        && #[trigger] source::file_loaded(Some(p), es, source::Ld { m: Map::empty(), seen: Set::empty() }, Some(source::Ld { m: t.chains@, seen: s }))
}
pub open spec fn no_rules(p: PathBuf) -> bool {
    source::parsed(p) is None || source::file_loaded(Some(p), source::parsed(p)->0, source::Ld { m: Map::empty(), seen: Set::empty() }, None)
}
/// Files that cannot be loaded, and those that hold no valid rules.
pub open spec fn bad_rules(p: PathBuf) -> bool { no_rules(p) || exists|t: Table| #[trigger] is_rules(p, t) && !valid(t) }
pub open spec fn makes(c: Command, t: Table) -> bool { is_rules(c.rules, t) && valid(t) }
pub open spec fn does(t: Table, p: spec_fn(Seq<TransactionPostings>, Seq<TransactionPostings>) -> bool, q: spec_fn(Seq<TransactionPostings>) -> bool) -> bool {
    &&& forall|a: Seq<TransactionPostings>, b: Seq<TransactionPostings>| #[trigger] p(a, b) <==> all_applied(t, a, b)
    &&& forall|a: Seq<TransactionPostings>| #[trigger] q(a) <==> exists|i: int, e: Fail| 0 <= i < a.len() && #[trigger] fails(t, a[i], e)
}
use crate::rules::table::ctx::{St, Com, st, st_of, com, same_place};
use crate::rules::table::predicate::holds;
use ledger_parser::Transaction;
use crate::internal::PostingInternal;
#[verifier::external_type_specification]
pub struct ExTable(Table);
#[verifier::external_type_specification]
pub struct ExChain(Chain);
#[verifier::external_type_specification]
pub struct ExRule(Rule);
#[verifier::external_type_specification]
pub struct ExRuleResult(RuleResult);
#[verifier::external_type_specification]
pub struct ExAction(Action);
#[verifier::external_type_specification]
pub struct ExRegexReplace(RegexReplace);
/// Why rules fail: an `Error` action, or a jump to a chain that is not there.
pub ghost enum Fail { Reported, NoChain }
pub open spec fn tag_added(c: Com, t: String) -> Com { Com { tags: c.tags.insert(t), ..c } }
pub open spec fn tag_gone(c: Com, t: String) -> Com { Com { tags: c.tags.remove(t), ..c } }
pub open spec fn val_set(c: Com, k: String, v: String) -> Com { Com { vals: c.vals.insert(k, v), ..c } }
pub open spec fn val_gone(c: Com, k: String) -> Com { Com { vals: c.vals.remove(k), ..c } }
/// What actions, rules and chains do.  `f` bounds the depth: `None` says it does not reach (chains that jump to each other may never end).
pub open spec fn act(t: Table, a: Action, s: St, f: nat) -> Option<Result<St, Fail>>
    decreases f
{
    if f == 0 { None } else {
        match a {
            Action::AddPostingFlagTag(n) => Some(Ok(St { pc: tag_added(s.pc, n), ..s })),
            Action::AddPostingValueTag(k, v) => Some(Ok(St { pc: val_set(s.pc, k, v), ..s })),
            Action::AddTransactionFlagTag(n) => Some(Ok(St { tc: tag_added(s.tc, n), ..s })),
            Action::AddTransactionValueTag(k, v) => Some(Ok(St { tc: val_set(s.tc, k, v), ..s })),
            Action::All(v) => acts(t, v@, s, (f - 1) as nat),
            Action::Error(_) => Some(Err(Fail::Reported)),
            Action::Noop => Some(Ok(s)),
            Action::JumpChain(n) => if !t.chains@.contains_key(n) { Some(Err(Fail::NoChain)) } else {
                match chain(t, t.chains@[n].0@, s, (f - 1) as nat) { Some(Ok((u, _))) => Some(Ok(u)), Some(Err(e)) => Some(Err(e)), None => None }
            },
            Action::SetAccount(v) => Some(Ok(St { post: ledger_parser::Posting { account: v, ..s.post }, ..s })),
            Action::RemovePostingFlagTag(n) => Some(Ok(St { pc: tag_gone(s.pc, n), ..s })),
            Action::RemovePostingValueTag(k) => Some(Ok(St { pc: val_gone(s.pc, k), ..s })),
            Action::RemoveTransactionFlagTag(n) => Some(Ok(St { tc: tag_gone(s.tc, n), ..s })),
            Action::RemoveTransactionValueTag(k) => Some(Ok(St { tc: val_gone(s.tc, k), ..s })),
            Action::ReplaceTransactionDescription(r) => Some(Ok(St { trn: Transaction { description: mk(re_replaced(r.regex.0, s.trn.description@, r.replacement@)), ..s.trn }, ..s })),
        }
    }
}
pub open spec fn acts(t: Table, v: Seq<Action>, s: St, f: nat) -> Option<Result<St, Fail>>
    decreases f
{
    if f == 0 { None } else if v.len() == 0 { Some(Ok(s)) } else {
        match acts(t, v.drop_last(), s, (f - 1) as nat) { Some(Ok(u)) => act(t, v.last(), u, (f - 1) as nat), r => r }
    }
}
/// The state, and whether the last rule returned.
pub open spec fn rule(t: Table, r: Rule, s: St, f: nat) -> Option<Result<(St, bool), Fail>>
    decreases f
{
    if f == 0 { None } else if !holds(r.predicate, s) { Some(Ok((s, false))) } else {
        match act(t, r.action, s, (f - 1) as nat) { Some(Ok(u)) => Some(Ok((u, r.result is Return))), Some(Err(e)) => Some(Err(e)), None => None }
    }
}
pub open spec fn chain(t: Table, v: Seq<Rule>, s: St, f: nat) -> Option<Result<(St, bool), Fail>>
    decreases f
{
    if f == 0 { None } else if v.len() == 0 { Some(Ok((s, false))) } else {
        match chain(t, v.drop_last(), s, (f - 1) as nat) { Some(Ok((u, false))) => rule(t, v.last(), u, (f - 1) as nat), r => r }
    }
}
/// More depth changes nothing.
pub proof fn lemma_deeper(t: Table, f: nat, g: nat)
    requires f <= g,
    ensures
        forall|a: Action, s: St| #[trigger] act(t, a, s, f) is Some ==> act(t, a, s, g) == act(t, a, s, f),
        forall|v: Seq<Action>, s: St| #[trigger] acts(t, v, s, f) is Some ==> acts(t, v, s, g) == acts(t, v, s, f),
        forall|r: Rule, s: St| #[trigger] rule(t, r, s, f) is Some ==> rule(t, r, s, g) == rule(t, r, s, f),
        forall|v: Seq<Rule>, s: St| #[trigger] chain(t, v, s, f) is Some ==> chain(t, v, s, g) == chain(t, v, s, f),
    decreases f,
{
    if f > 0 {
        let (f1, g1) = ((f - 1) as nat, (g - 1) as nat);
        lemma_deeper(t, f1, g1);
        assert forall|a: Action, s: St| #[trigger] act(t, a, s, f) is Some implies act(t, a, s, g) == act(t, a, s, f) by {
            match a {
                Action::All(v) => { assert(acts(t, v@, s, f1) is Some ==> acts(t, v@, s, g1) == acts(t, v@, s, f1)); }
                Action::JumpChain(n) => { let c = t.chains@[n].0@; assert(chain(t, c, s, f1) is Some ==> chain(t, c, s, g1) == chain(t, c, s, f1)); }
                _ => {}
            }
        }
        assert forall|v: Seq<Action>, s: St| #[trigger] acts(t, v, s, f) is Some implies acts(t, v, s, g) == acts(t, v, s, f) by {
            let d = v.drop_last();
            assert(acts(t, d, s, f1) is Some ==> acts(t, d, s, g1) == acts(t, d, s, f1));
            if v.len() > 0 && acts(t, d, s, f1) is Some && acts(t, d, s, f1)->0 is Ok { let u = acts(t, d, s, f1)->0->Ok_0; assert(act(t, v.last(), u, f1) is Some ==> act(t, v.last(), u, g1) == act(t, v.last(), u, f1)); }
        }
        assert forall|r: Rule, s: St| #[trigger] rule(t, r, s, f) is Some implies rule(t, r, s, g) == rule(t, r, s, f) by {
            assert(act(t, r.action, s, f1) is Some ==> act(t, r.action, s, g1) == act(t, r.action, s, f1));
        }
        assert forall|v: Seq<Rule>, s: St| #[trigger] chain(t, v, s, f) is Some implies chain(t, v, s, g) == chain(t, v, s, f) by {
            let d = v.drop_last();
            assert(chain(t, d, s, f1) is Some ==> chain(t, d, s, g1) == chain(t, d, s, f1));
            if v.len() > 0 && chain(t, d, s, f1) is Some && chain(t, d, s, f1)->0 is Ok { let u = chain(t, d, s, f1)->0->Ok_0.0; assert(rule(t, v.last(), u, f1) is Some ==> rule(t, v.last(), u, g1) == rule(t, v.last(), u, f1)); }
        }
    }
}
pub open spec fn acted(t: Table, a: Action, s: St, r: Result<St, Fail>) -> bool { exists|f: nat| #[trigger] act(t, a, s, f) == Some(r) }
pub open spec fn all_acted(t: Table, v: Seq<Action>, s: St, r: Result<St, Fail>) -> bool { exists|f: nat| #[trigger] acts(t, v, s, f) == Some(r) }
pub open spec fn ruled(t: Table, x: Rule, s: St, r: Result<(St, bool), Fail>) -> bool { exists|f: nat| #[trigger] rule(t, x, s, f) == Some(r) }
pub open spec fn chained(t: Table, v: Seq<Rule>, s: St, r: Result<(St, bool), Fail>) -> bool { exists|f: nat| #[trigger] chain(t, v, s, f) == Some(r) }
/// A chain has one outcome.
pub proof fn lemma_one_outcome(t: Table, v: Seq<Rule>, s: St, a: Result<(St, bool), Fail>, b: Result<(St, bool), Fail>)
    requires chained(t, v, s, a), chained(t, v, s, b),
    ensures a == b,
{
    let f = choose|f: nat| #[trigger] chain(t, v, s, f) == Some(a);
    let g = choose|g: nat| #[trigger] chain(t, v, s, g) == Some(b);
    if f <= g { lemma_deeper(t, f, g); } else { lemma_deeper(t, g, f); }
}

pub open spec fn pst(t: (Transaction, Com), p: PostingInternal) -> St { St { trn: t.0, tc: t.1, post: p.raw, pc: com(p.comment) } }
pub open spec fn start() -> String { mk("start"@) }
/// The start chain takes a posting, with what the postings before it made of the transaction, to another.
pub open spec fn done(t: Table, a: St, b: St) -> bool { t.chains@.contains_key(start()) && exists|x: bool| #[trigger] chained(t, t.chains@[start()].0@, a, Ok((b, x))) }
pub open spec fn posted(t: Table, a: Seq<PostingInternal>, ts: Seq<(Transaction, Com)>, n: int, b: Seq<PostingInternal>) -> bool {
    ts.len() == n + 1 && forall|j: int| 0 <= j < n ==> done(t, pst(ts[j], a[j]), pst(ts[j + 1], #[trigger] b[j]))
}
/// The postings of a transaction, one after the other.
pub open spec fn applied(t: Table, a: TransactionPostings, ts: Seq<(Transaction, Com)>, n: int, b: TransactionPostings) -> bool {
    &&& t.chains@.contains_key(start())
    &&& ts[0] == (a.trn.raw, com(a.trn.comment)) && ts.last() == (b.trn.raw, com(b.trn.comment))
    &&& b.posts@.len() == a.posts@.len() && posted(t, a.posts@, ts, n, b.posts@)
}
pub open spec fn failed_at(t: Table, a: TransactionPostings, ts: Seq<(Transaction, Com)>, n: int, b: Seq<PostingInternal>, e: Fail) -> bool {
    &&& t.chains@.contains_key(start()) && ts[0] == (a.trn.raw, com(a.trn.comment)) && 0 <= n < a.posts@.len()
    &&& posted(t, a.posts@, ts, n, b)
    &&& chained(t, t.chains@[start()].0@, pst(ts.last(), a.posts@[n]), Err(e))
}
pub open spec fn fails(t: Table, a: TransactionPostings, e: Fail) -> bool {
    !t.chains@.contains_key(start()) && e is NoChain || exists|ts: Seq<(Transaction, Com)>, n: int, b: Seq<PostingInternal>| #[trigger] failed_at(t, a, ts, n, b, e)
}
pub open spec fn is_applied(t: Table, a: TransactionPostings, b: TransactionPostings) -> bool { exists|ts: Seq<(Transaction, Com)>| #[trigger] applied(t, a, ts, a.posts@.len() as int, b) }
pub open spec fn is_applied_so_far(t: Table, a: TransactionPostings, ts: Seq<(Transaction, Com)>, b: Seq<PostingInternal>) -> bool {
    t.chains@.contains_key(start()) && ts[0] == (a.trn.raw, com(a.trn.comment)) && posted(t, a.posts@, ts, a.posts@.len() as int, b)
}
pub open spec fn all_applied(t: Table, a: Seq<TransactionPostings>, b: Seq<TransactionPostings>) -> bool {
    b.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> is_applied(t, a[i], #[trigger] b[i])
}
pub open spec fn all_of(a: Action) -> Seq<Action> { match a { Action::All(v) => v@, _ => Seq::empty() } }
pub proof fn lemma_act_all(t: Table, a: Action, v: Vec<Action>, s: St, r: Result<St, Fail>)
    requires a == Action::All(v), all_acted(t, v@, s, r),
    ensures acted(t, a, s, r),
{ let f = choose|f: nat| #[trigger] acts(t, v@, s, f) == Some(r); assert(act(t, a, s, f + 1) == Some(r)); }
pub proof fn lemma_act_jump(t: Table, a: Action, n: String, s: St, r: Result<(St, bool), Fail>)
    requires a == Action::JumpChain(n), t.chains@.contains_key(n), chained(t, t.chains@[n].0@, s, r),
    ensures acted(t, a, s, match r { Ok((u, _)) => Ok(u), Err(e) => Err(e) }),
{ let f = choose|f: nat| #[trigger] chain(t, t.chains@[n].0@, s, f) == Some(r); assert(act(t, a, s, f + 1) is Some); }
pub proof fn lemma_acts_none(t: Table, s: St)
    ensures all_acted(t, Seq::<Action>::empty(), s, Ok(s)),
{ assert(acts(t, Seq::<Action>::empty(), s, 1) == Some(Ok::<St, Fail>(s))); }
pub proof fn lemma_acts_next(t: Table, v: Seq<Action>, s: St, u: St, a: Action, r: Result<St, Fail>)
    requires all_acted(t, v, s, Ok(u)), acted(t, a, u, r),
    ensures all_acted(t, v.push(a), s, r),
{
    let f = choose|f: nat| #[trigger] acts(t, v, s, f) == Some(Ok::<St, Fail>(u));
    let g = choose|g: nat| #[trigger] act(t, a, u, g) == Some(r);
    let h = f + g;
    lemma_deeper(t, f, h); lemma_deeper(t, g, h);
    assert(v.push(a).drop_last() =~= v);
    assert(acts(t, v.push(a), s, h + 1) == Some(r));
}
pub proof fn lemma_acts_failed(t: Table, v: Seq<Action>, k: int, s: St, e: Fail)
    requires 0 <= k <= v.len(), all_acted(t, v.take(k), s, Err(e)),
    ensures all_acted(t, v, s, Err(e)),
    decreases v.len(),
{
    if k == v.len() { assert(v.take(k) =~= v); } else {
        assert(v.drop_last().take(k) =~= v.take(k));
        lemma_acts_failed(t, v.drop_last(), k, s, e);
        let f = choose|f: nat| #[trigger] acts(t, v.drop_last(), s, f) == Some(Err::<St, Fail>(e));
        assert(acts(t, v, s, f + 1) == Some(Err::<St, Fail>(e)));
    }
}
pub proof fn lemma_rule_idle(t: Table, x: Rule, s: St)
    requires !holds(x.predicate, s),
    ensures ruled(t, x, s, Ok((s, false))),
{ assert(rule(t, x, s, 1) == Some(Ok::<(St, bool), Fail>((s, false)))); }
pub proof fn lemma_rule_fired(t: Table, x: Rule, s: St, r: Result<St, Fail>)
    requires holds(x.predicate, s), acted(t, x.action, s, r),
    ensures ruled(t, x, s, match r { Ok(u) => Ok((u, x.result is Return)), Err(e) => Err(e) }),
{ let f = choose|f: nat| #[trigger] act(t, x.action, s, f) == Some(r); assert(rule(t, x, s, f + 1) is Some); }
pub proof fn lemma_chain_none(t: Table, s: St)
    ensures chained(t, Seq::<Rule>::empty(), s, Ok((s, false))),
{ assert(chain(t, Seq::<Rule>::empty(), s, 1) == Some(Ok::<(St, bool), Fail>((s, false)))); }
pub proof fn lemma_chain_next(t: Table, v: Seq<Rule>, s: St, u: St, x: Rule, r: Result<(St, bool), Fail>)
    requires chained(t, v, s, Ok((u, false))), ruled(t, x, u, r),
    ensures chained(t, v.push(x), s, r),
{
    let f = choose|f: nat| #[trigger] chain(t, v, s, f) == Some(Ok::<(St, bool), Fail>((u, false)));
    let g = choose|g: nat| #[trigger] rule(t, x, u, g) == Some(r);
    let h = f + g;
    lemma_deeper(t, f, h); lemma_deeper(t, g, h);
    assert(v.push(x).drop_last() =~= v);
    assert(chain(t, v.push(x), s, h + 1) == Some(r));
}
/// A chain that failed or returned early has no more to do.
pub proof fn lemma_chain_over(t: Table, v: Seq<Rule>, k: int, s: St, r: Result<(St, bool), Fail>)
    requires 0 <= k <= v.len(), chained(t, v.take(k), s, r), r is Ok ==> r->Ok_0.1,
    ensures chained(t, v, s, r),
    decreases v.len(),
{
    if k == v.len() { assert(v.take(k) =~= v); } else {
        assert(v.drop_last().take(k) =~= v.take(k));
        lemma_chain_over(t, v.drop_last(), k, s, r);
        let f = choose|f: nat| #[trigger] chain(t, v.drop_last(), s, f) == Some(r);
        assert(chain(t, v, s, f + 1) == Some(r));
    }
}

/// Every jump of a valid table leads to a chain of it, and it has a start chain.
pub open spec fn valid_action(t: Table, a: Action) -> bool
    decreases a
{
    match a {
        Action::All(v) => forall|i: int| 0 <= i < v@.len() ==> valid_action(t, #[trigger] v@[i]),
        Action::JumpChain(n) => t.chains@.contains_key(n),
        _ => true,
    }
}
pub open spec fn valid_rules(t: Table, v: Seq<Rule>) -> bool { forall|i: int| 0 <= i < v.len() ==> valid_action(t, #[trigger] v[i].action) }
pub open spec fn valid(t: Table) -> bool {
    t.chains@.contains_key(start()) && forall|n: String| #[trigger] t.chains@.contains_key(n) ==> valid_rules(t, t.chains@[n].0@)
}
pub open spec fn valid_chains(t: Table) -> bool { forall|n: String| #[trigger] t.chains@.contains_key(n) ==> valid_rules(t, t.chains@[n].0@) }
/// The rules of a valid table never look for a chain in vain.
pub proof fn lemma_valid(t: Table, f: nat)
    requires valid(t),
    ensures
        forall|a: Action, s: St| valid_action(t, a) ==> #[trigger] act(t, a, s, f) != Some(Err::<St, Fail>(Fail::NoChain)),
        forall|v: Seq<Action>, s: St| (forall|i: int| 0 <= i < v.len() ==> valid_action(t, #[trigger] v[i])) ==> #[trigger] acts(t, v, s, f) != Some(Err::<St, Fail>(Fail::NoChain)),
        forall|r: Rule, s: St| valid_action(t, r.action) ==> #[trigger] rule(t, r, s, f) != Some(Err::<(St, bool), Fail>(Fail::NoChain)),
        forall|v: Seq<Rule>, s: St| valid_rules(t, v) ==> #[trigger] chain(t, v, s, f) != Some(Err::<(St, bool), Fail>(Fail::NoChain)),
    decreases f,
{
    if f > 0 {
        let f1 = (f - 1) as nat;
        lemma_valid(t, f1);
        assert forall|a: Action, s: St| valid_action(t, a) implies #[trigger] act(t, a, s, f) != Some(Err::<St, Fail>(Fail::NoChain)) by {
            match a {
                Action::All(v) => { assert(acts(t, v@, s, f1) != Some(Err::<St, Fail>(Fail::NoChain))); }
                Action::JumpChain(n) => { let c = t.chains@[n].0@; assert(chain(t, c, s, f1) != Some(Err::<(St, bool), Fail>(Fail::NoChain))); }
                _ => {}
            }
        }
        assert forall|v: Seq<Action>, s: St| (forall|i: int| 0 <= i < v.len() ==> valid_action(t, #[trigger] v[i])) implies #[trigger] acts(t, v, s, f) != Some(Err::<St, Fail>(Fail::NoChain)) by {
            if v.len() > 0 {
                let d = v.drop_last();
                assert forall|i: int| 0 <= i < d.len() implies valid_action(t, #[trigger] d[i]) by { assert(d[i] == v[i]); }
                assert(acts(t, d, s, f1) != Some(Err::<St, Fail>(Fail::NoChain)));
                assert(valid_action(t, v[v.len() - 1]));
                if acts(t, d, s, f1) is Some && acts(t, d, s, f1)->0 is Ok { let u = acts(t, d, s, f1)->0->Ok_0; assert(act(t, v.last(), u, f1) != Some(Err::<St, Fail>(Fail::NoChain))); }
            }
        }
        assert forall|r: Rule, s: St| valid_action(t, r.action) implies #[trigger] rule(t, r, s, f) != Some(Err::<(St, bool), Fail>(Fail::NoChain)) by {
            assert(act(t, r.action, s, f1) != Some(Err::<St, Fail>(Fail::NoChain)));
        }
        assert forall|v: Seq<Rule>, s: St| valid_rules(t, v) implies #[trigger] chain(t, v, s, f) != Some(Err::<(St, bool), Fail>(Fail::NoChain)) by {
            if v.len() > 0 {
                let d = v.drop_last();
                assert(valid_rules(t, d)) by { assert forall|i: int| 0 <= i < d.len() implies valid_action(t, #[trigger] d[i].action) by { assert(d[i] == v[i]); } }
                assert(chain(t, d, s, f1) != Some(Err::<(St, bool), Fail>(Fail::NoChain)));
                assert(valid_action(t, v[v.len() - 1].action));
                if chain(t, d, s, f1) is Some && chain(t, d, s, f1)->0 is Ok { let u = chain(t, d, s, f1)->0->Ok_0.0; assert(rule(t, v.last(), u, f1) != Some(Err::<(St, bool), Fail>(Fail::NoChain))); }
            }
        }
    }
}
pub proof fn lemma_valid_fails(t: Table, x: TransactionPostings, e: Fail)
    requires valid(t), fails(t, x, e),
    ensures e is Reported,
{
    let (ts, n, b) = choose|ts: Seq<(Transaction, Com)>, n: int, b: Seq<PostingInternal>| #[trigger] failed_at(t, x, ts, n, b, e);
    let v = t.chains@[start()].0@;
    let s = pst(ts.last(), x.posts@[n]);
    let f = choose|f: nat| #[trigger] chain(t, v, s, f) == Some(Err::<(St, bool), Fail>(e));
    lemma_valid(t, f);
}
pub proof fn lemma_in_action(a: Action, v: Vec<Action>, k: int)
    requires 0 <= k < v@.len(), a == Action::All(v),
    ensures decreases_to!(a => v@[k]),
{ assert(decreases_to!(v => v[k])); match a { Action::All(q) => { assert(decreases_to!(a => q)); } _ => {} } }

@fn Action::validate
@ret r
@spec
    ensures r is Ok <==> valid_action(*$1, *self),
    decreases *self,
@loop 0
    invariant
        it.seq().unref() == all_of(*self), self is All,
        forall|j: int| 0 <= j < it.index() ==> valid_action(*$1, #[trigger] all_of(*self)[j]),
@loopbegin 0
    proof { let k = it.index() as int; assert(it.seq().unref()[k] == *it.seq()[k]); match self { Action::All(v) => { lemma_in_action(*self, *v, k); } _ => {} } }
@props C16

@fn Rule::validate
@ret r
@spec
    ensures r is Ok <==> valid_action(*$1, self.action),
@props C16

@fn Chain::validate
@ret r
@spec
    ensures r is Ok <==> valid_rules(*$1, self.0@),
@loop 0
    invariant
        it.seq().unref() == self.0@,
        forall|j: int| 0 <= j < it.index() ==> valid_action(*$1, #[trigger] self.0@[j].action),
@loopbegin 0
    proof { let k = it.index() as int; assert(it.seq().unref()[k] == *it.seq()[k]); }
@props C16

@fn Table::validate
@ret r
@spec
    ensures r is Ok <==> valid(*self),
@loop 0
    invariant
        self.chains@.contains_key(start()),
        it.seq().unref().to_set() == self.chains@.values(),
        forall|j: int| 0 <= j < it.index() ==> valid_rules(*self, (#[trigger] it.seq()[j]).0@),
        it.index() == it.seq().len() ==> valid(*self),
@loopbegin 0
    proof {
        let k = it.index() as int;
        let vs = it.seq().unref();
        let m = self.chains@;
        assert(vs[k] == *it.seq()[k]);
        assert(vs.to_set().contains(vs[k]));
        let n0 = choose|n: String| #[trigger] m.contains_key(n) && m[n] == *chain;
        assert(valid(*self) ==> valid_rules(*self, m[n0].0@));
        assert(k + 1 == vs.len() && valid_rules(*self, chain.0@) ==> valid(*self)) by {
            if k + 1 == vs.len() && valid_rules(*self, chain.0@) {
                assert forall|n: String| #[trigger] m.contains_key(n) implies valid_rules(*self, m[n].0@) by {
                    assert(m.values().contains(m[n]));
                    assert(vs.to_set().contains(m[n]));
                    let j = choose|j: int| 0 <= j < vs.len() && vs[j] == m[n];
                    assert(vs[j] == *it.seq()[j]);
                }
            }
        }
    }
@props C16

@fn load_from_path
@ret r
@spec
    ensures
        r is Ok ==> is_rules(crate::vx::path_buf($1), r->Ok_0) && valid(r->Ok_0),
        r is Err ==> bad_rules(crate::vx::path_buf($1)),
@begin
    proof {
        let p = crate::vx::path_buf($1);
        assert forall|t: Table, s: Set<Option<PathBuf>>| source::parsed(p) is Some && #[trigger] source::file_loaded(Some(p), source::parsed(p)->0, source::Ld { m: Map::empty(), seen: Set::empty() }, Some(source::Ld { m: t.chains@, seen: s }))
            implies is_rules(p, t) && (!valid(t) ==> bad_rules(p)) by {}
    }
@props C16

@fn TransactionProcessorFactory for Command::make_processor
@ret r
@props C16
@fn TransactionProcessor for Table::update_transactions
@ret r
@props C15

@fn Table::get_chain
@ret r
@spec
    ensures
        r is Ok <==> self.chains@.contains_key(mk($1@)),
        r is Ok ==> *r->Ok_0 == self.chains@[mk($1@)],
@props C15 C16

@fn RegexReplace::replacement
@ret r
@replace `self.regex.0.replace($1, &self.replacement).into()`
crate::vx::re_replace(&self.regex.0, $1, &self.replacement)
@spec
    ensures r@ == re_replaced(self.regex.0, $1@, self.replacement@),
@props C15

@fn Action::apply
@ret r
@fattr #[verifier::exec_allows_no_decreases_clause]
@fattr #[verifier::loop_isolation(false)]
@spec
    ensures
        same_place(*old($2), *final($2)),
        r is Ok ==> acted(*$1, *self, st(*old($2)), Ok(st(*final($2)))),
        r is Err ==> exists|e: Fail| #[trigger] acted(*$1, *self, st(*old($2)), Err(e)),
@begin
    let ghost s0 = st(*$2);
    proof {
        let t = *$1;
        lemma_acts_none(t, s0);
        assert(all_of(*self).take(0) =~= Seq::<Action>::empty());
        assert(all_of(*self).take(all_of(*self).len() as int) =~= all_of(*self));
        if self is Error { assert(act(t, *self, s0, 1) == Some(Err::<St, Fail>(Fail::Reported))); assert(acted(t, *self, s0, Err(Fail::Reported))); }
        assert forall|n: String, r: Result<(St, bool), Fail>| *self == Action::JumpChain(n) && t.chains@.contains_key(n) && #[trigger] chained(t, t.chains@[n].0@, s0, r)
            implies acted(t, *self, s0, match r { Ok((u, _)) => Ok(u), Err(e) => Err(e) }) by { lemma_act_jump(t, *self, n, s0, r); }
        if self is JumpChain && act(t, *self, s0, 1) == Some(Err::<St, Fail>(Fail::NoChain)) { assert(acted(t, *self, s0, Err(Fail::NoChain))); }
    }
@loop 0
    invariant
        it.seq().unref() == all_of(*self), self is All, same_place(*old($2), *$2),
        all_acted(*$1, all_of(*self).take(it.index() as int), s0, Ok(st(*$2))),
        it.index() == it.seq().len() ==> all_acted(*$1, all_of(*self), s0, Ok(st(*$2))),
@loopbegin 0
    let ghost s1 = st(*$2);
    proof {
        let t = *$1;
        let k = it.index() as int;
        let v = all_of(*self);
        assert(it.seq().unref()[k] == *it.seq()[k]);
        assert(v.take(k + 1) =~= v.take(k).push(v[k]));
        assert(v.take(v.len() as int) =~= v);
        assert forall|r: Result<St, Fail>| #[trigger] acted(t, v[k], s1, r) implies all_acted(t, v.take(k + 1), s0, r) && (r is Err ==> acted(t, *self, s0, r)) by {
            lemma_acts_next(t, v.take(k), s0, s1, v[k], r);
            if r is Err { lemma_acts_failed(t, v, k + 1, s0, r->Err_0); match self { Action::All(w) => { lemma_act_all(t, *self, *w, s0, r); } _ => {} } }
        }
    }
@sbefore `action.apply($1`
    assert(*action == all_of(*self)[it.index() as int]);
@tail
    proof {
        match self {
            Action::All(v) => { lemma_act_all(*$1, *self, *v, s0, Ok(st(*$2))); }
            Action::JumpChain(n) => {}
            _ => { assert(act(*$1, *self, s0, 1) == Some(Ok::<St, Fail>(st(*$2)))); }
        }
    }
@props C15

@fn Rule::apply
@ret r
@fattr #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures
        same_place(*old($2), *final($2)),
        r is Ok ==> ruled(*$1, *self, st(*old($2)), Ok((st(*final($2)), r->Ok_0 is Return))),
        r is Err ==> exists|e: Fail| #[trigger] ruled(*$1, *self, st(*old($2)), Err(e)),
@begin
    let ghost s0 = st(*$2);
    proof {
        let t = *$1;
        if !holds(self.predicate, s0) { lemma_rule_idle(t, *self, s0); }
        assert forall|r: Result<St, Fail>| holds(self.predicate, s0) && #[trigger] acted(t, self.action, s0, r)
            implies ruled(t, *self, s0, match r { Ok(u) => Ok((u, self.result is Return)), Err(e) => Err(e) }) by { lemma_rule_fired(t, *self, s0, r); }
    }
@props C15

@fn Chain::apply
@ret r
@fattr #[verifier::exec_allows_no_decreases_clause]
@fattr #[verifier::loop_isolation(false)]
@spec
    ensures
        same_place(*old($2), *final($2)),
        r is Ok ==> exists|b: bool| #[trigger] chained(*$1, self.0@, st(*old($2)), Ok((st(*final($2)), b))),
        r is Err ==> exists|e: Fail| #[trigger] chained(*$1, self.0@, st(*old($2)), Err(e)),
@begin
    let ghost s0 = st(*$2);
    proof { lemma_chain_none(*$1, s0); assert(self.0@.take(0) =~= Seq::<Rule>::empty()); assert(self.0@.take(self.0@.len() as int) =~= self.0@); }
@loop 0
    invariant_except_break
        chained(*$1, self.0@.take(it.index() as int), s0, Ok((st(*$2), false))),
    invariant
        it.seq().unref() == self.0@, same_place(*old($2), *$2),
    ensures
        exists|b: bool| #[trigger] chained(*$1, self.0@, s0, Ok((st(*$2), b))),
@loopbegin 0
    let ghost s1 = st(*$2);
    proof {
        let t = *$1;
        let k = it.index() as int;
        let v = self.0@;
        assert(it.seq().unref()[k] == *it.seq()[k]);
        assert(v.take(k + 1) =~= v.take(k).push(v[k]));
        assert forall|r: Result<(St, bool), Fail>| #[trigger] ruled(t, v[k], s1, r) implies chained(t, v.take(k + 1), s0, r) && (r is Err || r->Ok_0.1 ==> chained(t, v, s0, r)) by {
            lemma_chain_next(t, v.take(k), s0, s1, v[k], r);
            if r is Err || r->Ok_0.1 { lemma_chain_over(t, v, k + 1, s0, r); }
        }
    }
@props C15

@fn Table::new
@props C16
@ret r
@spec
    ensures r.chains == $1,
@fn Chain::new
@props C16
@ret r
@spec
    ensures r.0 == $1,

@fn Table::update_transaction
@ret r
@fattr #[verifier::loop_isolation(false)]
@spec
    ensures
        r is Ok ==> is_applied(*self, $1, r->Ok_0),
        r is Err ==> exists|e: Fail| #[trigger] fails(*self, $1, e),
@begin
    let ghost x = $1;
    let ghost v0 = $1.posts@;
    let ghost mut ts = seq![(x.trn.raw, com(x.trn.comment))];
    proof { if !self.chains@.contains_key(self::start()) { assert(fails(*self, x, Fail::NoChain)); } }
@loop 0
    invariant
        it.seq().len() == v0.len(), after_borrow($1.posts)@.len() == v0.len(),
        forall|j: int| 0 <= j < it.seq().len() ==> *(#[trigger] it.seq()[j]) == v0[j] && *final(it.seq()[j]) == after_borrow($1.posts)@[j],
        ts.len() == it.index() + 1, ts[0] == (x.trn.raw, com(x.trn.comment)), ts.last() == ($1.trn.raw, com($1.trn.comment)),
        posted(*self, v0, ts, it.index() as int, after_borrow($1.posts)@),
        it.index() == it.seq().len() ==> is_applied_so_far(*self, x, ts, after_borrow($1.posts)@),
@loopbegin 0
    let ghost s1 = st_of($1.trn, *post);
    let ghost k = it.index() as int;
    proof {
        assert(*it.seq()[k] == *post);
        assert(*final(it.seq()[k]) == after_borrow($1.posts)@[k]);
        assert(s1 == pst(ts.last(), v0[k]));
        assert forall|e: Fail| #[trigger] chained(*self, self.chains@[self::start()].0@, s1, Err(e)) implies fails(*self, x, e) by {
            assert(failed_at(*self, x, ts, k, after_borrow($1.posts)@, e));
        }
    }
@loopend 0
    proof {
        let ts0 = ts;
        ts = ts.push(($1.trn.raw, com($1.trn.comment)));
        assert(done(*self, pst(ts0.last(), v0[k]), pst(ts.last(), *post)));
        assert(*post == after_borrow($1.posts)@[k]);
        assert forall|j: int| 0 <= j < k + 1 implies done(*self, pst(ts[j], v0[j]), pst(ts[j + 1], #[trigger] after_borrow($1.posts)@[j])) by { if j < k { assert(ts[j] == ts0[j] && ts[j + 1] == ts0[j + 1]); } }
    }
@tail
    proof { assert(applied(*self, x, ts, v0.len() as int, $1)); }
@props C15

@fn Table::update_transactions
@ret r
@spec
    ensures
        r is Ok ==> all_applied(*self, $1@, r->Ok_0@),
        r is Err ==> exists|i: int, e: Fail| 0 <= i < $1@.len() && #[trigger] fails(*self, $1@[i], e),
@begin
    let ghost v0 = $1@;
@chain 0 result
    invariant_except_break
        vx_err is None,
        vx_acc@.len() == vx_it.index(),
        forall|j: int| 0 <= j < vx_acc@.len() ==> is_applied(*self, v0[j], #[trigger] vx_acc@[j]),
        vx_it.index() == vx_it.seq().len() ==> all_applied(*self, v0, vx_acc@),
    invariant
        vx_it.seq() == v0,
    ensures
        vx_err is None ==> all_applied(*self, v0, vx_acc@),
        vx_err is Some ==> exists|i: int, e: Fail| 0 <= i < v0.len() && #[trigger] fails(*self, v0[i], e),
---
    let ghost k = vx_it.index() as int;
    proof { assert(vx_x == v0[k]); }
@props C15

@file rules/table/source.rs
@pubfields File Entry
@add
use crate::vx::{canon, parent, within};
#[verifier::external_type_specification]
pub struct ExFile(File);
#[verifier::external_type_specification]
pub struct ExEntry(Entry);
/// The file system does not change while rules are loaded: the entries of a rules file (none: it cannot be read or parsed).
pub open spec fn parsed(p: PathBuf) -> Option<Seq<Entry>> { match ron_value::<Vec<Entry>>(p) { Some(v) => Some(v@), None => None } }
/// Chains by name, and the files (by canonical path) taken so far.
#[verifier::ext_equal]
pub ghost struct Ld { pub m: Map<String, Chain>, pub seen: Set<Option<PathBuf>> }
pub open spec fn include_path(from: Option<PathBuf>, p: PathBuf) -> Option<PathBuf> {
    match from { None => Some(p), Some(f) => match parent(f) { None => None, Some(d) => Some(within(d, p)) } }
}
/// The canonical path of a file: `None` if there is none.
pub open spec fn place(src: Option<PathBuf>) -> Option<Option<PathBuf>> {
    match src { None => Some(None), Some(p) => match canon(p) { None => None, Some(q) => Some(Some(q)) } }
}
/// What loading a file does: nothing when it was taken before; else it adds every entry in order.
pub open spec fn load_file(src: Option<PathBuf>, es: Seq<Entry>, st: Ld, f: nat) -> Option<Option<Ld>>
    decreases f
{
    if f == 0 { None } else { match place(src) {
        None => Some(None),
        Some(sp) => if st.seen.contains(sp) { Some(Some(st)) } else { load_entries(sp, es, Ld { seen: st.seen.insert(sp), ..st }, (f - 1) as nat) },
    } }
}
pub open spec fn load_entries(sp: Option<PathBuf>, es: Seq<Entry>, st: Ld, f: nat) -> Option<Option<Ld>>
    decreases f
{
    if f == 0 { None } else if es.len() == 0 { Some(Some(st)) } else {
        match load_entries(sp, es.drop_last(), st, (f - 1) as nat) { Some(Some(u)) => load_entry(sp, es.last(), u, (f - 1) as nat), r => r }
    }
}
pub open spec fn load_entry(sp: Option<PathBuf>, e: Entry, st: Ld, f: nat) -> Option<Option<Ld>>
    decreases f
{
    if f == 0 { None } else { match e {
        Entry::Include(p) => match include_path(sp, p) {
            None => Some(None),
            Some(q) => match parsed(q) { None => Some(None), Some(es) => load_file(Some(q), es, st, (f - 1) as nat) },
        },
        Entry::Chain(n, rules) => if st.m.contains_key(n) { Some(None) } else { Some(Some(Ld { m: st.m.insert(n, Chain(rules)), ..st })) },
    } }
}
pub proof fn lemma_load_deeper(f: nat, g: nat)
    requires f <= g,
    ensures
        forall|src: Option<PathBuf>, es: Seq<Entry>, st: Ld| #[trigger] load_file(src, es, st, f) is Some ==> load_file(src, es, st, g) == load_file(src, es, st, f),
        forall|sp: Option<PathBuf>, es: Seq<Entry>, st: Ld| #[trigger] load_entries(sp, es, st, f) is Some ==> load_entries(sp, es, st, g) == load_entries(sp, es, st, f),
        forall|sp: Option<PathBuf>, e: Entry, st: Ld| #[trigger] load_entry(sp, e, st, f) is Some ==> load_entry(sp, e, st, g) == load_entry(sp, e, st, f),
    decreases f,
{
    if f > 0 {
        let (f1, g1) = ((f - 1) as nat, (g - 1) as nat);
        lemma_load_deeper(f1, g1);
        assert forall|src: Option<PathBuf>, es: Seq<Entry>, st: Ld| #[trigger] load_file(src, es, st, f) is Some implies load_file(src, es, st, g) == load_file(src, es, st, f) by {
            match place(src) { Some(sp) => { let u = Ld { seen: st.seen.insert(sp), ..st }; assert(load_entries(sp, es, u, f1) is Some ==> load_entries(sp, es, u, g1) == load_entries(sp, es, u, f1)); } None => {} }
        }
        assert forall|sp: Option<PathBuf>, es: Seq<Entry>, st: Ld| #[trigger] load_entries(sp, es, st, f) is Some implies load_entries(sp, es, st, g) == load_entries(sp, es, st, f) by {
            let d = es.drop_last();
            assert(load_entries(sp, d, st, f1) is Some ==> load_entries(sp, d, st, g1) == load_entries(sp, d, st, f1));
            if es.len() > 0 && load_entries(sp, d, st, f1) is Some && load_entries(sp, d, st, f1)->0 is Some {
                let u = load_entries(sp, d, st, f1)->0->0;
                assert(load_entry(sp, es.last(), u, f1) is Some ==> load_entry(sp, es.last(), u, g1) == load_entry(sp, es.last(), u, f1));
            }
        }
        assert forall|sp: Option<PathBuf>, e: Entry, st: Ld| #[trigger] load_entry(sp, e, st, f) is Some implies load_entry(sp, e, st, g) == load_entry(sp, e, st, f) by {
            match e { Entry::Include(p) => { match include_path(sp, p) { Some(q) => { match parsed(q) { Some(es) => {
                assert(load_file(Some(q), es, st, f1) is Some ==> load_file(Some(q), es, st, g1) == load_file(Some(q), es, st, f1)); } None => {} } } None => {} } } _ => {} }
        }
    }
}
pub open spec fn file_loaded(src: Option<PathBuf>, es: Seq<Entry>, st: Ld, r: Option<Ld>) -> bool { exists|f: nat| #[trigger] load_file(src, es, st, f) == Some(r) }
pub open spec fn entries_loaded(sp: Option<PathBuf>, es: Seq<Entry>, st: Ld, r: Option<Ld>) -> bool { exists|f: nat| #[trigger] load_entries(sp, es, st, f) == Some(r) }
pub open spec fn entry_loaded(sp: Option<PathBuf>, e: Entry, st: Ld, r: Option<Ld>) -> bool { exists|f: nat| #[trigger] load_entry(sp, e, st, f) == Some(r) }
pub proof fn lemma_one_load(src: Option<PathBuf>, es: Seq<Entry>, st: Ld, a: Option<Ld>, b: Option<Ld>)
    requires file_loaded(src, es, st, a), file_loaded(src, es, st, b),
    ensures a == b,
{
    let f = choose|f: nat| #[trigger] load_file(src, es, st, f) == Some(a);
    let g = choose|g: nat| #[trigger] load_file(src, es, st, g) == Some(b);
    if f <= g { lemma_load_deeper(f, g); } else { lemma_load_deeper(g, f); }
}
pub proof fn lemma_entries_none(sp: Option<PathBuf>, st: Ld)
    ensures entries_loaded(sp, Seq::<Entry>::empty(), st, Some(st)),
{ assert(load_entries(sp, Seq::<Entry>::empty(), st, 1) == Some(Some::<Ld>(st))); }
pub proof fn lemma_entries_next(sp: Option<PathBuf>, es: Seq<Entry>, st: Ld, u: Ld, e: Entry, r: Option<Ld>)
    requires entries_loaded(sp, es, st, Some(u)), entry_loaded(sp, e, u, r),
    ensures entries_loaded(sp, es.push(e), st, r),
{
    let f = choose|f: nat| #[trigger] load_entries(sp, es, st, f) == Some(Some::<Ld>(u));
    let g = choose|g: nat| #[trigger] load_entry(sp, e, u, g) == Some(r);
    let h = f + g;
    lemma_load_deeper(f, h); lemma_load_deeper(g, h);
    assert(es.push(e).drop_last() =~= es);
    assert(load_entries(sp, es.push(e), st, h + 1) == Some(r));
}
pub proof fn lemma_entries_failed(sp: Option<PathBuf>, es: Seq<Entry>, k: int, st: Ld)
    requires 0 <= k <= es.len(), entries_loaded(sp, es.take(k), st, None),
    ensures entries_loaded(sp, es, st, None),
    decreases es.len(),
{
    if k == es.len() { assert(es.take(k) =~= es); } else {
        assert(es.drop_last().take(k) =~= es.take(k));
        lemma_entries_failed(sp, es.drop_last(), k, st);
        let f = choose|f: nat| #[trigger] load_entries(sp, es.drop_last(), st, f) == Some(None::<Ld>);
        assert(load_entries(sp, es, st, f + 1) == Some(None::<Ld>));
    }
}
pub proof fn lemma_entry_file(sp: Option<PathBuf>, e: Entry, p: PathBuf, q: PathBuf, es: Seq<Entry>, st: Ld, r: Option<Ld>)
    requires e == Entry::Include(p), include_path(sp, p) == Some(q), parsed(q) == Some(es), file_loaded(Some(q), es, st, r),
    ensures entry_loaded(sp, e, st, r),
{ let f = choose|f: nat| #[trigger] load_file(Some(q), es, st, f) == Some(r); assert(load_entry(sp, e, st, f + 1) == Some(r)); }
pub proof fn lemma_file_entries(src: Option<PathBuf>, sp: Option<PathBuf>, es: Seq<Entry>, st: Ld, r: Option<Ld>)
    requires place(src) == Some(sp), !st.seen.contains(sp), entries_loaded(sp, es, Ld { seen: st.seen.insert(sp), ..st }, r),
    ensures file_loaded(src, es, st, r),
{ let f = choose|f: nat| #[trigger] load_entries(sp, es, Ld { seen: st.seen.insert(sp), ..st }, f) == Some(r); assert(load_file(src, es, st, f + 1) == Some(r)); }

pub open spec fn included(sp: Option<PathBuf>, e: Entry) -> (PathBuf, PathBuf, Seq<Entry>) {
    match e { Entry::Include(p) => (p, include_path(sp, p)->0, parsed(include_path(sp, p)->0)->0), _ => (sp->0, sp->0, Seq::empty()) }
}
@fn File::from_path
@ret r
@replace `ron::de::from_reader( std::fs::File::open($1)?, )?`
crate::vx::ron_file::<Vec<Entry>>($1)?
@replace `$1.to_owned()`
crate::vx::own_path($1)
@props C16
@spec
    ensures
        r is Ok <==> parsed(crate::vx::path_buf($1)) is Some,
        r is Ok ==> r->Ok_0.source == Some(crate::vx::path_buf($1)) && r->Ok_0.entries@ == parsed(crate::vx::path_buf($1))->0,

@fn File::load
@ret r
@spec
    ensures
        r is Ok ==> exists|s: Set<Option<PathBuf>>| #[trigger] file_loaded(self.source, self.entries@, Ld { m: Map::empty(), seen: Set::empty() }, Some(Ld { m: r->Ok_0.chains@, seen: s })),
        r is Err ==> file_loaded(self.source, self.entries@, Ld { m: Map::empty(), seen: Set::empty() }, None),
@begin
    let ghost me = self;
@tail
    proof { assert(vx_t is Ok); assert(vx_t->Ok_0.chains@ == chains@); assert(vx_t->Ok_0.chains == chains);
 assert(file_loaded(me.source, me.entries@, Ld { m: Map::empty(), seen: Set::empty() }, Some(Ld { m: vx_t->Ok_0.chains@, seen: seen_paths@ }))); }
@props C16

@fn File::load_into
@ret r
@fattr #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures
        r is Ok ==> file_loaded(self.source, self.entries@, Ld { m: old($1)@, seen: old($2)@ }, Some(Ld { m: final($1)@, seen: final($2)@ })),
        r is Err ==> file_loaded(self.source, self.entries@, Ld { m: old($1)@, seen: old($2)@ }, None),
@fattr #[verifier::loop_isolation(false)]
@begin
    let ghost es = self.entries@;
    let ghost src = self.source;
    let ghost st0 = Ld { m: $1@, seen: $2@ };
    let ghost sp = place(src)->0;
    let ghost st1 = Ld { m: $1@, seen: $2@.insert(sp) };
    proof {
        assert(load_file(src, es, st0, 1) is Some <==> place(src) is None || st0.seen.contains(sp));
        if st0.seen.contains(sp) { assert(st0.seen.insert(sp) =~= st0.seen); }
        lemma_entries_none(sp, st1);
        assert(es.take(0) =~= Seq::<Entry>::empty());
        assert(es.take(es.len() as int) =~= es);
        assert forall|r: Option<Ld>| place(src) is Some && !st0.seen.contains(sp) && #[trigger] entries_loaded(sp, es, st1, r) implies file_loaded(src, es, st0, r) by { lemma_file_entries(src, sp, es, st0, r); }
    }
@loop 0
    invariant
        it.seq() == es, self_path == sp, place(src) is Some, !st0.seen.contains(sp),
        entries_loaded(sp, es.take(it.index() as int), st1, Some(Ld { m: $1@, seen: $2@ })),
        it.index() == it.seq().len() ==> file_loaded(src, es, st0, Some(Ld { m: $1@, seen: $2@ })),
@loopbegin 0
    proof {
        let k = it.index() as int;
        let u = Ld { m: $1@, seen: $2@ };
        assert(entry == es[k]);
        assert(es.take(k + 1) =~= es.take(k).push(es[k]));
        assert(es.take(es.len() as int) =~= es);
        assert forall|r: Option<Ld>| #[trigger] entry_loaded(sp, es[k], u, r) implies entries_loaded(sp, es.take(k + 1), st1, r) && (k + 1 == es.len() || r is None ==> file_loaded(src, es, st0, r)) by {
            lemma_entries_next(sp, es.take(k), st1, u, es[k], r);
            if r is None { lemma_entries_failed(sp, es, k + 1, st1); }
            if k + 1 == es.len() || r is None { lemma_file_entries(src, sp, es, st0, r); }
        }
        assert(load_entry(sp, es[k], u, 1) is Some ==> entry_loaded(sp, es[k], u, load_entry(sp, es[k], u, 1)->0));
        let (p, q, es2) = included(sp, es[k]);
        assert forall|r: Option<Ld>| es[k] == Entry::Include(p) && include_path(sp, p) == Some(q) && parsed(q) == Some(es2) && #[trigger] file_loaded(Some(q), es2, u, r)
            implies entry_loaded(sp, es[k], u, r) by { lemma_entry_file(sp, es[k], p, q, es2, u, r); }
    }
@props C16

@file rules/cmd.rs
@pubfields Command Engine
@add
#[verifier::external_type_specification]
pub struct ExCommand(Command);
#[verifier::external_type_specification]
pub struct ExEngine(Engine);
use crate::internal::{trns_in, trns_of, only_trns, holds};
use crate::rules::table::{self, makes, all_applied, bad_rules, fails, Fail};
use ledger_parser::Ledger;
/// The command that was asked for.
pub uninterp spec fn asked(c: Command) -> bool;
pub open spec fn rules_of(c: Command) -> table::Command { match c.engine { Engine::Table(t) => t } }
/// What is written: the journal, with the rules applied to every transaction.
pub open spec fn changed(c: Command, t: table::Table, l: Ledger, a: Seq<TransactionPostings>, b: Seq<TransactionPostings>, o: Ledger) -> bool {
    makes(rules_of(c), t) && filespec::was_read(c.input_journal, l) && only_trns(l.items@) && trns_in(trns_of(l.items@), a) && all_applied(t, a, b) && holds(o, b)
}
pub axiom fn ax_may_write(c: Command, t: table::Table, l: Ledger, a: Seq<TransactionPostings>, b: Seq<TransactionPostings>, o: Ledger)
    requires asked(c), changed(c, t, l, a, b, o),
    ensures filespec::may_write(c.output, o);
pub open spec fn succeeded(c: Command, t: table::Table, l: Ledger, a: Seq<TransactionPostings>, b: Seq<TransactionPostings>, o: Ledger) -> bool {
    changed(c, t, l, a, b, o) && filespec::wrote(c.output, o)
}
pub open spec fn rejected(c: Command, t: table::Table, l: Ledger, a: Seq<TransactionPostings>, i: int, e: Fail) -> bool {
    makes(rules_of(c), t) && filespec::was_read(c.input_journal, l) && only_trns(l.items@) && trns_in(trns_of(l.items@), a) && 0 <= i < a.len() && fails(t, a[i], e) && e is Reported
}
pub open spec fn bad_input(c: Command) -> bool { filespec::unreadable(c.input_journal) || exists|l: Ledger| #[trigger] filespec::was_read(c.input_journal, l) && !only_trns(l.items@) }

@fn Engine::get_factory
@ret r
@spec
    ensures match *self { Engine::Table(c) => (forall|p: spec_fn(Seq<TransactionPostings>, Seq<TransactionPostings>) -> bool, q: spec_fn(Seq<TransactionPostings>) -> bool| #[trigger] r.made(p, q) <==> c.made(p, q)) && (r.unusable() <==> c.unusable()) },
@props C15 C16

@fn Command::run
@ret r
@spec
    requires asked(*self),
    ensures
        r is Ok ==> exists|t: table::Table, l: Ledger, a: Seq<TransactionPostings>, b: Seq<TransactionPostings>, o: Ledger| #[trigger] succeeded(*self, t, l, a, b, o),
        r is Err ==> bad_rules(rules_of(*self).rules) || bad_input(*self) || filespec::unwritable(self.output)
            || exists|t: table::Table, l: Ledger, a: Seq<TransactionPostings>, i: int, e: Fail| #[trigger] rejected(*self, t, l, a, i, e),
@safter `make_processor()`
    let ghost p0 = crate::rules::processor::doing(&*processor);
    let ghost q0 = crate::rules::processor::refusing(&*processor);
    proof { assert(rules_of(*self).made(p0, q0)); }
    let ghost t0 = choose|t: table::Table| #[trigger] table::is_rules(rules_of(*self).rules, t) && table::valid(t) && table::does(t, p0, q0);
@safter `from_ledger(`
    let ghost a0 = trns@;
    proof {
        assert forall|i: int, e: Fail| 0 <= i < a0.len() && #[trigger] fails(t0, a0[i], e) implies exists|l: Ledger| #[trigger] rejected(*self, t0, l, a0, i, e) by { table::lemma_valid_fails(t0, a0[i], e); assert(rejected(*self, t0, l0, a0, i, e)); }
        assert(q0(a0) <==> processor.refused(a0));
    }
@safter `filespec::read_ledger_file`
    let ghost l0 = ledger;
@safter `update_transactions(`
    let ghost b0 = new_trns@;
    proof { assert(p0(a0, b0)); }
@sbefore `filespec::write_ledger_file`
    proof { ax_may_write(*self, t0, l0, a0, b0, ledger); assert(filespec::wrote(self.output, ledger) ==> succeeded(*self, t0, l0, a0, b0, ledger)); }
@props C15 C16 C18
