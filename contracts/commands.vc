@file merge/cmd.rs
@pubfields Command
@add
#[verifier::external_type_specification]
pub struct ExCommand(Command);
use crate::merge::merger::{Merger, outcome, rejected, built, TransactionMergeAction, Ev, makes, opens, joins_into, any_makes, any_opens, any_into, trn_news, date_trns, enacts, does, carries, planned, unmerged_of, acts_of, ev_fps, any_fp, date_posts, decides, ambiguous, tagged, left};
use crate::merge::{posting, transaction};
use crate::internal::{holds, PostingInternal};
use ledger_parser::{Ledger, Transaction};
/// The command that was asked for.
pub uninterp spec fn asked(c: Command) -> bool;
pub open spec fn cat<T>(s: Seq<Seq<T>>) -> Seq<T> decreases s.len() { if s.len() == 0 { Seq::empty() } else { cat(s.drop_last()) + s.last() } }
pub open spec fn step(o: Merger, src: Seq<TransactionPostings>, n: Merger, u: Seq<TransactionPostings>) -> bool {
    n.wf() && !rejected(o.posts, src) && exists|plan: Seq<TransactionMergeAction>, es: Seq<Seq<Ev>>| #[trigger] outcome(o, src, plan, es, n, u)
}
/// The groups are merged one after the other, each into what the ones before it gave, starting from nothing.
pub open spec fn merged(gs: Seq<Vec<TransactionPostings>>, ms: Seq<Merger>, us: Seq<Seq<TransactionPostings>>) -> bool {
    &&& ms.len() == gs.len() + 1 && us.len() == gs.len()
    &&& ms[0].wf() && ms[0].pa() == Map::<posting::Index, posting::Holder>::empty() && ms[0].ta() == Map::<transaction::Index, transaction::Holder>::empty()
    &&& forall|k: int| 0 <= k < gs.len() ==> step(ms[k], gs[k]@, ms[k + 1], #[trigger] us[k])
}
pub open spec fn is_file(fs: FileSpec, g: Seq<Vec<TransactionPostings>>) -> bool {
    exists|l: Ledger, t: Seq<TransactionPostings>, a: Seq<TransactionPostings>, names: Seq<String>| #[trigger] sources::file_groups(fs, l, t, a, names, g)
}
pub open spec fn files(c: Command, fg: Seq<Seq<Vec<TransactionPostings>>>) -> bool {
    fg.len() <= c.inputs@.len() && forall|i: int| 0 <= i < fg.len() ==> is_file(c.inputs@[i], #[trigger] fg[i])
}
/// Every input was read and merged.
pub open spec fn complete(c: Command, fg: Seq<Seq<Vec<TransactionPostings>>>, ms: Seq<Merger>, us: Seq<Seq<TransactionPostings>>) -> bool {
    files(c, fg) && fg.len() == c.inputs@.len() && merged(cat(fg), ms, us)
}
/// Some group is rejected, in the state that all the groups before it gave.
pub open spec fn faulty(c: Command, fg: Seq<Seq<Vec<TransactionPostings>>>, g: Seq<Vec<TransactionPostings>>, k: int, ms: Seq<Merger>, us: Seq<Seq<TransactionPostings>>) -> bool {
    &&& files(c, fg) && fg.len() < c.inputs@.len() && is_file(c.inputs@[fg.len() as int], g) && 0 <= k < g.len()
    &&& merged(cat(fg) + g.take(k), ms, us) && rejected(ms.last().posts, g[k]@)
}
pub open spec fn is_unmerged(c: Command, l: Ledger, us: Seq<Seq<TransactionPostings>>) -> bool { c.unmerged is Some && cat(us).len() > 0 && holds(l, cat(us)) }
pub open spec fn is_output(l: Ledger, m: Merger, ks: Seq<transaction::Index>, b: Seq<TransactionPostings>, s: Seq<TransactionPostings>) -> bool {
    built(m, ks, b) && sources::all_stripped(b, s) && holds(l, s)
}
/// What is written: after all inputs were merged, the transactions left unmerged; when there are none or these are written, the merged ones.
pub axiom fn ax_may_unmerged(c: Command, fg: Seq<Seq<Vec<TransactionPostings>>>, ms: Seq<Merger>, us: Seq<Seq<TransactionPostings>>, l: Ledger)
    requires asked(c), complete(c, fg, ms, us), is_unmerged(c, l, us),
    ensures filespec::may_write(c.unmerged->0, l);
pub axiom fn ax_may_output(c: Command, fg: Seq<Seq<Vec<TransactionPostings>>>, ms: Seq<Merger>, us: Seq<Seq<TransactionPostings>>, ks: Seq<transaction::Index>, b: Seq<TransactionPostings>, s: Seq<TransactionPostings>, l: Ledger, u: Ledger)
    requires
        asked(c), complete(c, fg, ms, us), is_output(l, ms.last(), ks, b, s),
        cat(us).len() == 0 || is_unmerged(c, u, us) && filespec::wrote(c.unmerged->0, u),
    ensures filespec::may_write(c.output, l);
pub open spec fn succeeded(c: Command, fg: Seq<Seq<Vec<TransactionPostings>>>, ms: Seq<Merger>, us: Seq<Seq<TransactionPostings>>, ks: Seq<transaction::Index>, b: Seq<TransactionPostings>, s: Seq<TransactionPostings>, l: Ledger, u: Ledger) -> bool {
    &&& complete(c, fg, ms, us)
    &&& cat(us).len() == 0 || is_unmerged(c, u, us) && filespec::wrote(c.unmerged->0, u)
    &&& is_output(l, ms.last(), ks, b, s) && filespec::wrote(c.output, l)
}
pub open spec fn unnamed(c: Command, fg: Seq<Seq<Vec<TransactionPostings>>>, ms: Seq<Merger>, us: Seq<Seq<TransactionPostings>>) -> bool { complete(c, fg, ms, us) && cat(us).len() > 0 && c.unmerged is None }
pub open spec fn any_bad(c: Command) -> bool { exists|i: int| 0 <= i < c.inputs@.len() && sources::bad_file(#[trigger] c.inputs@[i]) }

pub proof fn lemma_cat_push<T>(s: Seq<Seq<T>>, x: Seq<T>)
    ensures cat(s.push(x)) == cat(s) + x,
{ assert(s.push(x).drop_last() =~= s); }
pub proof fn lemma_merged_push(gs: Seq<Vec<TransactionPostings>>, ms: Seq<Merger>, us: Seq<Seq<TransactionPostings>>, v: Vec<TransactionPostings>, n: Merger, u: Seq<TransactionPostings>)
    requires merged(gs, ms, us), step(ms.last(), v@, n, u),
    ensures merged(gs.push(v), ms.push(n), us.push(u)),
{
    assert forall|k: int| 0 <= k < gs.len() + 1 implies step(ms.push(n)[k], gs.push(v)[k]@, ms.push(n)[k + 1], #[trigger] us.push(u)[k]) by {
        if k < gs.len() { assert(step(ms[k], gs[k]@, ms[k + 1], us[k])); }
    }
}

// ==== The properties of merging, as consequences of the contracts.
/// All that a merge did: the groups in the order they were merged, the store before and after each, what each left unmerged.
pub ghost struct Hist { pub gs: Seq<Vec<TransactionPostings>>, pub ms: Seq<Merger>, pub us: Seq<Seq<TransactionPostings>> }
/// The place of an input posting (or of what became of it): group, transaction of the group, posting (change) of the transaction.
pub open spec fn earlier(a: int, n: int, k: int, b: int, o: int, l: int) -> bool { a < b || a == b && (n < o || n == o && k < l) }
pub open spec fn start(es: Seq<Seq<Ev>>, n: int) -> int { crate::merge::merger::flat(es.take(n)).len() as int }
impl Hist {
    pub open spec fn ok(&self) -> bool { merged(self.gs, self.ms, self.us) }
    pub open spec fn last(&self) -> Merger { self.ms.last() }
    /// What was decided for the transactions of group `a`, and the changes that carried it out.
    pub open spec fn run(&self, a: int) -> (Seq<TransactionMergeAction>, Seq<Seq<Ev>>) {
        choose|plan: Seq<TransactionMergeAction>, es: Seq<Seq<Ev>>| #[trigger] outcome(self.ms[a], self.gs[a]@, plan, es, self.ms[a + 1], self.us[a])
    }
    pub open spec fn plan(&self, a: int) -> Seq<TransactionMergeAction> { self.run(a).0 }
    pub open spec fn evs(&self, a: int) -> Seq<Seq<Ev>> { self.run(a).1 }
    pub open spec fn all(&self, a: int) -> Seq<Ev> { crate::merge::merger::flat(self.evs(a)) }
    pub open spec fn is_trn(&self, a: int, n: int) -> bool { 0 <= a < self.gs.len() && 0 <= n < self.gs[a]@.len() }
    pub open spec fn trn(&self, a: int, n: int) -> TransactionPostings { self.gs[a]@[n] }
    pub open spec fn is_post(&self, a: int, n: int, j: int) -> bool { self.is_trn(a, n) && 0 <= j < self.trn(a, n).posts@.len() }
    pub open spec fn kept_out(&self, a: int, n: int) -> bool { self.plan(a)[n] is LeaveUnmerged }
    pub open spec fn is_ev(&self, a: int, n: int, k: int) -> bool { self.is_trn(a, n) && 0 <= k < self.evs(a)[n].len() }
    pub open spec fn ev(&self, a: int, n: int, k: int) -> Ev { self.evs(a)[n][k] }
    pub open spec fn pos(&self, a: int, n: int, k: int) -> int { start(self.evs(a), n) + k }
    pub open spec fn makes_at(&self, a: int, n: int, k: int, i: posting::Index) -> bool { self.is_ev(a, n, k) && makes(self.ev(a, n, k), i) }
    pub open spec fn joins_at(&self, a: int, n: int, k: int, i: posting::Index) -> bool { self.is_ev(a, n, k) && joins_into(self.ev(a, n, k), i) }
    pub open spec fn opens_at(&self, a: int, n: int, k: int, t: transaction::Index) -> bool { self.is_ev(a, n, k) && opens(self.ev(a, n, k), t) }
    /// The change that input posting `j` caused, and the posting and transaction of the store it went to.
    pub open spec fn shift(&self, a: int, n: int) -> int { if self.plan(a)[n] is New { 1 } else { 0 } }
    pub open spec fn change(&self, a: int, n: int, j: int) -> Ev { self.ev(a, n, j + self.shift(a, n)) }
    pub open spec fn lands(&self, a: int, n: int, j: int) -> posting::Index {
        match self.change(a, n, j) { Ev::New { i, .. } => i, Ev::Into { i, .. } => i, _ => arbitrary() }
    }
    pub open spec fn dest(&self, a: int, n: int) -> transaction::Index {
        match self.plan(a)[n] { TransactionMergeAction::MergeInto { dest_trn, .. } => dest_trn, _ => self.ev(a, n, 0)->Trn_t }
    }
    pub proof fn lemma_run(&self, a: int)
        requires self.ok(), 0 <= a < self.gs.len(),
        ensures
            outcome(self.ms[a], self.gs[a]@, self.plan(a), self.evs(a), self.ms[a + 1], self.us[a]),
            self.ms[a].placed(self.all(a), self.ms[a + 1]), !rejected(self.ms[a].posts, self.gs[a]@),
            self.ms[a + 1].wf(), self.evs(a).len() == self.gs[a]@.len(), self.plan(a).len() == self.gs[a]@.len(),
            forall|n: int| 0 <= n < self.gs[a]@.len() ==> enacts(#[trigger] self.plan(a)[n], self.evs(a)[n]) && planned(self.ms[a].posts, self.gs[a]@[n], self.plan(a)[n]),
    {
        assert(step(self.ms[a], self.gs[a]@, self.ms[a + 1], self.us[a]));
        let (plan, es) = choose|plan: Seq<TransactionMergeAction>, es: Seq<Seq<Ev>>| #[trigger] outcome(self.ms[a], self.gs[a]@, plan, es, self.ms[a + 1], self.us[a]);
        assert forall|n: int| 0 <= n < self.gs[a]@.len() implies enacts(#[trigger] self.plan(a)[n], self.evs(a)[n]) && planned(self.ms[a].posts, self.gs[a]@[n], self.plan(a)[n]) by {
            assert(enacts(self.plan(a)[n], self.evs(a)[n]));
            assert(planned(self.ms[a].posts, self.gs[a]@[n], self.plan(a)[n]));
        }
    }
    pub proof fn lemma_wf(&self, a: int)
        requires self.ok(), 0 <= a <= self.gs.len(),
        ensures self.ms[a].wf(),
    { if a > 0 { self.lemma_run(a - 1); } }
    pub proof fn lemma_at(&self, a: int, n: int, k: int)
        requires self.ok(), self.is_ev(a, n, k),
        ensures 0 <= self.pos(a, n, k) < self.all(a).len(), self.all(a)[self.pos(a, n, k)] == self.ev(a, n, k),
    { self.lemma_run(a); lemma_flat_at(self.evs(a), n, k); }
    /// The change that input posting `j` of a merged transaction caused.
    #[verifier::spinoff_prover]
    pub proof fn lemma_change(&self, a: int, n: int, j: int)
        requires self.ok(), self.is_post(a, n, j), !self.kept_out(a, n),
        ensures ({
            let k = j + self.shift(a, n); let i = self.lands(a, n, j); let p = self.trn(a, n).posts@[j];
            &&& self.is_ev(a, n, k)
            &&& self.makes_at(a, n, k, i) && self.change(a, n, j)->New_p.posting == p && self.change(a, n, j)->New_t == self.dest(a, n)
                || self.joins_at(a, n, k, i) && self.change(a, n, j)->Into_p.posting == p && self.ms[a].pa().contains_key(i) && self.ms[a].pa()[i].parent_trn == self.dest(a, n)
        }),
    {
        self.lemma_run(a); self.lemma_wf(a);
        let acts = acts_of(self.plan(a)[n]);
        let t = self.dest(a, n);
        let k = j + self.shift(a, n);
        let e = self.evs(a)[n];
        crate::merge::merger::lemma_sends(self.ms[a].posts, self.trn(a, n), self.plan(a)[n]);
        assert(enacts(self.plan(a)[n], e));
        if self.plan(a)[n] is New { assert(e.subrange(1, e.len() as int)[j] == e[k]); }
        assert(does(t, acts[j], e[k]));
        assert(acts[j].0.posting == self.trn(a, n).posts@[j]);
        if acts[j].1 is MergeIntoExisting { assert(crate::merge::merger::leads(self.ms[a].posts, acts, self.ms[a].pa()[acts[j].1->MergeIntoExisting_0].parent_trn)); }
    }
    /// ... and every change of a posting was caused by one.
    #[verifier::spinoff_prover]
    pub proof fn lemma_cause(&self, a: int, n: int, k: int)
        requires self.ok(), self.is_ev(a, n, k),
        ensures
            !self.kept_out(a, n),
            self.ev(a, n, k) is Trn <==> k < self.shift(a, n),
            self.ev(a, n, k) is Trn ==> self.ev(a, n, k)->trn == self.trn(a, n).trn && self.ev(a, n, k)->Trn_t == self.dest(a, n),
            !(self.ev(a, n, k) is Trn) ==> self.is_post(a, n, k - self.shift(a, n)) && self.change(a, n, k - self.shift(a, n)) == self.ev(a, n, k),
    {
        self.lemma_run(a);
        let e = self.evs(a)[n];
        assert(enacts(self.plan(a)[n], e));
        let acts = acts_of(self.plan(a)[n]);
        let j = k - self.shift(a, n);
        if j >= 0 {
            if self.plan(a)[n] is New { assert(e.subrange(1, e.len() as int)[j] == e[k]); }
            assert(does(self.dest(a, n), acts[j], e[k]));
        }
    }
    pub proof fn lemma_find(&self, a: int, x: int) -> (r: (int, int))
        requires self.ok(), 0 <= a < self.gs.len(), 0 <= x < self.all(a).len(),
        ensures self.is_ev(a, r.0, r.1), self.pos(a, r.0, r.1) == x, self.ev(a, r.0, r.1) == self.all(a)[x],
    { self.lemma_run(a); lemma_flat_find(self.evs(a), x) }
    /// What is in the store stays, its transaction too.
    pub proof fn lemma_stays(&self, a: int, b: int)
        requires self.ok(), 0 <= a <= b <= self.gs.len(),
        ensures
            forall|i: posting::Index| #[trigger] self.ms[a].pa().contains_key(i) ==> self.ms[b].pa().contains_key(i) && self.ms[b].pa()[i].parent_trn == self.ms[a].pa()[i].parent_trn,
            forall|t: transaction::Index| #[trigger] self.ms[a].ta().contains_key(t) ==> self.ms[b].ta().contains_key(t) && self.ms[b].ta()[t].trn == self.ms[a].ta()[t].trn,
            forall|fp: String| #[trigger] self.ms[a].posts.fpx().contains_key(fp) ==> self.ms[b].posts.fpx().contains_key(fp) && self.ms[b].posts.fpx()[fp] == self.ms[a].posts.fpx()[fp],
        decreases b - a,
    {
        if a < b {
            self.lemma_stays(a, b - 1);
            self.lemma_run(b - 1);
            assert forall|i: posting::Index| #[trigger] self.ms[a].pa().contains_key(i) implies self.ms[b].pa().contains_key(i) && self.ms[b].pa()[i].parent_trn == self.ms[a].pa()[i].parent_trn by { assert(self.ms[b - 1].pa().contains_key(i)); }
            assert forall|t: transaction::Index| #[trigger] self.ms[a].ta().contains_key(t) implies self.ms[b].ta().contains_key(t) && self.ms[b].ta()[t].trn == self.ms[a].ta()[t].trn by { assert(self.ms[b - 1].ta().contains_key(t)); }
            assert forall|fp: String| #[trigger] self.ms[a].posts.fpx().contains_key(fp) implies self.ms[b].posts.fpx().contains_key(fp) && self.ms[b].posts.fpx()[fp] == self.ms[a].posts.fpx()[fp] by { assert(self.ms[b - 1].posts.fpx().contains_key(fp)); }
        }
    }
    /// A posting comes into the store by one change: it is not there before and there from then on, in the transaction of the change.
    pub proof fn lemma_made(&self, a: int, n: int, k: int, i: posting::Index, b: int)
        requires self.ok(), self.makes_at(a, n, k, i), 0 <= b <= self.gs.len(),
        ensures
            b <= a ==> !self.ms[b].pa().contains_key(i),
            b > a ==> self.ms[b].pa().contains_key(i) && self.ms[b].pa()[i].parent_trn == self.ev(a, n, k)->New_t,
            self.ms[a + 1].pa()[i].posting == self.ev(a, n, k)->New_p.posting,
    {
        self.lemma_run(a); self.lemma_at(a, n, k);
        assert(makes(self.all(a)[self.pos(a, n, k)], i));
        assert(any_makes(self.all(a), i));
        assert(self.ms[a + 1].pa().contains_key(i));
        if b <= a { self.lemma_stays(b, a); if self.ms[b].pa().contains_key(i) { assert(self.ms[a].pa().contains_key(i)); } }
        else { self.lemma_stays(a + 1, b); }
    }
    pub proof fn lemma_made_once(&self, a: int, n: int, k: int, b: int, o: int, l: int, i: posting::Index)
        requires self.ok(), self.makes_at(a, n, k, i), self.makes_at(b, o, l, i),
        ensures a == b && n == o && k == l,
    {
        if a < b { self.lemma_made(a, n, k, i, b); self.lemma_made(b, o, l, i, b); }
        else if b < a { self.lemma_made(a, n, k, i, a); self.lemma_made(b, o, l, i, a); }
        else {
            self.lemma_run(a); self.lemma_at(a, n, k); self.lemma_at(b, o, l);
            let x = self.pos(a, n, k); let y = self.pos(b, o, l);
            assert(makes(self.all(a)[x], i) && makes(self.all(a)[y], i));
            assert(x == y);
            if earlier(a, n, k, b, o, l) { lemma_flat_less(self.evs(a), n, k, o, l); }
            if earlier(b, o, l, a, n, k) { lemma_flat_less(self.evs(a), o, l, n, k); }
        }
    }
    /// The change that made a posting of the store.
    pub proof fn lemma_maker(&self, b: int, i: posting::Index) -> (r: (int, int, int))
        requires self.ok(), 0 <= b <= self.gs.len(), self.ms[b].pa().contains_key(i),
        ensures r.0 < b, self.makes_at(r.0, r.1, r.2, i),
        decreases b,
    {
        self.lemma_run(b - 1);
        if self.ms[b - 1].pa().contains_key(i) { self.lemma_maker(b - 1, i) }
        else {
            let x = choose|x: int| 0 <= x < self.all(b - 1).len() && #[trigger] makes(self.all(b - 1)[x], i);
            let r = self.lemma_find(b - 1, x);
            (b - 1, r.0, r.1)
        }
    }
    /// A transaction comes into the store by one change, too.
    pub proof fn lemma_opened_at(&self, a: int, n: int, k: int, t: transaction::Index, b: int)
        requires self.ok(), self.opens_at(a, n, k, t), 0 <= b <= self.gs.len(),
        ensures
            b <= a ==> !self.ms[b].ta().contains_key(t),
            b > a ==> self.ms[b].ta().contains_key(t) && self.ms[b].ta()[t].trn == self.trn(a, n).trn,
            k == 0, t == self.dest(a, n), !self.kept_out(a, n),
    {
        self.lemma_run(a); self.lemma_at(a, n, k); self.lemma_cause(a, n, k);
        assert(opens(self.all(a)[self.pos(a, n, k)], t));
        assert(any_opens(self.all(a), t));
        assert(self.ms[a + 1].ta().contains_key(t));
        if b <= a { self.lemma_stays(b, a); if self.ms[b].ta().contains_key(t) { assert(self.ms[a].ta().contains_key(t)); } }
        else { self.lemma_stays(a + 1, b); }
    }
    pub proof fn lemma_opener(&self, b: int, t: transaction::Index) -> (r: (int, int))
        requires self.ok(), 0 <= b <= self.gs.len(), self.ms[b].ta().contains_key(t),
        ensures r.0 < b, self.opens_at(r.0, r.1, 0, t),
        decreases b,
    {
        self.lemma_run(b - 1);
        if self.ms[b - 1].ta().contains_key(t) { self.lemma_opener(b - 1, t) }
        else {
            let x = choose|x: int| 0 <= x < self.all(b - 1).len() && #[trigger] opens(self.all(b - 1)[x], t);
            let r = self.lemma_find(b - 1, x);
            self.lemma_cause(b - 1, r.0, r.1);
            (b - 1, r.0)
        }
    }
    /// Where a transaction stands among those of its date.
    pub open spec fn rank(&self, a: int, n: int) -> int {
        let d = self.trn(a, n).trn.raw.date;
        (self.ms[a].trns.on(d).len() + date_trns(self.all(a).take(self.pos(a, n, 0)), d).len()) as int
    }
    pub proof fn lemma_rank(&self, a: int, n: int, t: transaction::Index, b: int)
        requires self.ok(), self.opens_at(a, n, 0, t), a < b <= self.gs.len(),
        ensures 0 <= self.rank(a, n) < self.ms[b].trns.on(self.trn(a, n).trn.raw.date).len(), self.ms[b].trns.on(self.trn(a, n).trn.raw.date)[self.rank(a, n)] == t,
        decreases b,
    {
        let d = self.trn(a, n).trn.raw.date;
        self.lemma_run(b - 1);
        if b - 1 == a {
            self.lemma_at(a, n, 0); self.lemma_cause(a, n, 0);
            lemma_date_trns(self.all(a), d, self.pos(a, n, 0));
            assert(self.ms[b].trns.on(d) =~= self.ms[a].trns.on(d) + date_trns(self.all(a), d));
        } else {
            self.lemma_rank(a, n, t, b - 1);
            assert(self.ms[b].trns.on(d) =~= self.ms[b - 1].trns.on(d) + date_trns(self.all(b - 1), d));
        }
    }
    pub proof fn lemma_rank_less(&self, a: int, n: int, t: transaction::Index, b: int, o: int, u: transaction::Index)
        requires self.ok(), self.opens_at(a, n, 0, t), self.opens_at(b, o, 0, u), earlier(a, n, 0, b, o, 0), self.trn(a, n).trn.raw.date == self.trn(b, o).trn.raw.date,
        ensures self.rank(a, n) < self.rank(b, o),
    {
        let d = self.trn(a, n).trn.raw.date;
        if a < b { self.lemma_rank(a, n, t, b); }
        else {
            self.lemma_run(a); self.lemma_at(a, n, 0); self.lemma_at(b, o, 0); self.lemma_cause(a, n, 0);
            lemma_flat_less(self.evs(a), n, 0, o, 0);
            lemma_date_trns_less(self.all(a), d, self.pos(a, n, 0), self.pos(b, o, 0));
        }
    }
    /// Where a posting stands among those of its transaction.
    pub open spec fn place(&self, a: int, n: int, k: int) -> int {
        let t = self.ev(a, n, k)->New_t;
        (if self.ms[a].ta().contains_key(t) { self.ms[a].ta()[t].postings@.len() as int } else { 0 }) + trn_news(self.all(a).take(self.pos(a, n, k)), t).len()
    }
    pub proof fn lemma_step_posts(&self, b: int, t: transaction::Index)
        requires self.ok(), 0 <= b < self.gs.len(), self.ms[b + 1].ta().contains_key(t),
        ensures self.ms[b + 1].ta()[t].postings@ =~= (if self.ms[b].ta().contains_key(t) { self.ms[b].ta()[t].postings@ } else { Seq::empty() }) + trn_news(self.all(b), t),
    {
        self.lemma_run(b);
        if !self.ms[b].ta().contains_key(t) {
            assert(any_opens(self.all(b), t));
            let x = choose|x: int| 0 <= x < self.all(b).len() && #[trigger] opens(self.all(b)[x], t);
            assert(opens(self.all(b)[x], t));
        }
    }
    pub proof fn lemma_place(&self, a: int, n: int, k: int, i: posting::Index, b: int)
        requires self.ok(), self.makes_at(a, n, k, i), a < b <= self.gs.len(),
        ensures
            self.ms[b].ta().contains_key(self.ev(a, n, k)->New_t),
            0 <= self.place(a, n, k) < self.ms[b].ta()[self.ev(a, n, k)->New_t].postings@.len(), self.ms[b].ta()[self.ev(a, n, k)->New_t].postings@[self.place(a, n, k)] == i,
        decreases b,
    {
        let t = self.ev(a, n, k)->New_t;
        self.lemma_run(b - 1);
        self.lemma_made(a, n, k, i, b);
        assert(self.ms[b].ta().contains_key(t));
        self.lemma_step_posts(b - 1, t);
        if b - 1 == a { self.lemma_at(a, n, k); lemma_trn_news(self.all(a), t, self.pos(a, n, k)); }
        else { self.lemma_place(a, n, k, i, b - 1); }
    }
    pub proof fn lemma_place_less(&self, a: int, n: int, k: int, i: posting::Index, b: int, o: int, l: int, j: posting::Index)
        requires self.ok(), self.makes_at(a, n, k, i), self.makes_at(b, o, l, j), earlier(a, n, k, b, o, l), self.ev(a, n, k)->New_t == self.ev(b, o, l)->New_t,
        ensures self.place(a, n, k) < self.place(b, o, l),
    {
        let t = self.ev(a, n, k)->New_t;
        if a < b { self.lemma_place(a, n, k, i, b); }
        else {
            self.lemma_run(a); self.lemma_at(a, n, k); self.lemma_at(b, o, l);
            lemma_flat_less(self.evs(a), n, k, o, l);
            lemma_trn_news_less(self.all(a), t, self.pos(a, n, k), self.pos(b, o, l));
        }
    }
}
pub proof fn lemma_flat_at(es: Seq<Seq<Ev>>, n: int, k: int)
    requires 0 <= n < es.len(), 0 <= k < es[n].len(),
    ensures 0 <= start(es, n) + k < crate::merge::merger::flat(es).len(), crate::merge::merger::flat(es)[start(es, n) + k] == es[n][k],
    decreases es.len(),
{
    let d = es.drop_last();
    if n == d.len() { assert(es.take(n) =~= d); }
    else { lemma_flat_at(d, n, k); assert(d.take(n) =~= es.take(n)); }
}
pub proof fn lemma_flat_find(es: Seq<Seq<Ev>>, x: int) -> (r: (int, int))
    requires 0 <= x < crate::merge::merger::flat(es).len(),
    ensures 0 <= r.0 < es.len(), 0 <= r.1 < es[r.0].len(), start(es, r.0) + r.1 == x, es[r.0][r.1] == crate::merge::merger::flat(es)[x],
    decreases es.len(),
{
    let d = es.drop_last();
    let f = crate::merge::merger::flat(d).len() as int;
    if x >= f { assert(es.take(es.len() - 1) =~= d); (es.len() - 1, x - f) }
    else { let r = lemma_flat_find(d, x); assert(d.take(r.0) =~= es.take(r.0)); r }
}
pub proof fn lemma_start(es: Seq<Seq<Ev>>, n: int, o: int)
    requires 0 <= n < o <= es.len(),
    ensures start(es, n) + es[n].len() <= start(es, o),
    decreases o,
{
    assert(es.take(o).drop_last() =~= es.take(o - 1));
    assert(es.take(o).last() == es[o - 1]);
    if n < o - 1 { lemma_start(es, n, o - 1); }
}
pub proof fn lemma_flat_less(es: Seq<Seq<Ev>>, n: int, k: int, o: int, l: int)
    requires 0 <= n < es.len(), 0 <= k < es[n].len(), 0 <= o < es.len(), 0 <= l < es[o].len(), earlier(0, n, k, 0, o, l),
    ensures start(es, n) + k < start(es, o) + l,
{ if n < o { lemma_start(es, n, o); } }
pub proof fn lemma_date_trns(e: Seq<Ev>, d: chrono::NaiveDate, x: int)
    requires 0 <= x < e.len(), e[x] is Trn, e[x]->trn.raw.date == d,
    ensures date_trns(e.take(x), d).len() < date_trns(e, d).len(), date_trns(e, d)[date_trns(e.take(x), d).len() as int] == e[x]->Trn_t,
    decreases e.len(),
{
    let c = e.drop_last();
    if x < c.len() { lemma_date_trns(c, d, x); assert(c.take(x) =~= e.take(x)); }
    else { assert(e.take(x) =~= c); }
}
pub proof fn lemma_date_trns_less(e: Seq<Ev>, d: chrono::NaiveDate, x: int, y: int)
    requires 0 <= x < y < e.len(), e[x] is Trn, e[x]->trn.raw.date == d,
    ensures date_trns(e.take(x), d).len() < date_trns(e.take(y), d).len(),
{ lemma_date_trns(e.take(y), d, x); assert(e.take(y).take(x) =~= e.take(x)); assert(e.take(y)[x] == e[x]); }
pub proof fn lemma_trn_news(e: Seq<Ev>, t: transaction::Index, x: int)
    requires 0 <= x < e.len(), e[x] is New, e[x]->New_t == t,
    ensures trn_news(e.take(x), t).len() < trn_news(e, t).len(), trn_news(e, t)[trn_news(e.take(x), t).len() as int] == e[x]->New_i,
    decreases e.len(),
{
    let c = e.drop_last();
    if x < c.len() { lemma_trn_news(c, t, x); assert(c.take(x) =~= e.take(x)); }
    else { assert(e.take(x) =~= c); }
}
pub proof fn lemma_trn_news_less(e: Seq<Ev>, t: transaction::Index, x: int, y: int)
    requires 0 <= x < y < e.len(), e[x] is New, e[x]->New_t == t,
    ensures trn_news(e.take(x), t).len() < trn_news(e.take(y), t).len(),
{ lemma_trn_news(e.take(y), t, x); assert(e.take(y).take(x) =~= e.take(x)); assert(e.take(y)[x] == e[x]); }
pub proof fn lemma_filter_order<T>(s: Seq<T>, p: spec_fn(T) -> bool, x: int, y: int) -> (r: (int, int))
    requires 0 <= x < y < s.len(), p(s[x]), p(s[y]),
    ensures 0 <= r.0 < r.1 < s.filter(p).len(), s.filter(p)[r.0] == s[x], s.filter(p)[r.1] == s[y],
    decreases s.len(),
{
    let d = s.drop_last();
    assert(d.push(s.last()) =~= s);
    lemma_filter_push(d, s.last(), p);
    if y < d.len() { let r = lemma_filter_order(d, p, x, y); r }
    else {
        assert(d.filter(p).contains(s[x])) by { lemma_filter(d, p); assert(d[x] == s[x]); assert(d.contains(s[x])); }
        let i = choose|i: int| 0 <= i < d.filter(p).len() && d.filter(p)[i] == s[x];
        (i, d.filter(p).len() as int)
    }
}
pub proof fn lemma_unmerged(plan: Seq<TransactionMergeAction>, n: int, k: int)
    requires 0 <= k < n <= plan.len(), plan[k] is LeaveUnmerged,
    ensures unmerged_of(plan, k).len() < unmerged_of(plan, n).len(), unmerged_of(plan, n)[unmerged_of(plan, k).len() as int] == plan[k]->LeaveUnmerged_0,
    decreases n,
{ if k < n - 1 { lemma_unmerged(plan, n - 1, k); } }
pub proof fn lemma_unmerged_from(plan: Seq<TransactionMergeAction>, n: int, x: int) -> (k: int)
    requires 0 <= n <= plan.len(), 0 <= x < unmerged_of(plan, n).len(),
    ensures 0 <= k < n, plan[k] is LeaveUnmerged, unmerged_of(plan, k).len() == x,
    decreases n,
{ if x < unmerged_of(plan, n - 1).len() { lemma_unmerged_from(plan, n - 1, x) } else { n - 1 } }
pub open spec fn cat_len<T>(s: Seq<Seq<T>>, a: int) -> int { cat(s.take(a)).len() as int }
pub proof fn lemma_cat_at<T>(s: Seq<Seq<T>>, a: int, x: int)
    requires 0 <= a < s.len(), 0 <= x < s[a].len(),
    ensures 0 <= cat_len(s, a) + x < cat(s).len(), cat(s)[cat_len(s, a) + x] == s[a][x],
    decreases s.len(),
{
    let d = s.drop_last();
    if a == d.len() { assert(s.take(a) =~= d); } else { lemma_cat_at(d, a, x); assert(d.take(a) =~= s.take(a)); }
}
pub proof fn lemma_cat_find<T>(s: Seq<Seq<T>>, y: int) -> (r: (int, int))
    requires 0 <= y < cat(s).len(),
    ensures 0 <= r.0 < s.len(), 0 <= r.1 < s[r.0].len(), cat_len(s, r.0) + r.1 == y, cat(s)[y] == s[r.0][r.1],
    decreases s.len(),
{
    let d = s.drop_last(); let f = cat(d).len() as int;
    if y >= f { assert(s.take(s.len() - 1) =~= d); (s.len() - 1, y - f) } else { let r = lemma_cat_find(d, y); assert(d.take(r.0) =~= s.take(r.0)); r }
}
pub proof fn lemma_cat_less<T>(s: Seq<Seq<T>>, a: int, b: int)
    requires 0 <= a < b <= s.len(),
    ensures cat_len(s, a) + s[a].len() <= cat_len(s, b),
    decreases b,
{
    assert(s.take(b).drop_last() =~= s.take(b - 1)); assert(s.take(b).last() == s[b - 1]);
    if a < b - 1 { lemma_cat_less(s, a, b - 1); }
}
/// The merged output: the postings of the store, transaction by transaction.
pub open spec fn gives(m: Merger, ks: Seq<transaction::Index>, s: Seq<TransactionPostings>) -> bool {
    exists|b: Seq<TransactionPostings>| #[trigger] built(m, ks, b) && sources::all_stripped(b, s)
}
/// Output posting `r` of output transaction `q` is the posting `i` of the store.
pub open spec fn shows(m: Merger, ks: Seq<transaction::Index>, q: int, r: int, i: posting::Index) -> bool {
    0 <= q < ks.len() && 0 <= r < m.ta()[ks[q]].postings@.len() && m.ta()[ks[q]].postings@[r] == i
}
/// The output transaction q stems from input transaction n of group a, the output posting r from its posting j.
pub open spec fn stems(h: Hist, ks: Seq<transaction::Index>, q: int, a: int, n: int) -> bool { 0 <= q < ks.len() && h.opens_at(a, n, 0, ks[q]) }
pub open spec fn grows(h: Hist, ks: Seq<transaction::Index>, q: int, r: int, a: int, n: int, j: int) -> bool {
    h.is_post(a, n, j) && !h.kept_out(a, n) && h.change(a, n, j) is New && shows(h.last(), ks, q, r, h.lands(a, n, j))
}
/// Input posting j of transaction n of group a was combined into the output posting r of transaction q, or became it.
pub open spec fn goes(h: Hist, ks: Seq<transaction::Index>, a: int, n: int, j: int, q: int, r: int) -> bool {
    h.is_post(a, n, j) && !h.kept_out(a, n) && shows(h.last(), ks, q, r, h.lands(a, n, j))
}
/// Input transaction n of group a is the unmerged transaction x.
pub open spec fn waits(h: Hist, a: int, n: int, x: int) -> bool {
    h.is_trn(a, n) && h.kept_out(a, n) && 0 <= x < cat(h.us).len() && x == cat_len(h.us, a) + unmerged_of(h.plan(a), n).len()
}
pub open spec fn waited(h: Hist, x: int) -> bool { exists|a: int, n: int| #[trigger] waits(h, a, n, x) }
pub open spec fn stemmed(h: Hist, ks: Seq<transaction::Index>, q: int) -> bool { exists|a: int, n: int| #[trigger] stems(h, ks, q, a, n) }
pub open spec fn grown(h: Hist, ks: Seq<transaction::Index>, q: int, r: int) -> bool { exists|a: int, n: int, j: int| #[trigger] grows(h, ks, q, r, a, n, j) }
pub open spec fn all_go(h: Hist, ks: Seq<transaction::Index>, a: int, n: int, q: int) -> bool {
    0 <= q < ks.len() && forall|j: int| #[trigger] h.is_post(a, n, j) ==> exists|r: int| #[trigger] goes(h, ks, a, n, j, q, r)
}
impl Hist {
    pub proof fn lemma_out(&self, ks: Seq<transaction::Index>, s: Seq<TransactionPostings>)
        requires self.ok(), gives(self.last(), ks, s),
        ensures
            self.last().wf(), ks.no_duplicates(), s.len() == ks.len(),
            forall|t: transaction::Index| #[trigger] ks.contains(t) <==> self.last().ta().contains_key(t),
            forall|q: int| 0 <= q < ks.len() ==> self.last().ta().contains_key(#[trigger] ks[q]),
            forall|q: int| 0 <= q < ks.len() ==> (#[trigger] s[q]).posts@.len() == self.last().ta()[ks[q]].postings@.len() && s[q].trn.raw == self.last().ta()[ks[q]].trn.raw
                && s[q].trn.comment.lines == self.last().ta()[ks[q]].trn.comment.lines && s[q].trn.comment.tags == self.last().ta()[ks[q]].trn.comment.tags
                && s[q].trn.comment.value_tags@ == self.last().ta()[ks[q]].trn.comment.value_tags@.remove(sources::key()),
            forall|q: int, r: int, i: posting::Index| #[trigger] shows(self.last(), ks, q, r, i) ==> self.last().pa().contains_key(i) && self.last().pa()[i].parent_trn == ks[q] && s[q].posts@[r] == self.last().pa()[i].posting,
    {
        self.lemma_wf(self.gs.len() as int);
        let m = self.last();
        let b = choose|b: Seq<TransactionPostings>| #[trigger] built(m, ks, b) && sources::all_stripped(b, s);
        assert forall|q: int| 0 <= q < ks.len() implies m.ta().contains_key(#[trigger] ks[q]) by { assert(ks.contains(ks[q])); }
        assert forall|q: int| 0 <= q < ks.len() implies (#[trigger] s[q]).posts@.len() == m.ta()[ks[q]].postings@.len() && s[q].trn.raw == m.ta()[ks[q]].trn.raw
                && s[q].trn.comment.lines == m.ta()[ks[q]].trn.comment.lines && s[q].trn.comment.tags == m.ta()[ks[q]].trn.comment.tags
                && s[q].trn.comment.value_tags@ == m.ta()[ks[q]].trn.comment.value_tags@.remove(sources::key()) by {
            assert(sources::stripped(b[q], s[q])); assert(crate::merge::merger::built_as(m, ks[q], b[q]));
        }
        assert forall|q: int, r: int, i: posting::Index| #[trigger] shows(m, ks, q, r, i) implies m.pa().contains_key(i) && m.pa()[i].parent_trn == ks[q] && s[q].posts@[r] == m.pa()[i].posting by {
            assert(sources::stripped(b[q], s[q])); assert(crate::merge::merger::built_as(m, ks[q], b[q]));
            assert(m.ta().contains_key(ks[q]));
        }
    }
    /// Where a posting of the store is in the output.
    pub proof fn lemma_shown(&self, ks: Seq<transaction::Index>, s: Seq<TransactionPostings>, i: posting::Index) -> (r: (int, int))
        requires self.ok(), gives(self.last(), ks, s), self.last().pa().contains_key(i),
        ensures shows(self.last(), ks, r.0, r.1, i), ks[r.0] == self.last().pa()[i].parent_trn,
    {
        self.lemma_out(ks, s);
        let m = self.last();
        let t = m.pa()[i].parent_trn;
        assert(ks.contains(t));
        let q = choose|q: int| 0 <= q < ks.len() && ks[q] == t;
        let ps = m.ta()[t].postings@;
        assert(ps.contains(i));
        let r = choose|r: int| 0 <= r < ps.len() && ps[r] == i;
        (q, r)
    }
    pub proof fn lemma_landed(&self, a: int, n: int, j: int)
        requires self.ok(), self.is_post(a, n, j), !self.kept_out(a, n),
        ensures self.last().pa().contains_key(self.lands(a, n, j)), self.last().pa()[self.lands(a, n, j)].parent_trn == self.dest(a, n),
            self.change(a, n, j) is New ==> self.makes_at(a, n, j + self.shift(a, n), self.lands(a, n, j)),
    {
        self.lemma_change(a, n, j);
        let k = j + self.shift(a, n); let i = self.lands(a, n, j);
        if self.makes_at(a, n, k, i) { self.lemma_made(a, n, k, i, self.gs.len() as int); }
        else { self.lemma_stays(a, self.gs.len() as int); }
    }
    pub proof fn lemma_origin(&self, i: posting::Index) -> (r: (int, int, int))
        requires self.ok(), self.last().pa().contains_key(i),
        ensures self.is_post(r.0, r.1, r.2), !self.kept_out(r.0, r.1), self.change(r.0, r.1, r.2) is New, self.lands(r.0, r.1, r.2) == i,
            self.makes_at(r.0, r.1, r.2 + self.shift(r.0, r.1), i),
    {
        let (a, n, k) = self.lemma_maker(self.gs.len() as int, i);
        self.lemma_cause(a, n, k);
        (a, n, k - self.shift(a, n))
    }
    pub proof fn lemma_waits(&self, a: int, n: int)
        requires self.ok(), self.is_trn(a, n), self.kept_out(a, n),
        ensures ({ let x = cat_len(self.us, a) + unmerged_of(self.plan(a), n).len(); waits(*self, a, n, x) && cat(self.us)[x] == self.plan(a)[n]->LeaveUnmerged_0 }),
    {
        self.lemma_run(a);
        lemma_unmerged(self.plan(a), self.plan(a).len() as int, n);
        lemma_cat_at(self.us, a, unmerged_of(self.plan(a), n).len() as int);
    }
}
/// C01: every input posting is in the output once, or waits with its whole transaction; the postings of a transaction stay together;
/// every output posting stems from one input posting, every output transaction from one input transaction.
#[verifier::spinoff_prover]
pub proof fn theorem_c01(h: Hist, ks: Seq<transaction::Index>, s: Seq<TransactionPostings>)
    requires h.ok(), gives(h.last(), ks, s),
    ensures
        forall|a: int, n: int| #[trigger] h.is_trn(a, n) ==> if h.kept_out(a, n) { exists|x: int| #[trigger] waits(h, a, n, x) } else { exists|q: int| #[trigger] all_go(h, ks, a, n, q) },
        forall|a: int, n: int, x: int| #[trigger] waits(h, a, n, x) ==> planned(h.ms[a].posts, h.trn(a, n), TransactionMergeAction::LeaveUnmerged(cat(h.us)[x])),
        forall|x: int| 0 <= x < cat(h.us).len() ==> #[trigger] waited(h, x),
        forall|x: int, a: int, n: int, b: int, o: int| #[trigger] waits(h, a, n, x) && #[trigger] waits(h, b, o, x) ==> a == b && n == o,
        forall|a: int, n: int, j: int, q: int, r: int, u: int, v: int| #[trigger] goes(h, ks, a, n, j, q, r) && #[trigger] goes(h, ks, a, n, j, u, v) ==> q == u && r == v,
        forall|q: int, r: int| 0 <= q < s.len() && 0 <= r < s[q].posts@.len() ==> #[trigger] grown(h, ks, q, r),
        forall|q: int, r: int, a: int, n: int, j: int, b: int, o: int, l: int| #[trigger] grows(h, ks, q, r, a, n, j) && #[trigger] grows(h, ks, q, r, b, o, l) ==> a == b && n == o && j == l,
        forall|q: int| 0 <= q < s.len() ==> #[trigger] stemmed(h, ks, q),
        forall|q: int, a: int, n: int| #[trigger] stems(h, ks, q, a, n) ==> h.is_trn(a, n) && !h.kept_out(a, n) && s[q].trn.raw == h.trn(a, n).trn.raw,
{
    h.lemma_out(ks, s);
    let m = h.last();
    assert forall|a: int, n: int| #[trigger] h.is_trn(a, n) implies if h.kept_out(a, n) { exists|x: int| #[trigger] waits(h, a, n, x) } else { exists|q: int| #[trigger] all_go(h, ks, a, n, q) } by {
        h.lemma_run(a);
        if h.kept_out(a, n) { h.lemma_waits(a, n); }
        else {
            let t = h.dest(a, n);
            h.lemma_wf(a);
            crate::merge::merger::lemma_sends(h.ms[a].posts, h.trn(a, n), h.plan(a)[n]);
            assert(enacts(h.plan(a)[n], h.evs(a)[n]));
            if h.trn(a, n).posts@.len() == 0 { assert(false); }
            assert(h.is_post(a, n, 0));
            h.lemma_landed(a, n, 0);
            let (q, r0) = h.lemma_shown(ks, s, h.lands(a, n, 0));
            assert forall|j: int| #[trigger] h.is_post(a, n, j) implies exists|r: int| #[trigger] goes(h, ks, a, n, j, q, r) by {
                h.lemma_landed(a, n, j);
                let (q1, r) = h.lemma_shown(ks, s, h.lands(a, n, j));
                assert(ks[q] == ks[q1]);
                assert(goes(h, ks, a, n, j, q, r));
            }
            assert(all_go(h, ks, a, n, q));
        }
    }
    assert forall|a: int, n: int, x: int| #[trigger] waits(h, a, n, x) implies planned(h.ms[a].posts, h.trn(a, n), TransactionMergeAction::LeaveUnmerged(cat(h.us)[x])) by { h.lemma_waits(a, n); h.lemma_run(a); assert(planned(h.ms[a].posts, h.trn(a, n), h.plan(a)[n])); }
    assert forall|x: int| 0 <= x < cat(h.us).len() implies #[trigger] waited(h, x) by {
        let (a, y) = lemma_cat_find(h.us, x);
        h.lemma_run(a);
        let n = lemma_unmerged_from(h.plan(a), h.plan(a).len() as int, y);
        assert(waits(h, a, n, x));
    }
    assert forall|x: int, a: int, n: int, b: int, o: int| #[trigger] waits(h, a, n, x) && #[trigger] waits(h, b, o, x) implies a == b && n == o by {
        if earlier(a, n, 0, b, o, 0) { lemma_waits_less(h, a, n, x, b, o, x); }
        if earlier(b, o, 0, a, n, 0) { lemma_waits_less(h, b, o, x, a, n, x); }
    }
    assert forall|a: int, n: int, j: int, q: int, r: int, u: int, v: int| #[trigger] goes(h, ks, a, n, j, q, r) && #[trigger] goes(h, ks, a, n, j, u, v) implies q == u && r == v by {
        assert(ks[q] == ks[u]);
        assert(m.ta()[ks[q]].postings@.no_duplicates());
    }
    assert forall|q: int, r: int| 0 <= q < s.len() && 0 <= r < s[q].posts@.len() implies #[trigger] grown(h, ks, q, r) by {
        let i = m.ta()[ks[q]].postings@[r];
        assert(shows(m, ks, q, r, i));
        let (a, n, j) = h.lemma_origin(i);
        assert(grows(h, ks, q, r, a, n, j));
    }
    assert forall|q: int, r: int, a: int, n: int, j: int, b: int, o: int, l: int| #[trigger] grows(h, ks, q, r, a, n, j) && #[trigger] grows(h, ks, q, r, b, o, l) implies a == b && n == o && j == l by {
        h.lemma_landed(a, n, j); h.lemma_landed(b, o, l);
        h.lemma_made_once(a, n, j + h.shift(a, n), b, o, l + h.shift(b, o), h.lands(a, n, j));
    }
    assert forall|q: int| 0 <= q < s.len() implies #[trigger] stemmed(h, ks, q) by {
        let (a, n) = h.lemma_opener(h.gs.len() as int, ks[q]);
        assert(stems(h, ks, q, a, n));
    }
    assert forall|q: int, a: int, n: int| #[trigger] stems(h, ks, q, a, n) implies h.is_trn(a, n) && !h.kept_out(a, n) && s[q].trn.raw == h.trn(a, n).trn.raw by {
        h.lemma_opened_at(a, n, 0, ks[q], h.gs.len() as int);
    }
}
pub proof fn lemma_waits_less(h: Hist, a: int, n: int, x: int, b: int, o: int, y: int)
    requires h.ok(), waits(h, a, n, x), waits(h, b, o, y), earlier(a, n, 0, b, o, 0),
    ensures x < y,
{
    h.lemma_run(a); h.lemma_run(b);
    lemma_unmerged(h.plan(a), h.plan(a).len() as int, n);
    if a < b { lemma_cat_less(h.us, a, b); } else { lemma_unmerged(h.plan(a), o, n); }
}
/// C06: transactions by date, those of a date by arrival; postings by arrival; what is left unmerged by arrival.
#[verifier::spinoff_prover]
pub proof fn theorem_c06(h: Hist, ks: Seq<transaction::Index>, s: Seq<TransactionPostings>)
    requires h.ok(), gives(h.last(), ks, s),
    ensures
        forall|q: int, u: int| 0 <= q < u < s.len() ==> date_num((#[trigger] s[q]).trn.raw.date) <= date_num((#[trigger] s[u]).trn.raw.date),
        forall|q: int, u: int, a: int, n: int, b: int, o: int| 0 <= q < u < s.len() && s[q].trn.raw.date == s[u].trn.raw.date && #[trigger] stems(h, ks, q, a, n) && #[trigger] stems(h, ks, u, b, o) ==> earlier(a, n, 0, b, o, 0),
        forall|q: int, r: int, v: int, a: int, n: int, j: int, b: int, o: int, l: int| 0 <= r < v && #[trigger] grows(h, ks, q, r, a, n, j) && #[trigger] grows(h, ks, q, v, b, o, l) ==> earlier(a, n, j, b, o, l),
        forall|x: int, y: int, a: int, n: int, b: int, o: int| x < y && #[trigger] waits(h, a, n, x) && #[trigger] waits(h, b, o, y) ==> earlier(a, n, 0, b, o, 0),
{
    h.lemma_out(ks, s);
    let m = h.last(); let e = h.gs.len() as int;
    let w = choose|b: Seq<TransactionPostings>| #[trigger] built(m, ks, b) && sources::all_stripped(b, s);
    let hs = m.trns.held(ks);
    assert forall|q: int, u: int| 0 <= q < u < s.len() implies date_num((#[trigger] s[q]).trn.raw.date) <= date_num((#[trigger] s[u]).trn.raw.date) by {
        assert(hs[q].trn.raw.date == s[q].trn.raw.date && hs[u].trn.raw.date == s[u].trn.raw.date);
    }
    assert forall|q: int, u: int, a: int, n: int, b: int, o: int| 0 <= q < u < s.len() && s[q].trn.raw.date == s[u].trn.raw.date && #[trigger] stems(h, ks, q, a, n) && #[trigger] stems(h, ks, u, b, o) implies earlier(a, n, 0, b, o, 0) by {
        h.lemma_opened_at(a, n, 0, ks[q], e); h.lemma_opened_at(b, o, 0, ks[u], e);
        let d = s[q].trn.raw.date;
        assert(h.trn(a, n).trn.raw.date == d && h.trn(b, o).trn.raw.date == d);
        h.lemma_rank(a, n, ks[q], e); h.lemma_rank(b, o, ks[u], e);
        let (x, y) = lemma_filter_order(ks, m.trns.dated(d), q, u);
        assert(ks.filter(m.trns.dated(d)) == m.trns.on(d));
        assert(m.trns.on(d).no_duplicates());
        assert(x == h.rank(a, n) && y == h.rank(b, o));
        if earlier(b, o, 0, a, n, 0) { h.lemma_rank_less(b, o, ks[u], a, n, ks[q]); }
    }
    assert forall|q: int, r: int, v: int, a: int, n: int, j: int, b: int, o: int, l: int| 0 <= r < v && #[trigger] grows(h, ks, q, r, a, n, j) && #[trigger] grows(h, ks, q, v, b, o, l) implies earlier(a, n, j, b, o, l) by {
        h.lemma_landed(a, n, j); h.lemma_landed(b, o, l);
        let i = h.lands(a, n, j); let i2 = h.lands(b, o, l);
        h.lemma_change(a, n, j); h.lemma_change(b, o, l);
        h.lemma_place(a, n, j + h.shift(a, n), i, e); h.lemma_place(b, o, l + h.shift(b, o), i2, e);
        h.lemma_made(a, n, j + h.shift(a, n), i, e); h.lemma_made(b, o, l + h.shift(b, o), i2, e);
        assert(m.ta()[ks[q]].postings@.no_duplicates());
        if earlier(b, o, l, a, n, j) { h.lemma_place_less(b, o, l + h.shift(b, o), i2, a, n, j + h.shift(a, n), i); }
    }
    assert forall|x: int, y: int, a: int, n: int, b: int, o: int| x < y && #[trigger] waits(h, a, n, x) && #[trigger] waits(h, b, o, y) implies earlier(a, n, 0, b, o, 0) by {
        if earlier(b, o, 0, a, n, 0) { lemma_waits_less(h, b, o, y, a, n, x); }
    }
}
/// Input posting j of transaction n of group a was merged.
pub open spec fn in_store(h: Hist, a: int, n: int, j: int) -> bool { h.is_post(a, n, j) && !h.kept_out(a, n) }
pub open spec fn inp(h: Hist, a: int, n: int, j: int) -> PostingInternal { h.trn(a, n).posts@[j] }
/// ... and carries the fingerprint.
pub open spec fn brings(h: Hist, a: int, n: int, j: int, fp: String) -> bool { in_store(h, a, n, j) && posting::fps(inp(h, a, n, j).comment).contains(fp) }
/// It shares a fingerprint with a posting that was merged in an earlier group.
pub open spec fn recognised(h: Hist, a: int, n: int, j: int) -> bool {
    exists|b: int, o: int, l: int, fp: String| b < a && #[trigger] brings(h, b, o, l, fp) && posting::fps(inp(h, a, n, j).comment).contains(fp)
}
/// The postings of earlier groups' transactions of a date.
pub open spec fn entered(h: Hist, a: int, d: chrono::NaiveDate, i: posting::Index) -> bool {
    exists|b: int, n: int, j: int| b < a && #[trigger] h.enters(b, n, j, d, i)
}
/// Nothing of `p` is missing in `f`, except that it may have lost the tag that says the account is unknown.
pub open spec fn keeps(p: PostingInternal, f: PostingInternal) -> bool {
    &&& forall|t: String| t != unk() && #[trigger] p.comment.tags@.contains(t) ==> f.comment.tags@.contains(t)
    &&& forall|k: String| #[trigger] p.comment.value_tags@.contains_key(k) ==> f.comment.value_tags@.contains_key(k)
    &&& forall|x: String| #[trigger] p.comment.lines@.contains(x) ==> f.comment.lines@.contains(x)
}
/// `f` is `p` with more: its amount, kind, balance when it has one, and account unless that was unknown, are the same.
pub open spec fn extends(p: PostingInternal, f: PostingInternal) -> bool {
    &&& keeps(p, f) && f.raw.amount == p.raw.amount && f.raw.reality == p.raw.reality
    &&& p.raw.balance is Some ==> f.raw.balance == p.raw.balance
    &&& !posting::has_unk(p) ==> f.raw.account == p.raw.account && !posting::has_unk(f)
    &&& p.raw.status == Some(ledger_parser::TransactionStatus::Cleared) ==> f.raw.status == p.raw.status
    &&& p.raw.status is Some ==> f.raw.status is Some
}
pub proof fn lemma_merged_keeps(d0: PostingInternal, s: PostingInternal, d1: PostingInternal)
    requires posting::is_merged(d0, s, d1),
    ensures extends(d0, d1), keeps(s, d1),
{
    crate::comment::lemma_merged_lines(d0.comment.lines@, s.comment.lines@);
    let u = crate::comment::merged_lines(d0.comment.lines@, s.comment.lines@);
    assert forall|x: String| #[trigger] d0.comment.lines@.contains(x) implies d1.comment.lines@.contains(x) by { assert(u.contains(x)); }
    assert forall|x: String| #[trigger] s.comment.lines@.contains(x) implies d1.comment.lines@.contains(x) by { assert(u.contains(x)); }
}
impl Hist {
    /// What a merged posting does to the store.
    pub proof fn lemma_effect(&self, a: int, n: int, j: int)
        requires self.ok(), in_store(*self, a, n, j),
        ensures ({
            let i = self.lands(a, n, j); let p = inp(*self, a, n, j);
            &&& self.ms[a + 1].pa().contains_key(i)
            &&& self.change(a, n, j) is New ==> !self.ms[a].pa().contains_key(i) && self.ms[a + 1].pa()[i].posting == p
            &&& !(self.change(a, n, j) is New) ==> self.ms[a].pa().contains_key(i) && posting::is_merged(self.ms[a].pa()[i].posting, p, self.ms[a + 1].pa()[i].posting)
            &&& forall|fp: String| #[trigger] posting::fps(p.comment).contains(fp) ==> any_fp(self.all(a), fp) && posting::fps(self.ms[a + 1].pa()[i].posting.comment).contains(fp)
        }),
    {
        self.lemma_run(a); self.lemma_change(a, n, j);
        let k = j + self.shift(a, n); let i = self.lands(a, n, j); let p = inp(*self, a, n, j);
        self.lemma_at(a, n, k);
        let x = self.pos(a, n, k);
        if self.makes_at(a, n, k, i) { self.lemma_made(a, n, k, i, a); self.lemma_made(a, n, k, i, a + 1); }
        else {
            assert(joins_into(self.all(a)[x], i));
            self.lemma_stays(a, a + 1);
            posting::lemma_merged_fps(self.ms[a].pa()[i].posting, p, self.ms[a + 1].pa()[i].posting);
        }
        assert forall|fp: String| #[trigger] posting::fps(p.comment).contains(fp) implies any_fp(self.all(a), fp) by { assert(ev_fps(self.all(a)[x]).contains(fp)); }
    }
    /// Who owns a fingerprint: the posting that the one which brought it was merged into.
    pub proof fn lemma_owner(&self, b: int, n: int, j: int, fp: String, a: int)
        requires self.ok(), brings(*self, b, n, j, fp), b < a <= self.gs.len(),
        ensures self.ms[a].posts.fpx().contains_key(fp), self.ms[a].posts.fpx()[fp] == self.lands(b, n, j),
    {
        self.lemma_effect(b, n, j); self.lemma_run(b); self.lemma_stays(b + 1, a);
        assert(self.ms[b + 1].posts.fpx().contains_key(fp));
    }
    #[verifier::spinoff_prover]
    pub proof fn lemma_bringer(&self, a: int, fp: String) -> (r: (int, int, int))
        requires self.ok(), 0 <= a <= self.gs.len(), self.ms[a].posts.fpx().contains_key(fp),
        ensures r.0 < a, brings(*self, r.0, r.1, r.2, fp),
        decreases a,
    {
        if a == 0 {
            self.lemma_wf(0);
            assert(self.ms[0].pa().contains_key(self.ms[0].posts.fpx()[fp]));
        }
        self.lemma_run(a - 1);
        if self.ms[a - 1].posts.fpx().contains_key(fp) { self.lemma_bringer(a - 1, fp) }
        else {
            let x = choose|x: int| 0 <= x < self.all(a - 1).len() && (#[trigger] ev_fps(self.all(a - 1)[x])).contains(fp);
            let (n, k) = self.lemma_find(a - 1, x);
            self.lemma_cause(a - 1, n, k);
            let j = k - self.shift(a - 1, n);
            self.lemma_change(a - 1, n, j);
            (a - 1, n, j)
        }
    }
    pub proof fn lemma_hit(&self, a: int, n: int, j: int)
        requires self.ok(), self.is_post(a, n, j),
        ensures self.ms[a].posts.any_hit(inp(*self, a, n, j).comment) <==> recognised(*self, a, n, j),
    {
        let c = inp(*self, a, n, j).comment; let m = self.ms[a].posts;
        if m.any_hit(c) {
            let i = choose|i: posting::Index| m.hit(c, i);
            let fp = choose|fp: String| #[trigger] posting::fps(c).contains(fp) && m.fpx().contains_key(fp) && m.fpx()[fp] == i;
            let (b, o, l) = self.lemma_bringer(a, fp);
            assert(brings(*self, b, o, l, fp));
        }
        if recognised(*self, a, n, j) {
            let (b, o, l, fp) = choose|b: int, o: int, l: int, fp: String| b < a && #[trigger] brings(*self, b, o, l, fp) && posting::fps(c).contains(fp);
            self.lemma_owner(b, o, l, fp, a);
            assert(m.hit(c, self.lands(b, o, l)));
        }
    }
    /// What was decided for a merged posting.
    pub proof fn lemma_decided(&self, a: int, n: int, j: int)
        requires self.ok(), in_store(*self, a, n, j),
        ensures ({
            let m = self.ms[a].posts; let p = inp(*self, a, n, j); let soft = m.soft(p, self.trn(a, n).trn.raw.date); let i = self.lands(a, n, j);
            &&& self.change(a, n, j) is New ==> !m.any_hit(p.comment) && soft.len() == 0
            &&& !(self.change(a, n, j) is New) ==> self.change(a, n, j) is Into && if m.any_hit(p.comment) { m.hit(p.comment, i) && forall|o: posting::Index| #[trigger] m.hit(p.comment, o) ==> o == i } else { soft =~= seq![i] }
            &&& posting::has_fp(p.comment) && !posting::has_cand(p.comment)
            &&& self.change(a, n, j) is New ==> self.change(a, n, j)->New_p.trn_date == self.trn(a, n).trn.raw.date
        }),
    {
        self.lemma_run(a); self.lemma_wf(a);
        let acts = acts_of(self.plan(a)[n]); let e = self.evs(a)[n]; let k = j + self.shift(a, n);
        crate::merge::merger::lemma_sends(self.ms[a].posts, self.trn(a, n), self.plan(a)[n]);
        assert(enacts(self.plan(a)[n], e));
        if self.plan(a)[n] is New { assert(e.subrange(1, e.len() as int)[j] == e[k]); }
        assert(does(self.dest(a, n), acts[j], e[k]));
        assert(decides(self.ms[a].posts, acts[j].0, Some(acts[j].1)));
    }
    pub open spec fn enters(&self, b: int, n: int, j: int, d: chrono::NaiveDate, i: posting::Index) -> bool {
        in_store(*self, b, n, j) && self.change(b, n, j) is New && self.trn(b, n).trn.raw.date == d && self.lands(b, n, j) == i
    }
    /// The postings of a date after a group are those before it and then the new ones.
    pub proof fn lemma_on(&self, c: int, d: chrono::NaiveDate)
        requires self.ok(), 0 <= c < self.gs.len(),
        ensures self.ms[c + 1].posts.on(d) == self.ms[c].posts.on(d) + date_posts(self.all(c), d),
    {
        self.lemma_run(c);
        assert(self.ms[c + 1].posts.on(d) =~= self.ms[c].posts.on(d) + date_posts(self.all(c), d));
    }
    /// What a posting started is where its date's postings grew.
    pub proof fn lemma_enters_now(&self, c: int, n: int, j: int, d: chrono::NaiveDate, i: posting::Index)
        requires self.ok(), self.enters(c, n, j, d, i), c < self.gs.len(),
        ensures date_posts(self.all(c), d).contains(i),
    {
        self.lemma_change(c, n, j); self.lemma_decided(c, n, j);
        let k = j + self.shift(c, n);
        self.lemma_at(c, n, k);
        let y = lemma_date_posts(self.all(c), d, self.pos(c, n, k));
        assert(date_posts(self.all(c), d)[y] == i);
    }
    /// Having entered in group b, it is among those of its date from then on.
    #[verifier::spinoff_prover]
    pub proof fn lemma_enters(&self, b: int, n: int, j: int, d: chrono::NaiveDate, i: posting::Index, a: int)
        requires self.ok(), self.enters(b, n, j, d, i), b < a <= self.gs.len(),
        ensures self.ms[a].posts.on(d).contains(i),
        decreases a,
    {
        let c = a - 1;
        self.lemma_on(c, d);
        let on0 = self.ms[c].posts.on(d); let on1 = self.ms[a].posts.on(d); let e = date_posts(self.all(c), d);
        if b < c {
            self.lemma_enters(b, n, j, d, i, c);
            let x = choose|x: int| 0 <= x < on0.len() && on0[x] == i;
            assert(on1[x] == i);
        } else {
            self.lemma_enters_now(c, n, j, d, i);
            let y = choose|y: int| 0 <= y < e.len() && e[y] == i;
            assert(on1[on0.len() + y] == i);
        }
    }
    /// What is among those of a date entered in some group.
    pub proof fn lemma_enterer(&self, a: int, d: chrono::NaiveDate, x: int) -> (r: (int, int, int))
        requires self.ok(), 0 <= a <= self.gs.len(), 0 <= x < self.ms[a].posts.on(d).len(),
        ensures r.0 < a, self.enters(r.0, r.1, r.2, d, self.ms[a].posts.on(d)[x]),
        decreases a,
    {
        if a == 0 { self.lemma_wf(0); assert(self.ms[0].pa().contains_key(self.ms[0].posts.on(d)[x])); }
        let c = a - 1;
        self.lemma_on(c, d);
        let on0 = self.ms[c].posts.on(d); let on1 = self.ms[a].posts.on(d);
        if x < on0.len() { assert(on1[x] == on0[x]); self.lemma_enterer(c, d, x) }
        else {
            let y = lemma_date_posts_from(self.all(c), d, x - on0.len());
            let (n, k) = self.lemma_find(c, y);
            self.lemma_cause(c, n, k);
            let j = k - self.shift(c, n);
            self.lemma_decided(c, n, j);
            assert(self.lands(c, n, j) == on1[x]);
            (c, n, j)
        }
    }
    pub proof fn lemma_entered(&self, a: int, d: chrono::NaiveDate, i: posting::Index)
        requires self.ok(), 0 <= a <= self.gs.len(),
        ensures self.ms[a].posts.on(d).contains(i) <==> entered(*self, a, d, i),
    {
        let on1 = self.ms[a].posts.on(d);
        if on1.contains(i) {
            let x = choose|x: int| 0 <= x < on1.len() && on1[x] == i;
            let (b, n, j) = self.lemma_enterer(a, d, x);
            assert(self.enters(b, n, j, d, i));
        }
        if entered(*self, a, d, i) {
            let (b, n, j) = choose|b: int, n: int, j: int| b < a && #[trigger] self.enters(b, n, j, d, i);
            self.lemma_enters(b, n, j, d, i, a);
        }
    }
    /// Later groups only add to a posting.
    pub proof fn lemma_grows(&self, a: int, b: int, i: posting::Index)
        requires self.ok(), 0 <= a <= b <= self.gs.len(), self.ms[a].pa().contains_key(i),
        ensures extends(self.ms[a].pa()[i].posting, self.ms[b].pa()[i].posting),
        decreases b - a,
    {
        if a < b {
            let c = b - 1;
            self.lemma_grows(a, c, i); self.lemma_stays(a, c); self.lemma_run(c);
            if any_into(self.all(c), i) {
                let x = choose|x: int| 0 <= x < self.all(c).len() && #[trigger] joins_into(self.all(c)[x], i);
                lemma_merged_keeps(self.ms[c].pa()[i].posting, self.all(c)[x]->Into_p.posting, self.ms[b].pa()[i].posting);
            } else { assert(self.ms[b].pa()[i] == self.ms[c].pa()[i]); }
        }
    }
}
pub proof fn lemma_date_posts(e: Seq<Ev>, d: chrono::NaiveDate, x: int) -> (y: int)
    requires 0 <= x < e.len(), e[x] is New, e[x]->New_p.trn_date == d,
    ensures 0 <= y < date_posts(e, d).len(), date_posts(e, d)[y] == e[x]->New_i,
    decreases e.len(),
{ let c = e.drop_last(); if x < c.len() { lemma_date_posts(c, d, x) } else { date_posts(c, d).len() as int } }
pub proof fn lemma_date_posts_from(e: Seq<Ev>, d: chrono::NaiveDate, y: int) -> (x: int)
    requires 0 <= y < date_posts(e, d).len(),
    ensures 0 <= x < e.len(), e[x] is New, e[x]->New_p.trn_date == d, date_posts(e, d)[y] == e[x]->New_i,
    decreases e.len(),
{ let c = e.drop_last(); if y < date_posts(c, d).len() { lemma_date_posts_from(c, d, y) } else { e.len() - 1 } }
/// C02: what was merged had none of the faults.
pub proof fn theorem_c02(h: Hist)
    requires h.ok(),
    ensures forall|a: int| 0 <= a < h.gs.len() ==> !rejected(h.ms[a].posts, #[trigger] h.gs[a]@),
{ assert forall|a: int| 0 <= a < h.gs.len() implies !rejected(h.ms[a].posts, #[trigger] h.gs[a]@) by { h.lemma_run(a); } }
/// C03: a posting that shares a fingerprint with one merged in an earlier group is combined into the posting that one is in.
pub proof fn theorem_c03(h: Hist)
    requires h.ok(),
    ensures
        forall|a: int, n: int, j: int, b: int, o: int, l: int, fp: String| b < a && #[trigger] brings(h, a, n, j, fp) && #[trigger] brings(h, b, o, l, fp) ==> h.change(a, n, j) is Into && h.lands(a, n, j) == h.lands(b, o, l),
        forall|a: int, n: int, j: int| #[trigger] in_store(h, a, n, j) && recognised(h, a, n, j) ==> h.change(a, n, j) is Into,
        forall|a: int, n: int, j: int| #[trigger] in_store(h, a, n, j) && !recognised(h, a, n, j) ==> !h.ms[a].posts.any_hit(inp(h, a, n, j).comment),
{
    assert forall|a: int, n: int, j: int, b: int, o: int, l: int, fp: String| b < a && #[trigger] brings(h, a, n, j, fp) && #[trigger] brings(h, b, o, l, fp) implies h.change(a, n, j) is Into && h.lands(a, n, j) == h.lands(b, o, l) by {
        h.lemma_decided(a, n, j); h.lemma_owner(b, o, l, fp, a);
        assert(h.ms[a].posts.hit(inp(h, a, n, j).comment, h.lands(b, o, l)));
    }
    assert forall|a: int, n: int, j: int| #[trigger] in_store(h, a, n, j) && recognised(h, a, n, j) implies h.change(a, n, j) is Into by { h.lemma_hit(a, n, j); h.lemma_decided(a, n, j); }
    assert forall|a: int, n: int, j: int| #[trigger] in_store(h, a, n, j) && !recognised(h, a, n, j) implies !h.ms[a].posts.any_hit(inp(h, a, n, j).comment) by { h.lemma_hit(a, n, j); }
}
/// C04: otherwise the values decide, among the postings that entered from earlier groups under the same date.
pub open spec fn candidates(h: Hist, a: int, n: int, j: int) -> Seq<posting::Index> { h.ms[a].posts.soft(inp(h, a, n, j), h.trn(a, n).trn.raw.date) }
#[verifier::spinoff_prover]
pub proof fn theorem_c04(h: Hist)
    requires h.ok(),
    ensures
        forall|a: int, n: int, j: int, i: posting::Index| h.is_post(a, n, j) ==> (#[trigger] candidates(h, a, n, j).contains(i) <==> entered(h, a, h.trn(a, n).trn.raw.date, i) && posting::is_match(h.ms[a].pa()[i].posting, inp(h, a, n, j))),
        forall|a: int, n: int, j: int| h.is_post(a, n, j) ==> (#[trigger] candidates(h, a, n, j)).no_duplicates(),
        forall|a: int, n: int, j: int| #[trigger] in_store(h, a, n, j) && !recognised(h, a, n, j) ==> if candidates(h, a, n, j).len() == 0 { h.change(a, n, j) is New } else { candidates(h, a, n, j).len() == 1 && h.change(a, n, j) is Into && h.lands(a, n, j) == candidates(h, a, n, j)[0] },
        forall|a: int, n: int| #[trigger] h.is_trn(a, n) && h.trn(a, n).posts@.len() > 0 ==> (h.kept_out(a, n) <==> left_open(h, a, n)),
        forall|a: int, n: int, x: int| #[trigger] waits(h, a, n, x) ==> cat(h.us)[x].trn == h.trn(a, n).trn && cat(h.us)[x].posts@.len() == h.trn(a, n).posts@.len(),
        forall|a: int, n: int, x: int, j: int| #[trigger] waits(h, a, n, x) && 0 <= j < h.trn(a, n).posts@.len() ==>
            if !recognised(h, a, n, j) && candidates(h, a, n, j).len() >= 2 { tagged(h.ms[a].posts, inp(h, a, n, j), candidates(h, a, n, j), #[trigger] cat(h.us)[x].posts@[j]) } else { cat(h.us)[x].posts@[j] == inp(h, a, n, j) },
{
    assert forall|a: int, n: int, j: int, i: posting::Index| h.is_post(a, n, j) implies (#[trigger] candidates(h, a, n, j).contains(i) <==> entered(h, a, h.trn(a, n).trn.raw.date, i) && posting::is_match(h.ms[a].pa()[i].posting, inp(h, a, n, j))) by {
        h.lemma_entered(a, h.trn(a, n).trn.raw.date, i); h.lemma_wf(a);
        lemma_filter(h.ms[a].posts.on(h.trn(a, n).trn.raw.date), |i: posting::Index| posting::is_match(h.ms[a].posts.arena()[i].posting, inp(h, a, n, j)));
    }
    assert forall|a: int, n: int, j: int| h.is_post(a, n, j) implies (#[trigger] candidates(h, a, n, j)).no_duplicates() by {
        h.lemma_wf(a);
        lemma_filter(h.ms[a].posts.on(h.trn(a, n).trn.raw.date), |i: posting::Index| posting::is_match(h.ms[a].posts.arena()[i].posting, inp(h, a, n, j)));
    }
    assert forall|a: int, n: int, j: int| #[trigger] in_store(h, a, n, j) && !recognised(h, a, n, j) implies if candidates(h, a, n, j).len() == 0 { h.change(a, n, j) is New } else { candidates(h, a, n, j).len() == 1 && h.change(a, n, j) is Into && h.lands(a, n, j) == candidates(h, a, n, j)[0] } by {
        h.lemma_hit(a, n, j); h.lemma_decided(a, n, j);
    }
    assert forall|a: int, n: int| #[trigger] h.is_trn(a, n) && h.trn(a, n).posts@.len() > 0 implies (h.kept_out(a, n) <==> left_open(h, a, n)) by {
        h.lemma_run(a); h.lemma_wf(a);
        let tp = h.trn(a, n);
        assert(planned(h.ms[a].posts, tp, h.plan(a)[n]));
        if h.kept_out(a, n) {
            let k = choose|k: int| 0 <= k < tp.posts@.len() && ambiguous(h.ms[a].posts, #[trigger] tp.posts@[k], tp.trn.raw.date);
            h.lemma_hit(a, n, k);
            assert(h.is_post(a, n, k));
        } else if left_open(h, a, n) {
            let k = choose|k: int| #[trigger] h.is_post(a, n, k) && !recognised(h, a, n, k) && candidates(h, a, n, k).len() >= 2;
            h.lemma_hit(a, n, k); h.lemma_decided(a, n, k);
        }
    }
    assert forall|a: int, n: int, x: int| #[trigger] waits(h, a, n, x) implies cat(h.us)[x].trn == h.trn(a, n).trn && cat(h.us)[x].posts@.len() == h.trn(a, n).posts@.len() by {
        h.lemma_waits(a, n); h.lemma_run(a); assert(planned(h.ms[a].posts, h.trn(a, n), h.plan(a)[n]));
    }
    assert forall|a: int, n: int, x: int, j: int| #[trigger] waits(h, a, n, x) && 0 <= j < h.trn(a, n).posts@.len() implies
            if !recognised(h, a, n, j) && candidates(h, a, n, j).len() >= 2 { tagged(h.ms[a].posts, inp(h, a, n, j), candidates(h, a, n, j), #[trigger] cat(h.us)[x].posts@[j]) } else { cat(h.us)[x].posts@[j] == inp(h, a, n, j) } by {
        h.lemma_waits(a, n); h.lemma_run(a); assert(planned(h.ms[a].posts, h.trn(a, n), h.plan(a)[n]));
        h.lemma_hit(a, n, j);
        let m = h.ms[a].posts; let tp = h.trn(a, n);
        assert(left(m, tp, cat(h.us)[x].posts@));
        assert(ambiguous(m, tp.posts@[j], tp.trn.raw.date) <==> !recognised(h, a, n, j) && candidates(h, a, n, j).len() >= 2);
    }
}
/// Some posting of the transaction has no known fingerprint and several postings it matches.
pub open spec fn left_open(h: Hist, a: int, n: int) -> bool { exists|k: int| #[trigger] h.is_post(a, n, k) && !recognised(h, a, n, k) && candidates(h, a, n, k).len() >= 2 }
/// Some posting of group a is combined into posting i.
pub open spec fn hit_by(h: Hist, a: int, i: posting::Index) -> bool { exists|n: int, j: int| #[trigger] in_store(h, a, n, j) && h.change(a, n, j) is Into && h.lands(a, n, j) == i }
/// C05: combining postings only adds, and touches nothing else.
#[verifier::spinoff_prover]
pub proof fn theorem_c05(h: Hist, ks: Seq<transaction::Index>, s: Seq<TransactionPostings>)
    requires h.ok(), gives(h.last(), ks, s),
    ensures
        forall|a: int, n: int, j: int| #[trigger] in_store(h, a, n, j) && h.change(a, n, j) is Into ==> posting::is_merged(h.ms[a].pa()[h.lands(a, n, j)].posting, inp(h, a, n, j), h.ms[a + 1].pa()[h.lands(a, n, j)].posting),
        forall|a: int, n: int, j: int| #[trigger] in_store(h, a, n, j) && h.change(a, n, j) is New ==> h.ms[a + 1].pa()[h.lands(a, n, j)].posting == inp(h, a, n, j),
        forall|a: int, i: posting::Index| 0 <= a < h.gs.len() && h.ms[a].pa().contains_key(i) && !#[trigger] hit_by(h, a, i) ==> h.ms[a + 1].pa()[i] == h.ms[a].pa()[i],
        forall|a: int, t: transaction::Index| 0 <= a < h.gs.len() && #[trigger] h.ms[a].ta().contains_key(t) ==> h.ms[a + 1].ta()[t].trn == h.ms[a].ta()[t].trn,
        forall|a: int, n: int, j: int, q: int, r: int| #[trigger] goes(h, ks, a, n, j, q, r) ==> keeps(inp(h, a, n, j), s[q].posts@[r]),
        forall|a: int, n: int, j: int, q: int, r: int| #[trigger] grows(h, ks, q, r, a, n, j) ==> extends(inp(h, a, n, j), s[q].posts@[r]),
        forall|a: int, n: int, q: int| #[trigger] stems(h, ks, q, a, n) ==> s[q].trn.raw == h.trn(a, n).trn.raw && s[q].trn.comment.lines == h.trn(a, n).trn.comment.lines && s[q].trn.comment.tags == h.trn(a, n).trn.comment.tags
            && s[q].trn.comment.value_tags@ == h.trn(a, n).trn.comment.value_tags@.remove(sources::key()),
{
    h.lemma_out(ks, s);
    let e = h.gs.len() as int;
    assert forall|a: int, n: int, j: int| #[trigger] in_store(h, a, n, j) && h.change(a, n, j) is Into implies posting::is_merged(h.ms[a].pa()[h.lands(a, n, j)].posting, inp(h, a, n, j), h.ms[a + 1].pa()[h.lands(a, n, j)].posting) by { h.lemma_effect(a, n, j); }
    assert forall|a: int, n: int, j: int| #[trigger] in_store(h, a, n, j) && h.change(a, n, j) is New implies h.ms[a + 1].pa()[h.lands(a, n, j)].posting == inp(h, a, n, j) by { h.lemma_effect(a, n, j); }
    assert forall|a: int, i: posting::Index| 0 <= a < h.gs.len() && h.ms[a].pa().contains_key(i) && !#[trigger] hit_by(h, a, i) implies h.ms[a + 1].pa()[i] == h.ms[a].pa()[i] by {
        h.lemma_run(a);
        if any_into(h.all(a), i) {
            let x = choose|x: int| 0 <= x < h.all(a).len() && #[trigger] joins_into(h.all(a)[x], i);
            let (n, k) = h.lemma_find(a, x);
            h.lemma_cause(a, n, k);
            let j = k - h.shift(a, n);
            assert(in_store(h, a, n, j));
        }
    }
    assert forall|a: int, t: transaction::Index| 0 <= a < h.gs.len() && #[trigger] h.ms[a].ta().contains_key(t) implies h.ms[a + 1].ta()[t].trn == h.ms[a].ta()[t].trn by { h.lemma_stays(a, a + 1); }
    assert forall|a: int, n: int, j: int, q: int, r: int| #[trigger] goes(h, ks, a, n, j, q, r) implies keeps(inp(h, a, n, j), s[q].posts@[r]) by {
        let i = h.lands(a, n, j);
        h.lemma_effect(a, n, j); h.lemma_grows(a + 1, e, i);
        if !(h.change(a, n, j) is New) { lemma_merged_keeps(h.ms[a].pa()[i].posting, inp(h, a, n, j), h.ms[a + 1].pa()[i].posting); }
    }
    assert forall|a: int, n: int, j: int, q: int, r: int| #[trigger] grows(h, ks, q, r, a, n, j) implies extends(inp(h, a, n, j), s[q].posts@[r]) by {
        h.lemma_effect(a, n, j); h.lemma_grows(a + 1, e, h.lands(a, n, j));
    }
    assert forall|a: int, n: int, q: int| #[trigger] stems(h, ks, q, a, n) implies s[q].trn.raw == h.trn(a, n).trn.raw && s[q].trn.comment.lines == h.trn(a, n).trn.comment.lines && s[q].trn.comment.tags == h.trn(a, n).trn.comment.tags
            && s[q].trn.comment.value_tags@ == h.trn(a, n).trn.comment.value_tags@.remove(sources::key()) by { h.lemma_opened_at(a, n, 0, ks[q], e); }
}
/// C07: every group is from one source; what waits names its source, what is merged does not.
pub proof fn theorem_c07(c: Command, fg: Seq<Seq<Vec<TransactionPostings>>>, h: Hist, ks: Seq<transaction::Index>, s: Seq<TransactionPostings>)
    requires complete(c, fg, h.ms, h.us), h.gs == cat(fg), gives(h.last(), ks, s),
    ensures
        forall|a: int| 0 <= a < h.gs.len() ==> one_source(#[trigger] h.gs[a]@),
        forall|x: int| 0 <= x < cat(h.us).len() ==> (#[trigger] cat(h.us)[x]).trn.comment.value_tags@.contains_key(sources::key()),
        forall|x: int, a: int, n: int| #[trigger] waits(h, a, n, x) ==> sources::source(cat(h.us)[x]) == sources::source(h.trn(a, n)),
        forall|q: int| 0 <= q < s.len() ==> !(#[trigger] s[q]).trn.comment.value_tags@.contains_key(sources::key()),
{
    h.lemma_out(ks, s);
    assert forall|a: int| 0 <= a < h.gs.len() implies one_source(#[trigger] h.gs[a]@) by {
        let (f, k) = lemma_cat_find(fg, a);
        assert(is_file(c.inputs@[f], fg[f]));
        let (l, t, an, names) = choose|l: Ledger, t: Seq<TransactionPostings>, a: Seq<TransactionPostings>, names: Seq<String>| #[trigger] sources::file_groups(c.inputs@[f], l, t, a, names, fg[f]);
        let g = fg[f][k]@;
        assert(g == an.filter(sources::is_from(names[k])));
        lemma_filter(an, sources::is_from(names[k]));
        assert forall|n: int| 0 <= n < g.len() implies (#[trigger] g[n]).trn.comment.value_tags@.contains_key(sources::key()) && sources::source(g[n]) == names[k] by {
            assert(g.contains(g[n])); assert(an.contains(g[n]));
            let i = choose|i: int| 0 <= i < an.len() && an[i] == g[n];
            assert(sources::annotated(t[i], an[i], disp(&c.inputs@[f])));
        }
        assert(all_from(g, names[k]));
    }
    assert forall|x: int| 0 <= x < cat(h.us).len() implies (#[trigger] cat(h.us)[x]).trn.comment.value_tags@.contains_key(sources::key()) by {
        theorem_c01(h, ks, s);
        assert(waited(h, x));
        let (a, n) = choose|a: int, n: int| #[trigger] waits(h, a, n, x);
        h.lemma_waits(a, n); h.lemma_run(a);
        assert(planned(h.ms[a].posts, h.trn(a, n), h.plan(a)[n]));
        assert(one_source(h.gs[a]@));
    }
    assert forall|x: int, a: int, n: int| #[trigger] waits(h, a, n, x) implies sources::source(cat(h.us)[x]) == sources::source(h.trn(a, n)) by {
        h.lemma_waits(a, n); h.lemma_run(a);
        assert(planned(h.ms[a].posts, h.trn(a, n), h.plan(a)[n]));
    }
}
pub open spec fn one_source(g: Seq<TransactionPostings>) -> bool {
    exists|k: String| #[trigger] all_from(g, k)
}
pub open spec fn all_from(g: Seq<TransactionPostings>, k: String) -> bool {
    forall|n: int| 0 <= n < g.len() ==> (#[trigger] g[n]).trn.comment.value_tags@.contains_key(sources::key()) && sources::source(g[n]) == k
}
/// What the command ensures when it succeeds is all that the theorems above start from.
pub proof fn theorem_merge(c: Command, fg: Seq<Seq<Vec<TransactionPostings>>>, ms: Seq<Merger>, us: Seq<Seq<TransactionPostings>>, ks: Seq<transaction::Index>, b: Seq<TransactionPostings>, s: Seq<TransactionPostings>, l: Ledger, u: Ledger)
    requires succeeded(c, fg, ms, us, ks, b, s, l, u),
    ensures
        ({ let h = Hist { gs: cat(fg), ms, us }; h.ok() && gives(h.last(), ks, s) && complete(c, fg, h.ms, h.us) }),
        holds(l, s) && filespec::wrote(c.output, l), cat(us).len() > 0 ==> holds(u, cat(us)) && filespec::wrote(c.unmerged->0, u),
{ assert(built(ms.last(), ks, b)); }
// ---- C08: merging again what was merged
/// The transactions of the output as they are read again: from another source, else unchanged.
pub open spec fn reread(s: Seq<TransactionPostings>, v: Seq<TransactionPostings>) -> bool {
    v.len() == s.len() && forall|q: int| 0 <= q < s.len() ==> same_again(s[q], #[trigger] v[q])
}
pub open spec fn same_again(t: TransactionPostings, r: TransactionPostings) -> bool {
    &&& r.posts@ == t.posts@ && r.trn.raw == t.trn.raw && r.trn.comment.lines == t.trn.comment.lines && r.trn.comment.tags == t.trn.comment.tags
    &&& r.trn.comment.value_tags@.remove(sources::key()) == t.trn.comment.value_tags@
}
/// Combining `p` into `f` (again) changes nothing but values of its value tags.
pub open spec fn absorbs(f: PostingInternal, p: PostingInternal) -> bool {
    &&& posting::merged_status(f.raw.status, p.raw.status) == f.raw.status
    &&& f.raw.balance is None ==> p.raw.balance is None
    &&& posting::has_unk(f) ==> posting::has_unk(p)
    &&& p.comment.tags@.remove(unk()).subset_of(f.comment.tags@)
    &&& forall|x: String| #[trigger] p.comment.lines@.contains(x) ==> f.comment.lines@.contains(x)
    &&& forall|k: String| #[trigger] p.comment.value_tags@.contains_key(k) ==> f.comment.value_tags@.contains_key(k)
}
/// `g` is `f` except for the values of value tags in `w`.
pub open spec fn like(f: PostingInternal, w: Map<String, String>, g: PostingInternal) -> bool {
    &&& g.raw.amount == f.raw.amount && g.raw.reality == f.raw.reality && g.raw.comment == f.raw.comment && g.raw.status == f.raw.status && g.raw.balance == f.raw.balance && g.raw.account == f.raw.account
    &&& g.comment.tags@ =~= f.comment.tags@ && g.comment.lines@ =~= f.comment.lines@
    &&& g.comment.value_tags@ =~= f.comment.value_tags@.union_prefer_right(w)
}
pub proof fn lemma_absorbed(d0: PostingInternal, s: PostingInternal, d1: PostingInternal)
    requires posting::is_merged(d0, s, d1),
    ensures
        absorbs(d1, s), forall|p: PostingInternal| #[trigger] absorbs(d0, p) ==> absorbs(d1, p),
        !posting::has_cand(d0.comment) && !posting::has_cand(s.comment) ==> !posting::has_cand(d1.comment),
{
    lemma_merged_keeps(d0, s, d1);
    assert(posting::has_unk(d1) ==> posting::has_unk(d0) && posting::has_unk(s));
    assert forall|p: PostingInternal| #[trigger] absorbs(d0, p) implies absorbs(d1, p) by {
        assert forall|t: String| p.comment.tags@.remove(unk()).contains(t) implies #[trigger] d1.comment.tags@.contains(t) by { assert(d0.comment.tags@.contains(t)); }
    }
    assert forall|t: String| s.comment.tags@.remove(unk()).contains(t) implies #[trigger] d1.comment.tags@.contains(t) by {}
    if posting::has_cand(d1.comment) {
        let t = choose|t: String| #[trigger] d1.comment.tags@.contains(t) && is_cand(t@);
        assert(d0.comment.tags@.contains(t) || s.comment.tags@.contains(t));
    }
}
pub proof fn lemma_like(f: PostingInternal, w: Map<String, String>, g: PostingInternal, p: PostingInternal, g1: PostingInternal)
    requires absorbs(f, p), like(f, w, g), posting::is_merged(g, p, g1),
    ensures like(f, w.union_prefer_right(p.comment.value_tags@), g1),
{
    crate::comment::lemma_merged_nothing(g.comment.lines@, p.comment.lines@);
    assert(posting::has_unk(g) <==> posting::has_unk(f));
    assert(g1.comment.tags@ =~= g.comment.tags@) by {
        assert forall|t: String| p.comment.tags@.remove(unk()).contains(t) implies #[trigger] f.comment.tags@.contains(t) by {}
    }
    assert(g1.comment.value_tags@ =~= f.comment.value_tags@.union_prefer_right(w.union_prefer_right(p.comment.value_tags@)));
}
impl Hist {
    pub open spec fn fin(&self, i: posting::Index) -> PostingInternal { self.last().pa()[i].posting }
    /// A posting of the output absorbs every input that was merged into it, and has no candidate tags.
    #[verifier::spinoff_prover]
    pub proof fn lemma_absorbs(&self, a: int, n: int, j: int, b: int)
        requires self.ok(), in_store(*self, a, n, j), a < b <= self.gs.len(),
        ensures absorbs(self.ms[b].pa()[self.lands(a, n, j)].posting, inp(*self, a, n, j)),
        decreases b,
    {
        let i = self.lands(a, n, j); let p = inp(*self, a, n, j); let c = b - 1;
        self.lemma_effect(a, n, j); self.lemma_run(c); self.lemma_stays(a + 1, b);
        if c == a { if !(self.change(a, n, j) is New) { lemma_absorbed(self.ms[a].pa()[i].posting, p, self.ms[b].pa()[i].posting); } }
        else {
            self.lemma_absorbs(a, n, j, c); self.lemma_stays(a + 1, c);
            if any_into(self.all(c), i) {
                let x = choose|x: int| 0 <= x < self.all(c).len() && #[trigger] joins_into(self.all(c)[x], i);
                lemma_absorbed(self.ms[c].pa()[i].posting, self.all(c)[x]->Into_p.posting, self.ms[b].pa()[i].posting);
            }
        }
    }
    pub proof fn lemma_no_cand(&self, b: int, i: posting::Index)
        requires self.ok(), 0 <= b <= self.gs.len(), self.ms[b].pa().contains_key(i),
        ensures !posting::has_cand(self.ms[b].pa()[i].posting.comment),
        decreases b,
    {
        if b > 0 {
            let c = b - 1;
            self.lemma_run(c);
            if self.ms[c].pa().contains_key(i) {
                self.lemma_no_cand(c, i);
                if any_into(self.all(c), i) {
                    let x = choose|x: int| 0 <= x < self.all(c).len() && #[trigger] joins_into(self.all(c)[x], i);
                    let (n, k) = self.lemma_find(c, x);
                    self.lemma_cause(c, n, k);
                    let j = k - self.shift(c, n);
                    self.lemma_change(c, n, j);
                    self.lemma_decided(c, n, j);
                    lemma_absorbed(self.ms[c].pa()[i].posting, self.all(c)[x]->Into_p.posting, self.ms[b].pa()[i].posting);
                }
            } else {
                let (a, n, k) = self.lemma_maker(b, i);
                self.lemma_made(a, n, k, i, c); 
                assert(a == c);
                self.lemma_cause(c, n, k);
                let j = k - self.shift(c, n);
                self.lemma_decided(c, n, j); self.lemma_effect(c, n, j);
            }
        }
    }
}
/// The output is accepted as the first input of a merge, and nothing of it waits.
pub proof fn lemma_output_accepted(h: Hist, ks: Seq<transaction::Index>, s: Seq<TransactionPostings>, v: Seq<TransactionPostings>, m: Merger)
    requires
        h.ok(), gives(h.last(), ks, s), reread(s, v),
        m.wf(), m.pa() == Map::<posting::Index, posting::Holder>::empty(),
    ensures
        !rejected(m.posts, v),
        forall|q: int| 0 <= q < v.len() ==> (#[trigger] v[q]).posts@.len() > 0,
        forall|q: int, d: chrono::NaiveDate, r: int| 0 <= q < v.len() && 0 <= r < v[q].posts@.len() ==> !#[trigger] ambiguous(m.posts, v[q].posts@[r], d),
{
    h.lemma_out(ks, s);
    let z = h.last();
    assert forall|fp: String| !#[trigger] m.posts.fpx().contains_key(fp) by { if m.posts.fpx().contains_key(fp) { assert(m.pa().contains_key(m.posts.fpx()[fp])); } }
    assert forall|d: chrono::NaiveDate| #[trigger] m.posts.on(d).len() == 0 by { if m.posts.on(d).len() > 0 { assert(m.pa().contains_key(m.posts.on(d)[0])); } }
    assert forall|p: PostingInternal, d: chrono::NaiveDate| #[trigger] m.posts.soft(p, d).len() == 0 by {
        lemma_filter(m.posts.on(d), |i: posting::Index| posting::is_match(m.posts.arena()[i].posting, p));
        if m.posts.soft(p, d).len() > 0 { assert(m.posts.soft(p, d).contains(m.posts.soft(p, d)[0])); }
    }
    assert forall|p: PostingInternal, d: chrono::NaiveDate, i: posting::Index| !#[trigger] crate::merge::merger::joins(m.posts, p, d, i) by {
        assert(m.posts.soft(p, d).len() == 0);
        if m.posts.soft(p, d) =~= seq![i] { assert(seq![i].len() == 1); }
    }
    assert forall|q: int| 0 <= q < v.len() implies (#[trigger] v[q]).posts@.len() > 0 by {
        assert(same_again(s[q], v[q]));
        let (a, n) = h.lemma_opener(h.gs.len() as int, ks[q]);
        h.lemma_opened_at(a, n, 0, ks[q], h.gs.len() as int);
        h.lemma_run(a); h.lemma_wf(a);
        crate::merge::merger::lemma_sends(h.ms[a].posts, h.trn(a, n), h.plan(a)[n]);
        assert(enacts(h.plan(a)[n], h.evs(a)[n]));
        assert(planned(h.ms[a].posts, h.trn(a, n), h.plan(a)[n]));
        h.lemma_landed(a, n, 0);
        assert(z.ta()[ks[q]].postings@.contains(h.lands(a, n, 0)));
    }
    assert forall|q: int, k: int| 0 <= q < v.len() && 0 <= k < v[q].posts@.len() implies !#[trigger] crate::merge::merger::bad_at(m.posts, v[q], crate::merge::merger::before(v, q), k) by {
        assert(same_again(s[q], v[q]));
        let i = z.ta()[ks[q]].postings@[k];
        assert(shows(z, ks, q, k, i));
        h.lemma_no_cand(h.gs.len() as int, i);
        let c = v[q].posts@[k].comment;
        assert(c == z.pa()[i].posting.comment);
        assert(posting::has_fp(c));
        assert forall|fp: String| #[trigger] posting::fps(c).contains(fp) implies !crate::merge::merger::before(v, q).contains(fp) && !crate::merge::merger::in_first(v[q], k, fp) by {
            if crate::merge::merger::in_first(v[q], k, fp) {
                let r = choose|r: int| 0 <= r < k && posting::fps((#[trigger] v[q].posts@[r]).comment).contains(fp);
                let o = z.ta()[ks[q]].postings@[r];
                assert(shows(z, ks, q, r, o));
                assert(o == i);
                assert(z.ta()[ks[q]].postings@.no_duplicates());
            }
            if crate::merge::merger::before(v, q).contains(fp) {
                let u = lemma_before_in(v, q, fp);
                assert(same_again(s[u], v[u]));
                let r = choose|r: int| 0 <= r < v[u].posts@.len() && posting::fps((#[trigger] v[u].posts@[r]).comment).contains(fp);
                let o = z.ta()[ks[u]].postings@[r];
                assert(shows(z, ks, u, r, o));
                assert(o == i);
                assert(ks[u] == ks[q]);
            }
        }
        assert(!crate::merge::merger::torn(m.posts, v[q].posts@[k]));
    }
    assert(!rejected(m.posts, v)) by {
        assert forall|q: int| 0 <= q < v.len() implies !crate::merge::merger::refused(m.posts, #[trigger] v[q], crate::merge::merger::before(v, q)) by {
            assert forall|t: transaction::Index| !#[trigger] crate::merge::merger::aims(m.posts, v[q], t) by {}
        }
        assert(!crate::merge::merger::clash(m.posts, v));
    }
}
pub proof fn lemma_before_in(src: Seq<TransactionPostings>, n: int, fp: String) -> (u: int)
    requires 0 <= n <= src.len(), crate::merge::merger::before(src, n).contains(fp),
    ensures 0 <= u < n, exists|r: int| 0 <= r < src[u].posts@.len() && posting::fps((#[trigger] src[u].posts@[r]).comment).contains(fp),
    decreases n,
{
    let t = src[n - 1]; let k = t.posts@.len() as int;
    crate::merge::merger::lemma_trn_fps(t, k);
    if crate::merge::merger::in_first(t, k, fp) { n - 1 } else { assert(crate::merge::merger::before(src, n - 1).contains(fp)); lemma_before_in(src, n - 1, fp) }
}
/// C08, the output alone: it is accepted, nothing waits, and what comes out is what went in.
pub open spec fn after_output(h: Hist, v: Seq<TransactionPostings>, g: Hist) -> bool { g.ok() && g.gs.len() > 0 && g.gs[0]@ == v }
/// After the output was merged, all changes combine into what it gave.
pub open spec fn only_joins(g: Hist) -> bool { forall|a: int, n: int, k: int| a > 0 && #[trigger] g.is_ev(a, n, k) ==> g.ev(a, n, k) is Into }
pub proof fn lemma_first(h: Hist, ks: Seq<transaction::Index>, s: Seq<TransactionPostings>, v: Seq<TransactionPostings>, g: Hist)
    requires h.ok(), gives(h.last(), ks, s), reread(s, v), after_output(h, v, g),
    ensures
        forall|q: int| 0 <= q < v.len() ==> !#[trigger] g.kept_out(0, q),
        forall|q: int, r: int| #[trigger] g.is_post(0, q, r) ==> g.change(0, q, r) is New && g.ms[1].pa()[g.lands(0, q, r)].posting == v[q].posts@[r] && g.ms[1].pa().contains_key(g.lands(0, q, r)),
{
    lemma_output_accepted(h, ks, s, v, g.ms[0]);
    g.lemma_run(0);
    assert forall|q: int| 0 <= q < v.len() implies !#[trigger] g.kept_out(0, q) by { assert(planned(g.ms[0].posts, v[q], g.plan(0)[q])); }
    assert forall|q: int, r: int| #[trigger] g.is_post(0, q, r) implies g.change(0, q, r) is New && g.ms[1].pa()[g.lands(0, q, r)].posting == v[q].posts@[r] && g.ms[1].pa().contains_key(g.lands(0, q, r)) by {
        assert(!g.kept_out(0, q));
        g.lemma_effect(0, q, r);
    }
}
pub open spec fn rising(f: Seq<int>, m: int) -> bool {
    &&& forall|x: int| 0 <= x < f.len() ==> 0 <= #[trigger] f[x] < m
    &&& forall|x: int, y: int| 0 <= x < y < f.len() ==> #[trigger] f[x] < #[trigger] f[y]
    &&& forall|z: int| 0 <= z < m ==> #[trigger] f.contains(z)
}
pub proof fn lemma_rising(f: Seq<int>, m: int)
    requires rising(f, m), m >= 0,
    ensures f.len() == m, forall|x: int| 0 <= x < m ==> #[trigger] f[x] == x,
    decreases m,
{
    if m == 0 { if f.len() > 0 { assert(0 <= f[0] < m); } }
    else {
        assert(f.contains(m - 1));
        let x = choose|x: int| 0 <= x < f.len() && f[x] == m - 1;
        if x < f.len() - 1 { assert(f[x] < f[f.len() - 1]); }
        let d = f.drop_last();
        assert forall|z: int| 0 <= z < m - 1 implies #[trigger] d.contains(z) by {
            assert(f.contains(z)); let y = choose|y: int| 0 <= y < f.len() && f[y] == z; assert(d[y] == z);
        }
        assert forall|y: int| 0 <= y < d.len() implies 0 <= #[trigger] d[y] < m - 1 by { assert(f[y] < f[f.len() - 1]); }
        lemma_rising(d, m - 1);
        assert forall|x: int| 0 <= x < m implies #[trigger] f[x] == x by { if x < m - 1 { assert(d[x] == x); } }
    }
}
/// If only the first group brought in anything, and it is sorted by date, the output shows it as it was.
#[verifier::spinoff_prover]
pub proof fn lemma_in_place(g: Hist, v: Seq<TransactionPostings>, ls: Seq<transaction::Index>, s2: Seq<TransactionPostings>)
    requires
        g.ok(), g.gs.len() > 0, g.gs[0]@ == v, gives(g.last(), ls, s2), only_joins(g),
        forall|q: int, u: int| 0 <= q < u < v.len() ==> date_num((#[trigger] v[q]).trn.raw.date) <= date_num((#[trigger] v[u]).trn.raw.date),
        forall|q: int| 0 <= q < v.len() ==> !#[trigger] g.kept_out(0, q),
        forall|q: int, r: int| #[trigger] g.is_post(0, q, r) ==> g.change(0, q, r) is New,
        forall|q: int| 0 <= q < v.len() ==> (#[trigger] v[q]).posts@.len() > 0,
    ensures
        s2.len() == v.len(),
        forall|q: int| 0 <= q < v.len() ==> #[trigger] stems(g, ls, q, 0, q) && s2[q].posts@.len() == v[q].posts@.len(),
        forall|q: int, r: int| #[trigger] g.is_post(0, q, r) ==> grows(g, ls, q, r, 0, q, r),
{
    theorem_c01(g, ls, s2); theorem_c06(g, ls, s2); g.lemma_out(ls, s2);
    let e = g.gs.len() as int;
    g.lemma_run(0); g.lemma_wf(0);
    // transactions
    let f = Seq::new(s2.len(), |q: int| choose|n: int| #[trigger] stems(g, ls, q, 0, n));
    assert forall|q: int| 0 <= q < s2.len() implies stems(g, ls, q, 0, #[trigger] f[q]) && 0 <= f[q] < v.len() && s2[q].trn.raw == v[f[q]].trn.raw by {
        assert(stemmed(g, ls, q));
        let (a, n) = choose|a: int, n: int| #[trigger] stems(g, ls, q, a, n);
        if a > 0 { assert(g.is_ev(a, n, 0)); assert(g.ev(a, n, 0) is Into); }
        assert(stems(g, ls, q, 0, n));
    }
    assert forall|q: int, u: int| 0 <= q < u < s2.len() implies #[trigger] f[q] < #[trigger] f[u] by {
        assert(date_num(s2[q].trn.raw.date) <= date_num(s2[u].trn.raw.date));
        if date_num(s2[q].trn.raw.date) == date_num(s2[u].trn.raw.date) { ax_date_inj(s2[q].trn.raw.date, s2[u].trn.raw.date); assert(stems(g, ls, q, 0, f[q]) && stems(g, ls, u, 0, f[u])); }
        else if f[q] > f[u] { assert(date_num(v[f[u]].trn.raw.date) <= date_num(v[f[q]].trn.raw.date)); }
        else if f[q] == f[u] { }
    }
    assert forall|n: int| 0 <= n < v.len() implies #[trigger] f.contains(n) by {
        assert(!g.kept_out(0, n)); assert(g.is_post(0, n, 0)); assert(g.change(0, n, 0) is New);
        let t = g.dest(0, n);
        assert(enacts(g.plan(0)[n], g.evs(0)[n]));
        assert(planned(g.ms[0].posts, v[n], g.plan(0)[n]));
        crate::merge::merger::lemma_sends(g.ms[0].posts, v[n], g.plan(0)[n]);
        if !(g.plan(0)[n] is New) {
            let acts = acts_of(g.plan(0)[n]);
            let k = choose|k: int| 0 <= k < acts.len() && (#[trigger] acts[k]).1 is MergeIntoExisting && g.ms[0].posts.arena()[acts[k].1->MergeIntoExisting_0].parent_trn == t;
            assert(g.ms[0].pa().contains_key(acts[k].1->MergeIntoExisting_0));
        }
        assert(g.opens_at(0, n, 0, t));
        g.lemma_opened_at(0, n, 0, t, e);
        assert(ls.contains(t));
        let q = choose|q: int| 0 <= q < ls.len() && ls[q] == t;
        assert(stems(g, ls, q, 0, f[q]));
        assert(g.opens_at(0, f[q], 0, t));
        g.lemma_opened_at(0, f[q], 0, t, e);
        lemma_opened_once(g, 0, n, 0, f[q], t);
        assert(f[q] == n);
    }
    lemma_rising(f, v.len() as int);
    assert forall|q: int| 0 <= q < v.len() implies #[trigger] stems(g, ls, q, 0, q) by { assert(f[q] == q); }
    // postings
    assert forall|q: int| 0 <= q < v.len() implies (#[trigger] s2[q]).posts@.len() == v[q].posts@.len() && forall|r: int| 0 <= r < v[q].posts@.len() ==> #[trigger] grows(g, ls, q, r, 0, q, r) by {
        assert(stems(g, ls, q, 0, q));
        lemma_posts_in_place(g, v, ls, s2, q);
    }
    assert forall|q: int, r: int| #[trigger] g.is_post(0, q, r) implies grows(g, ls, q, r, 0, q, r) by { assert(s2[q].posts@.len() == v[q].posts@.len()); }
}
#[verifier::spinoff_prover]
pub proof fn lemma_opened_once(g: Hist, a: int, n: int, b: int, o: int, t: transaction::Index)
    requires g.ok(), g.opens_at(a, n, 0, t), g.opens_at(b, o, 0, t),
    ensures a == b && n == o,
{
    let e = g.gs.len() as int;
    g.lemma_opened_at(a, n, 0, t, e); g.lemma_opened_at(b, o, 0, t, e);
    g.lemma_wf(e);
    g.lemma_rank(a, n, t, e); g.lemma_rank(b, o, t, e);
    assert(g.trn(a, n).trn.raw.date == g.trn(b, o).trn.raw.date);
    assert(g.last().trns.on(g.trn(a, n).trn.raw.date).no_duplicates());
    if earlier(a, n, 0, b, o, 0) { g.lemma_rank_less(a, n, t, b, o, t); }
    if earlier(b, o, 0, a, n, 0) { g.lemma_rank_less(b, o, t, a, n, t); }
}
#[verifier::spinoff_prover]
pub proof fn lemma_posts_in_place(g: Hist, v: Seq<TransactionPostings>, ls: Seq<transaction::Index>, s2: Seq<TransactionPostings>, q: int)
    requires
        g.ok(), g.gs.len() > 0, g.gs[0]@ == v, gives(g.last(), ls, s2), only_joins(g), 0 <= q < v.len(), stems(g, ls, q, 0, q),
        forall|q: int| 0 <= q < v.len() ==> !#[trigger] g.kept_out(0, q),
        forall|q: int, r: int| #[trigger] g.is_post(0, q, r) ==> g.change(0, q, r) is New,
    ensures s2[q].posts@.len() == v[q].posts@.len(), forall|r: int| 0 <= r < v[q].posts@.len() ==> #[trigger] grows(g, ls, q, r, 0, q, r),
{
    theorem_c01(g, ls, s2); theorem_c06(g, ls, s2); g.lemma_out(ls, s2);
    let e = g.gs.len() as int; let len = s2[q].posts@.len();
    let t = ls[q];
    g.lemma_opened_at(0, q, 0, t, e);
    let f = Seq::new(len, |r: int| choose|j: int| #[trigger] grows(g, ls, q, r, 0, q, j));
    assert forall|r: int| 0 <= r < len implies grows(g, ls, q, r, 0, q, #[trigger] f[r]) && 0 <= f[r] < v[q].posts@.len() by {
        assert(grown(g, ls, q, r));
        let (a, n, j) = choose|a: int, n: int, j: int| #[trigger] grows(g, ls, q, r, a, n, j);
        g.lemma_change(a, n, j);
        if a > 0 { assert(g.ev(a, n, j + g.shift(a, n)) is Into); }
        g.lemma_landed(a, n, j);
        assert(g.dest(0, n) == t);
        // the transaction it went to is the one its own input transaction opened
        g.lemma_run(0); g.lemma_wf(0);
        assert(enacts(g.plan(0)[n], g.evs(0)[n])); assert(planned(g.ms[0].posts, v[n], g.plan(0)[n]));
        crate::merge::merger::lemma_sends(g.ms[0].posts, v[n], g.plan(0)[n]);
        if !(g.plan(0)[n] is New) {
            let acts = acts_of(g.plan(0)[n]);
            let k = choose|k: int| 0 <= k < acts.len() && (#[trigger] acts[k]).1 is MergeIntoExisting && g.ms[0].posts.arena()[acts[k].1->MergeIntoExisting_0].parent_trn == t;
            assert(g.ms[0].pa().contains_key(acts[k].1->MergeIntoExisting_0));
        }
        assert(g.opens_at(0, n, 0, t));
        lemma_opened_once(g, 0, q, 0, n, t);
        assert(grows(g, ls, q, r, 0, q, j));
    }
    assert forall|r: int, w: int| 0 <= r < w < len implies #[trigger] f[r] < #[trigger] f[w] by { assert(grows(g, ls, q, r, 0, q, f[r]) && grows(g, ls, q, w, 0, q, f[w])); }
    assert forall|j: int| 0 <= j < v[q].posts@.len() implies #[trigger] f.contains(j) by {
        assert(g.is_post(0, q, j)); assert(!g.kept_out(0, q));
        g.lemma_landed(0, q, j);
        let (u, r) = g.lemma_shown(ls, s2, g.lands(0, q, j));
        assert(ls[u] == t);
        assert(u == q);
        assert(grows(g, ls, q, r, 0, q, j));
        assert(grows(g, ls, q, r, 0, q, f[r]));
        assert(f[r] == j);
    }
    lemma_rising(f, v[q].posts@.len() as int);
    assert forall|r: int| 0 <= r < v[q].posts@.len() implies #[trigger] grows(g, ls, q, r, 0, q, r) by { assert(f[r] == r); }
}
/// The same transactions with the same postings in the same order.
pub open spec fn same_out(s: Seq<TransactionPostings>, r: Seq<TransactionPostings>) -> bool {
    r.len() == s.len() && forall|q: int| 0 <= q < s.len() ==> same_trn(s[q], #[trigger] r[q])
}
pub open spec fn same_trn(t: TransactionPostings, r: TransactionPostings) -> bool {
    &&& r.trn.raw == t.trn.raw && r.trn.comment.lines == t.trn.comment.lines && r.trn.comment.tags == t.trn.comment.tags && r.trn.comment.value_tags@ == t.trn.comment.value_tags@
    &&& r.posts@.len() == t.posts@.len() && forall|k: int| 0 <= k < t.posts@.len() ==> like(t.posts@[k], Map::empty(), #[trigger] r.posts@[k])
}
#[verifier::spinoff_prover]
pub proof fn theorem_c08_alone(h: Hist, ks: Seq<transaction::Index>, s: Seq<TransactionPostings>, v: Vec<TransactionPostings>, m: Merger, g: Hist, ls: Seq<transaction::Index>, s2: Seq<TransactionPostings>)
    requires
        h.ok(), gives(h.last(), ks, s), reread(s, v@),
        m.wf(), m.pa() == Map::<posting::Index, posting::Holder>::empty(),
    ensures
        !rejected(m.posts, v@),
        after_output(h, v@, g) && g.gs.len() == 1 && gives(g.last(), ls, s2) ==> cat(g.us).len() == 0 && same_out(s, s2),
{
    lemma_output_accepted(h, ks, s, v@, m);
    if after_output(h, v@, g) && g.gs.len() == 1 && gives(g.last(), ls, s2) {
        lemma_first(h, ks, s, v@, g);
        lemma_output_accepted(h, ks, s, v@, g.ms[0]);
        theorem_c06(h, ks, s); h.lemma_out(ks, s);
        assert forall|q: int, u: int| 0 <= q < u < v@.len() implies date_num((#[trigger] v@[q]).trn.raw.date) <= date_num((#[trigger] v@[u]).trn.raw.date) by { assert(same_again(s[q], v@[q]) && same_again(s[u], v@[u])); }
        lemma_in_place(g, v@, ls, s2);
        theorem_c01(g, ls, s2); theorem_c05(g, ls, s2); g.lemma_out(ls, s2);
        if cat(g.us).len() > 0 { assert(waited(g, 0)); let (a, n) = choose|a: int, n: int| #[trigger] waits(g, a, n, 0); assert(!g.kept_out(0, n)); }
        assert forall|q: int| 0 <= q < s.len() implies same_trn(s[q], #[trigger] s2[q]) by {
            assert(same_again(s[q], v@[q])); assert(stems(g, ls, q, 0, q));
            assert forall|k: int| 0 <= k < s[q].posts@.len() implies like(s[q].posts@[k], Map::empty(), #[trigger] s2[q].posts@[k]) by {
                assert(g.is_post(0, q, k)); assert(grows(g, ls, q, k, 0, q, k));
            }
        }
    }
}
//#THEOREMS

@fn Command::run
@ret r
@fattr #[verifier::loop_isolation(false)]
@spec
    requires asked(*self),
    ensures
        r is Ok ==> exists|fg: Seq<Seq<Vec<TransactionPostings>>>, ms: Seq<Merger>, us: Seq<Seq<TransactionPostings>>, ks: Seq<transaction::Index>, b: Seq<TransactionPostings>, s: Seq<TransactionPostings>, l: Ledger, u: Ledger|
            #[trigger] succeeded(*self, fg, ms, us, ks, b, s, l, u),
        r is Err ==> (any_bad(*self)
            || (exists|fg: Seq<Seq<Vec<TransactionPostings>>>, g: Seq<Vec<TransactionPostings>>, k: int, ms: Seq<Merger>, us: Seq<Seq<TransactionPostings>>| #[trigger] faulty(*self, fg, g, k, ms, us))
            || (exists|fg: Seq<Seq<Vec<TransactionPostings>>>, ms: Seq<Merger>, us: Seq<Seq<TransactionPostings>>| #[trigger] unnamed(*self, fg, ms, us))
            || filespec::unwritable(self.output) || self.unmerged is Some && filespec::unwritable(self.unmerged->0)),
@safter `Vec::<TransactionPostings>::new()`
    let ghost mut fg = Seq::<Seq<Vec<TransactionPostings>>>::empty();
    let ghost mut ms = seq![merger];
    let ghost mut us = Seq::<Seq<TransactionPostings>>::empty();
    let ghost mut u0 = arbitrary::<Ledger>();
@loop 0
    invariant
        it.seq().unref() == self.inputs@,
        files(*self, fg), fg.len() == it.index(),
        merged(cat(fg), ms, us), ms.last() == merger, merger.wf(),
        unmerged@ == cat(us),
@loopbegin 0
    let ghost n = it.index() as int;
    let ghost mut g = Seq::<Vec<TransactionPostings>>::empty();
    proof { assert(it.seq().unref()[n] == *it.seq()[n]); assert(self.inputs@[n] == *ledger_file); }
@loop 1
    it = it2
    invariant
        is_file(*ledger_file, it2.seq()),
        g == it2.seq().take(it2.index() as int),
        it2.index() == it2.seq().len() ==> g == it2.seq(),
        merged(cat(fg) + g, ms, us), ms.last() == merger, merger.wf(),
        unmerged@ == cat(us),
@loopbegin 1
    let ghost k = it2.index() as int;
    let ghost m0 = merger;
    let ghost v = trns;
    proof {
        assert(v == it2.seq()[k]);
        assert(rejected(m0.posts, v@) ==> faulty(*self, fg, it2.seq(), k, ms, us));
    }
@safter `merger.merge(trns)`
    let ghost x = unmerged_trns.0@;
    proof {
        assert(!rejected(m0.posts, v@));
        assert(step(m0, v@, merger, x));
        lemma_merged_push(cat(fg) + g, ms, us, v, merger, x);
        lemma_cat_push(us, x);
        assert((cat(fg) + g).push(v) =~= cat(fg) + g.push(v));
        assert(it2.seq().take(k + 1) =~= g.push(v));
        ms = ms.push(merger); us = us.push(x); g = g.push(v);
    }
@loopafter 1
    proof {
        lemma_cat_push(fg, g);
        fg = fg.push(g);
    }
@loopafter 0
    let ghost um = unmerged@;
    proof { assert(complete(*self, fg, ms, us)); assert(cat(us) == um); assert(um.len() > 0 && self.unmerged is None ==> unnamed(*self, fg, ms, us)); }
@sbefore #0 `filespec::write_ledger_file(`
    proof {
        assert(is_unmerged(*self, ledger, us));
        ax_may_unmerged(*self, fg, ms, us, ledger);
        u0 = ledger;
    }
@safter `merger.build()`
    let ghost b0 = trns@;
@safter `sources::strip_sources(`
    let ghost s0 = trns@;
    let ghost ks = choose|ks: Seq<transaction::Index>| #[trigger] built(ms.last(), ks, b0);
@sbefore #1 `filespec::write_ledger_file(`
    proof {
        assert(is_output(ledger, ms.last(), ks, b0, s0));
        ax_may_output(*self, fg, ms, us, ks, b0, s0, ledger, u0);
    }
@tail
    proof { if vx_t is Ok { assert(succeeded(*self, fg, ms, us, ks, b0, s0, ledger, u0)); } }
@props C01 C02 C03 C04 C05 C06 C07 C08
