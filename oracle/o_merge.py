"""Bounded replay oracles for the merge properties C01-C08 (and part of C21)."""
import copy, json
import ledger as L
import dictionary as D
from common import Fail, need, crashed

DATES = ["2020-01-01", "2020-01-02", "2019-12-31", "2020-02-29"]
ACCTS = ["assets:bank", "assets:unknown", "expenses:food", "income:job"]
DESCS = ["Shop", "Shop", "shop", "Shop 2", "d0"]
SRCS = D.TEXTS[:6] + ["s1", "s2", "a b", "\"f9\"", "s10", "S2", "B", "a", "Zz", "s 1", "s-1", "s1x", "f0.journal", "\u00e9",
        "x/a", "y/a", "x/a.csv", "a.csv", "./a", "A/b", "a/", "-", "\"f0.journal\"", "a:b", "a b c", "a  b"]
WORDS = ["alpha", "beta gamma", "Paid to X", "see note 7", "alpha beta"]
KEYS = ["bank", "seq", "account", "ref", "Bank", "REF"]
VALS = ["v1", "v two", "3", ""]
QS = ["10.00", "10.0", "-10.00", "5", "7.25", "0.00"]


def is_fp(t):
    return t.startswith("fp-")


def fps(p):
    return [t for t in p["comment"]["tags"] if is_fp(t)]


def pid(p):
    return [t for t in p["comment"]["tags"] if t.startswith("id-")]


# ---------------------------------------------------------------- generation
def g_amount(r, rich):
    a = {"q": r.choice(QS[:3] if r.random() < .6 else QS), "c": r.choice(["GBP", "GBP", "$", "EUR"]), "left": r.random() < .9,
         "lot": None, "price": None}
    if rich and r.random() < .1:
        a["price"] = [r.choice(["unit", "total"]), r.choice(["2", "2.0", "3"]), "USD", True]
    if rich and r.random() < .07:
        a["lot"] = [r.choice(["unit", "total"]), r.choice(["2", "4"]), "USD", True]
    return a


def g_post(r, n, cfg):
    tags = ["id-%d" % n]
    for k in range(1 if r.random() < .75 else r.choice([1, 2, 3])):
        tags.append("fp-%s%d" % ("abc"[k], n))
    if r.random() < cfg["unk"]:
        tags.append("unknown-account")
    if r.random() < .25:
        tags.append(r.choice(["food", "import-self", "import-peer", "xfp-1", "fp", "Fp-2", "candidate", "a-long-tag-for-a-line"]))
    bal = None
    x = r.random()
    if x < cfg["bal"]:
        bal = "0" if r.random() < .15 else {"q": r.choice(["90.00", "90.0", "80.00"]), "c": "GBP", "left": True}
    return {"account": r.choice(ACCTS[:cfg["accts"]]), "reality": "R" if r.random() < .93 else r.choice("BU"),
            "amount": g_amount(r, True) if r.random() < .96 else None, "balance": bal,
            "status": r.choice([None, None, "P"]),
            "comment": {"lines": r.sample(WORDS, r.choice([0, 0, 0, 1, 1, 2, 3])), "tags": tags,
                        "kv": {k: r.choice(VALS) for k in r.sample(KEYS, r.choice([0, 0, 1, 2]))}}}


def g_txn(r, n, t, cfg, npost):
    return {"date": r.choice(DATES[:cfg["dates"]]), "edate": r.choice([None, None, None, None, "2020-01-05", "2020-01-05", "2020-01-01"]),
            "status": r.choice([None, None, "P", "C"]), "code": r.choice([None, None, "c1"]),
            "desc": r.choice(DESCS) if cfg.get("same") and r.random() < .8 else "d%d" % t,
            "comment": {"lines": r.sample(WORDS, r.choice([0, 0, 1])), "tags": r.choice([[], [], ["trntag"]]),
                        "kv": {k: r.choice(VALS) for k in r.sample(KEYS, r.choice([0, 0, 1]))}},
            "posts": [g_post(r, n + i, cfg) for i in range(npost)]}


def retouch(r, p, n, cfg):
    """A variant of an existing posting, as another import of it would give."""
    q = copy.deepcopy(p)
    x = r.random()
    if x < .3:
        q["comment"]["tags"] = [t for t in q["comment"]["tags"] if t != "unknown-account"] + \
            (["unknown-account"] if r.random() < .5 else [])
    if r.random() < .3:
        q["account"] = r.choice(ACCTS[:cfg["accts"]])
    if r.random() < .25:
        q["status"] = r.choice([None, "P"])
    if r.random() < .3:
        q["balance"] = r.choice([None, {"q": "90.00", "c": "GBP", "left": True}])
    if r.random() < .3:
        q["comment"]["kv"][r.choice(KEYS)] = r.choice(VALS)
    if r.random() < .3:
        q["comment"]["lines"] = r.sample(WORDS, r.choice([0, 1, 2]))
    if r.random() < .15:
        q["amount"] = g_amount(r, False)
    elif r.random() < .12 and q["amount"]:
        # all but equal: the commodity in another case, or on the other side
        a = q["amount"]
        a["c"] = r.choice([a["c"].lower(), a["c"].capitalize(), "eur", "gbp"]) if a["c"] != "$" else "£"
        if r.random() < .2:
            a["left"] = not a["left"]
    q["comment"]["tags"] = [t for t in q["comment"]["tags"] if not t.startswith("id-")] + ["id-%d" % n]
    return q


def scenario(r, multi=False, faulty=.0, small=False, split=None):
    cfg = dict(unk=r.choice([0, .2, .5, .8]), bal=r.choice([0, .2, .5]), accts=r.choice([1, 2, 4]),
               dates=r.choice([1, 2, 4]), same=r.random() < .3)
    big = not small and r.random() < .02
    files, n, t = [], 0, 0
    srcs = SRCS[:r.choice([2, 5])] if r.random() < .5 else r.sample(SRCS, r.choice([2, 3, 5, len(SRCS)]))
    seen = []          # postings of earlier files with their txn
    for fi in range(r.choice([1, 2, 2, 3] if small else [1, 2, 2, 3, 3, 4, 6])):
        f = []
        for _ in range(r.choice([1, 1, 2, 3] if small else [9, 12, 20] if big else [1, 1, 2, 3, 4, 6])):
            npost = r.choice([1, 1, 2, 2, 3, 4]) if not big or r.random() < .8 else r.choice([5, 9, 12, 17])
            tx = g_txn(r, n, t, cfg, npost)
            if seen and r.random() < .6:
                otx = r.choice(seen)
                tx["date"] = otx["date"] if r.random() < .85 else tx["date"]
                k = min(npost, r.choice([1, 1, 2, 3]))
                src = r.sample(otx["posts"], min(k, len(otx["posts"])))
                for j, p in enumerate(src):
                    q = retouch(r, p, n + j, cfg)
                    keep = r.random()
                    own = ["fp-z%d" % (n + j)]
                    if keep < .4:      # same fingerprints
                        if r.random() < .4:
                            q["comment"]["tags"] += own
                    elif keep < .6:    # some of them
                        fs = fps(q)
                        drop = set(r.sample(fs, len(fs) - 1))
                        q["comment"]["tags"] = [x for x in q["comment"]["tags"] if x not in drop] + \
                            (own if r.random() < .5 else [])
                    else:              # none: value match at most
                        q["comment"]["tags"] = [x for x in q["comment"]["tags"] if not is_fp(x)] + own
                    tx["posts"][j] = q
                if r.random() < .3:
                    r.shuffle(tx["posts"])
            if multi and r.random() < .7:
                tx["comment"]["kv"]["source-file"] = r.choice(srcs)
            if r.random() < .1:
                tx["comment"]["kv"][r.choice(["Source-File", "SOURCE-FILE", "source-files", "source_file", "source-Files", "source", "asource-file"])] = r.choice(VALS)
            n += npost
            t += 1
            f.append(tx)
        files.append(f)
        seen += [x for x in f]
    spice(r, files)
    if r.random() < faulty:
        inject(r, files, n)
    return {"files": files, "style": r.randrange(3)}


NEAR = ["fp_x", "fpx", "fp.1", "FP-1", "xfp-1", "fp", "unknown", "Unknown-Account", "unknown-account-2", "import-self", "Candidate-fp-1", "candidate"]
DTAGS = [t for t in D.TAGS + [t + x for t in D.TAGS for x in ("1", "-x", "x")] + [x + t for t in D.TAGS for x in ("x", "a-")]
         if not t.startswith(("fp-", "candidate-", "id-"))]


def spice(r, files):
    """Words that only nearly mean something, shared by several postings, and the values of one field as those of another."""
    new = D.WORDS and r.random() < .6
    if not new and r.random() > .25:
        return
    tags = DTAGS if new and DTAGS else NEAR
    texts = (D.TEXTS if new else []) or ["unknown-account", "fp-1", "s1", "bank"]
    keys = [t for t in (D.TAGS if new else []) if t != "source-file"] + KEYS + ["id", "fp", "note", "fp-1", "fp-x", "candidate-fp-1", "unknown-account"]
    txns = [t for f in files for t in f]
    posts = [p for t in txns for p in t["posts"]]
    for _ in range(r.choice([1, 2, 4])):
        x, ps = r.random(), r.sample(posts, min(len(posts), r.choice([1, 2, 2, 3, 5])))
        if x < .35:
            t = r.choice(tags)
            for p in ps:
                if t not in p["comment"]["tags"]:
                    p["comment"]["tags"].append(t)
        elif x < .65:
            k = r.choice(keys)
            v = r.choice([r.choice(posts)["account"], r.choice(posts)["account"], r.choice(texts), r.choice(txns)["date"], r.choice(VALS), "fp-1"])
            for p in ps:
                p["comment"]["kv"][k] = v
        elif x < .75 and D.ACCOUNTS:
            a = r.choice(D.ACCOUNTS)
            for p in ps:
                p["account"] = a
        elif x < .85:
            w = r.choice(texts)
            for t in r.sample(txns, min(len(txns), 2)):
                t["desc"] = w if r.random() < .7 else t["desc"] + " " + w
        elif x < .95:
            w = r.choice(texts)
            for p in ps:
                if w not in p["comment"]["lines"]:
                    p["comment"]["lines"].append(w)
        else:
            k, v = r.choice(keys), r.choice(texts)
            for t in r.sample(txns, min(len(txns), 2)):
                t["comment"]["kv"][k] = v


def inject(r, files, n):
    f = r.choice(files)
    tx = r.choice(f)
    p = r.choice(tx["posts"])
    T = p["comment"]
    kind = r.choice(["nofp", "cand", "dup", "multi", "same", "cross"])
    allp = [q for g in files for x in g for q in x["posts"]]
    if kind == "nofp":
        T["tags"] = [t for t in T["tags"] if not is_fp(t)]
    elif kind == "cand":
        T["tags"].append(r.choice(["candidate-fp-x", "candidate-", "candidate-q"]))
    elif kind == "dup":
        q = r.choice([q for x in f for q in x["posts"]])
        T["tags"] += [t for t in r.sample(fps(q), min(1, len(fps(q)))) if t not in T["tags"]]
    elif kind == "multi":
        for q in r.sample(allp, min(2, len(allp))):
            T["tags"] += [t for t in fps(q)[:1] if t not in T["tags"]]
    elif kind == "same":
        q = r.choice(allp)
        q["comment"]["tags"] += ["fp-s1", "fp-s2"]
        ps = [x for y in files[-1] for x in y["posts"]]
        for k, x in enumerate(r.sample(ps, min(2, len(ps)))):
            if x is not q:
                x["comment"]["tags"].append("fp-s%d" % (k + 1))
    else:
        q, ps = r.sample(allp, min(2, len(allp))), tx["posts"]
        for a, b in zip(q, ps):
            b["comment"]["tags"] += [t for t in fps(a)[:1] if t not in b["comment"]["tags"]]


# ------------------------------------------------------------ reference model
class Reject(Exception):
    pass


def unk(p):
    return "unknown-account" in p["comment"]["tags"]


def matches(a, b):
    if not (unk(a) or unk(b)) and a["account"] != b["account"]:
        return False
    if not L.amt_eq(a["amount"], b["amount"]):
        return False
    return a["balance"] is None or b["balance"] is None or L.amt_eq(a["balance"], b["balance"])


def combine(d, s):
    if d["status"] is None:
        d["status"] = s["status"]
    elif d["status"] == "P" and s["status"] == "C":
        d["status"] = "C"
    if d["balance"] is None:
        d["balance"] = copy.deepcopy(s["balance"])
    dc, sc = d["comment"], s["comment"]
    if "unknown-account" in dc["tags"] and "unknown-account" not in sc["tags"]:
        dc["tags"] = dc["tags"] - {"unknown-account"}
        d["account"] = s["account"]
    dc["tags"] = dc["tags"] | (sc["tags"] - {"unknown-account"})
    for l in sc["lines"]:
        if l not in dc["lines"]:
            dc["lines"].append(l)
    dc["kv"].update(sc["kv"])


def normalise(tx):
    tx = copy.deepcopy(tx)
    for o in [tx] + tx["posts"]:
        # what the reader makes of the rendered comment
        o["comment"] = L.parse_comment("\n".join(l.strip(L.WS) for l in L.src_comment_lines(o["comment"], 0))) \
            if L.src_comment_lines(o["comment"], 0) else L.parse_comment(None)
    return tx


def groups_of(fname, txns):
    g = {}
    for tx in txns:
        tx = normalise(tx)
        s = tx["comment"]["kv"].setdefault("source-file", json.dumps(fname))
        g.setdefault(s, []).append(tx)
    return [g[k] for k in sorted(g, key=lambda s: s.encode())]


def model(groups):
    """groups: lists of normalised transactions.  Returns merged, unmerged, log; raises Reject."""
    posts, trns, unm, log = [], [], [], []
    for gi, group in enumerate(groups):
        seen, acts, dests = set(), [], {}
        byfp = {}
        for k, p in enumerate(posts):
            for t in p["post"]["comment"]["tags"]:
                if is_fp(t):
                    byfp[t] = k
        for tx in group:
            pa, amb = [], False
            for p in tx["posts"]:
                tags = p["comment"]["tags"]
                if any(t.startswith("candidate-") for t in tags):
                    raise Reject("candidate")
                f = {t for t in tags if is_fp(t)}
                if not f:
                    raise Reject("nofp")
                if f & seen:
                    raise Reject("dup")
                seen |= f
                hit = sorted({byfp[t] for t in f if t in byfp})
                if len(hit) > 1:
                    raise Reject("multi")
                if hit:
                    pa.append((p, "fp", hit))
                    continue
                hit = [k for k, e in enumerate(posts) if e["date"] == tx["date"] and matches(e["post"], p)]
                pa.append((p, "value" if len(hit) < 2 else "ambiguous", hit))
                amb |= len(hit) > 1
            acts.append((tx, pa, amb))
            if not amb:
                ds = {posts[h[0]]["trn"] for _, _, h in pa if h}
                if len(ds) > 1:
                    raise Reject("cross")
        for tx, pa, amb in acts:
            if not amb:
                for p, k, h in pa:
                    if h:
                        if h[0] in dests:
                            raise Reject("same")
                        dests[h[0]] = p
        for tx, pa, amb in acts:
            if amb:
                u = copy.deepcopy(tx)
                cands = [[sorted(t for t in posts[x]["post"]["comment"]["tags"] if is_fp(t)) for x in h] if k == "ambiguous"
                         else [] for _, k, h in pa]
                unm.append((u, cands))
                for p, k, h in pa:
                    log.append((sorted(pid(p)), k, "unmerged", None))
                continue
            hits = [posts[h[0]]["trn"] for _, _, h in pa if h]
            if hits:
                d = hits[0]
            else:
                d = len(trns)
                trns.append({"trn": {k: copy.deepcopy(v) for k, v in tx.items() if k != "posts"}, "posts": []})
            for p, k, h in pa:
                log.append((sorted(pid(p)), k, "combine" if h else "new",
                            sorted(pid(posts[h[0]]["post"])) if h else None))
                if h:
                    combine(posts[h[0]]["post"], p)
                else:
                    trns[d]["posts"].append(len(posts))
                    posts.append({"post": copy.deepcopy(p), "trn": d, "date": tx["date"]})
    out = []
    for i in sorted(range(len(trns)), key=lambda i: (trns[i]["trn"]["date"], i)):
        t = copy.deepcopy(trns[i]["trn"])
        t["comment"]["kv"].pop("source-file", None)
        t["posts"] = [posts[k]["post"] for k in trns[i]["posts"]]
        out.append(t)
    return out, unm, log


# ------------------------------------------------------------------- running
class Result:
    pass


def run_merge(sb, files, style, names=None, pre=None, unmerged=True):
    names = names or ["f%d.journal" % i for i in range(len(files))]
    for n, f in zip(names, files):
        sb.write(n, f if isinstance(f, str) else L.render(f, style))
    R = Result()
    for o in ("out.j", "unm.j"):
        if pre is not None:
            sb.write(o, pre)
        else:
            import os
            try:
                os.unlink(sb.path(o))
            except FileNotFoundError:
                pass
    args = ["merge", "-o", "out.j"] + (["-u", "unm.j"] if unmerged else []) + names
    R.r = sb.run(*args)
    if crashed(R.r):
        raise Fail("the merge crashed (%s): %s" % (R.r.rc, R.r.err[:400]))
    R.ok = R.r.ok
    R.out_text, R.unm_text = sb.read("out.j"), sb.read("unm.j")
    R.out = R.unm = None
    if R.ok:
        try:
            R.out = L.read(R.out_text)
            R.unm = L.read(R.unm_text) if R.unm_text is not None and R.unm_text != pre else []
        except L.BadJournal as e:
            raise Fail("the output is not a canonical journal: %s" % e)
    return R


def expected(case):
    gs = []
    for i, f in enumerate(case["files"]):
        gs += groups_of("f%d.journal" % i, f)
    try:
        return model(gs)
    except Reject as e:
        return str(e)


def all_ids(case):
    return [sorted(pid(p))[0] for f in case["files"] for t in f for p in t["posts"]]


class Ids:
    """Which input transaction an output transaction stems from: the one that arrived first among those of its postings."""

    def __init__(self, case):
        self.arr, self.trn = {}, {}
        n = 0
        for i, f in enumerate(case["files"]):
            for g in groups_of("f%d.journal" % i, f):
                for t in g:
                    n += 1
                    for p in t["posts"]:
                        for x in pid(p):
                            self.arr.setdefault(x, len(self.arr))
                            self.trn.setdefault(x, n)

    def of(self, t):
        xs = [x for p in t["posts"] for x in pid(p) if x in self.arr]
        return self.trn[min(xs, key=self.arr.get)] if xs else -1


# --------------------------------------------------------------------- C01
def c01(sb, case):
    R = run_merge(sb, case["files"], case["style"])
    if not R.ok:
        return None
    where = {}
    for kind, txns in (("merged", R.out), ("unmerged", R.unm)):
        for ti, t in enumerate(txns):
            need(t["posts"], "%s transaction %r has no postings", kind, t["desc"])
            for pi, p in enumerate(t["posts"]):
                ids = pid(p)
                need(ids, "%s posting %r of %r stems from no input posting", kind, p["account"], t["desc"])
                need(kind == "merged" or len(ids) == 1, "unmerged posting combines %r", ids)
                for x in ids:
                    need(x not in where, "input posting %s occurs twice in the output: %r and %r", x, where.get(x), (kind, ti, pi))
                    where[x] = (kind, ti, pi)
    ids = Ids(case)
    for i, f in enumerate(case["files"]):
        for t in f:
            places = set()
            for p in t["posts"]:
                x = pid(p)[0]
                need(x in where, "input posting %s is in no output", x)
                places.add(where[x][:2])
            need(len(places) == 1, "postings of input transaction %r were spread over %r", t["desc"], sorted(places))
            k, ti = places.pop()
            if k == "unmerged":
                need(len(R.unm[ti]["posts"]) == len(t["posts"]), "unmerged %r has another number of postings", t["desc"])
    names = [ids.of(t) for t in R.out + R.unm]
    for d, t in zip(names, R.out + R.unm):
        need(d >= 0, "output transaction %r stems from no input transaction", t["desc"])
        need(names.count(d) == 1, "transaction %r occurs twice in the output", t["desc"])
    comb = [len(pid(p)) for t in R.out for p in t["posts"]]
    return (len(case["files"]), tuple(sorted(comb)), len(R.unm)) if len(where) > 1 else None


# --------------------------------------------------------------------- C02
def c02(sb, case):
    mode = case.get("mode", "normal")
    files = case["files"]
    exp = expected(case)
    old = "; previous content\n"
    unm = mode != "nounm"
    texts = [L.render(f, case["style"]) for f in files]
    if mode == "garbage":
        texts[case["bad"] % len(texts)] += case["junk"]
        exp = "unreadable"
    elif mode == "missing":
        exp = "unreadable"
    names = ["f%d.journal" % i for i in range(len(files))]
    if mode == "missing":
        for n, t in zip(names, texts):
            sb.write(n, t)
        import os
        os.unlink(sb.path(names[case["bad"] % len(names)]))
        for o in ("out.j", "unm.j"):
            sb.write(o, old)
        r = sb.run("merge", "-o", "out.j", "-u", "unm.j", *names)
        R = Result()
        R.r, R.ok, R.out_text, R.unm_text = r, r.ok, sb.read("out.j"), sb.read("unm.j")
        need(not crashed(r), "the merge crashed: %s", r.err[:300])
    else:
        R = run_merge(sb, texts, 0, pre=old, unmerged=unm)
    if not isinstance(exp, str) and not unm and exp[1]:
        exp = "no unmerged file"
    if isinstance(exp, str):
        need(not R.ok, "input with fault %r was accepted", exp)
        need(R.r.err.strip(), "the merge failed without an error message")
        need(R.out_text == old, "a failing merge (%s) changed the merged output file", exp)
        need(R.unm_text == old, "a failing merge (%s) changed the unmerged output file", exp)
        need(R.r.out == "", "a failing merge (%s) wrote to stdout", exp)
        return (exp, len(files), mode)
    need(R.ok, "valid input was rejected: %s", R.r.err.split("Stack")[0][:400])
    return ("ok", len(exp[0]), len(exp[1])) if len(files) > 1 else None


def g_c02(r, i):
    c = scenario(r, multi=r.random() < .3, faulty=.6)
    x = r.random()
    if x < .05:
        c.update(mode="garbage", bad=r.randrange(9), junk=r.choice(["\n!!", "\n; comment line\n", "\nP 2020-01-01 12:00:00 EUR $1\n",
                                                                     "\ninclude x\n", "\n2020-13-01 x\n  a  $1\n"]))
    elif x < .08:
        c.update(mode="missing", bad=r.randrange(9))
    elif x < .25:
        c.update(mode="nounm")
    return c


# ----------------------------------------------------------- C03, C04: actions
def actual_classes(R):
    cls = {}
    for kind, txns in (("merged", R.out), ("unmerged", R.unm)):
        for ti, t in enumerate(txns):
            for pi, p in enumerate(t["posts"]):
                for x in pid(p):
                    cls[x] = (kind, frozenset(pid(p)))
    return cls


def first_divergence(case, R, exp):
    """First input posting (in arrival order) whose fate differs from the model's; its log entry."""
    cls = actual_classes(R)
    log = exp[2]
    before = set()
    for ids, kind, fate, target in log:
        x = ids[0]
        a = cls.get(x)
        if a is None:
            return (ids, kind, fate, target), "missing"
        if fate == "unmerged":
            if a[0] != "unmerged":
                return (ids, kind, fate, target), "merged"
        elif a[0] != "merged":
            return (ids, kind, fate, target), "unmerged"
        else:
            got = a[1] & before
            want = set() if target is None else set(target)
            if got != want & before or (target and not got):
                return (ids, kind, fate, target), "combined with %r instead of %r" % (sorted(got), sorted(want))
            before.add(x)
    return None, None


def rejected_kind(case, R, exp, kinds):
    need(not kinds, "")


def c03(sb, case):
    exp = expected(case)
    if isinstance(exp, str):
        return None
    if not any(k == "fp" for _, k, _, _ in exp[2]):
        return None
    R = run_merge(sb, case["files"], case["style"])
    if not R.ok:
        # without any value match in the scenario only fingerprint handling can be to blame
        need(any(k != "fp" and (f == "combine" or f == "unmerged") for _, k, f, _ in exp[2]),
             "a merge decided by fingerprints alone was rejected: %s", R.r.err.split("Stack")[0][:300])
        return None
    d, how = first_divergence(case, R, exp)
    if d is not None:
        need(d[1] != "fp", "posting %s shares a fingerprint with posting %r but was %s", d[0], d[3], how)
    return tuple((k, f) for _, k, f, _ in exp[2])[:12] if d is None else None


def c04(sb, case):
    exp = expected(case)
    if isinstance(exp, str):
        return None
    R = run_merge(sb, case["files"], case["style"])
    if not R.ok:
        need(any(k == "fp" for _, k, _, _ in exp[2]), "a merge decided by values alone was rejected: %s",
             R.r.err.split("Stack")[0][:300])
        return None
    d, how = first_divergence(case, R, exp)
    if d is not None:
        need(d[1] == "fp", "posting %s: value matching should give %s (%s, %r) but it was %s", d[0], d[1], d[2], d[3], how)
        return None
    ids = Ids(case)
    byd = {ids.of(t): t for t in R.unm}
    for u, cands in exp[1]:
        t = byd[ids.of(u)]
        for p, q, cs in zip(u["posts"], t["posts"], cands):
            extra = q["comment"]["tags"] - p["comment"]["tags"]
            left = list(extra)
            for c in cs:
                hit = [x for x in left if x in {"candidate-" + f for f in c}]
                need(len(hit) == 1, "ambiguous posting %r: candidate with fingerprints %r is named by %r (added tags %r)",
                     pid(p), c, hit, sorted(extra))
                left.remove(hit[0])
            need(not left, "posting %r of an unmerged transaction gained the tags %r", pid(p), left)
            need(p["comment"]["tags"] <= q["comment"]["tags"], "posting %r of an unmerged transaction lost tags", pid(p))
            same_post(p, q, "unmerged", tags=False)
        same_trn(u, t, "unmerged")
    return (tuple(f for _, _, f, _ in exp[2]), tuple(len(c) for _, cs in exp[1] for c in cs)) \
        if any(k != "fp" and f != "new" for _, k, f, _ in exp[2]) else None


def same_post(want, got, what, tags=True):
    for k in ("account", "reality", "status"):
        need(want[k] == got[k], "%s posting %r: %s is %r, should be %r", what, pid(want), k, got[k], want[k])
    for k in ("amount", "balance"):
        need(want[k] == got[k], "%s posting %r: %s is %r, should be %r", what, pid(want), k, got[k], want[k])
    a, b = want["comment"], got["comment"]
    need(a["lines"] == b["lines"], "%s posting %r: text lines %r, should be %r", what, pid(want), b["lines"], a["lines"])
    need(a["kv"] == b["kv"], "%s posting %r: value tags %r, should be %r", what, pid(want), b["kv"], a["kv"])
    if tags:
        need(set(a["tags"]) == set(b["tags"]), "%s posting %r: tags %r, should be %r", what, pid(want), sorted(b["tags"]),
             sorted(a["tags"]))


def same_trn(want, got, what):
    for k in ("date", "edate", "status", "code", "desc"):
        need(want[k] == got[k], "%s transaction %r: %s is %r, should be %r", what, want["desc"], k, got[k], want[k])
    a, b = want["comment"], got["comment"]
    for k in ("lines", "kv"):
        need(a[k] == b[k], "%s transaction %r: comment %s %r, should be %r", what, want["desc"], k, b[k], a[k])
    need(set(a["tags"]) == set(b["tags"]), "%s transaction %r: tags %r, should be %r", what, want["desc"], b["tags"], a["tags"])


# --------------------------------------------------------------------- C05
def c05(sb, case):
    exp = expected(case)
    if isinstance(exp, str):
        return None
    R = run_merge(sb, case["files"], case["style"])
    if not R.ok:
        return None
    d, how = first_divergence(case, R, exp)
    if d is not None:
        return None
    got = {frozenset(pid(p)): p for t in R.out for p in t["posts"]}
    key = []
    for t in exp[0]:
        for p in t["posts"]:
            q = got.get(frozenset(pid(p)))
            need(q is not None, "no output posting combines exactly %r", pid(p))
            same_post(p, q, "merged")
            key.append((len(pid(p)), p["status"], p["balance"] is None))
    ids = Ids(case)
    bt = {ids.of(t): t for t in R.out}
    for t in exp[0]:
        need(ids.of(t) in bt, "no output transaction %r", t["desc"])
        u = bt[ids.of(t)]
        same_trn(t, dict(u, comment=dict(u["comment"], kv={k: v for k, v in u["comment"]["kv"].items() if k != "source-file"})),
                 "merged")
    return tuple(sorted(map(repr, key))) if any(k[0] > 1 for k in key) else None


# --------------------------------------------------------------------- C06
def c06(sb, case):
    R = run_merge(sb, case["files"], case["style"])
    if not R.ok:
        return None
    ids = Ids(case)
    post_arrival = ids.arr
    for txns, byd in ((R.out, True), (R.unm, False)):
        keys = [(t["date"] if byd else "", ids.of(t)) for t in txns]
        need(keys == sorted(keys), "%s output is out of order: %r", "merged" if byd else "unmerged",
             [(t["date"], t["desc"]) for t in txns])
        for t in txns:
            ks = [min([post_arrival.get(x, -1) for x in pid(p)] or [-1]) for p in t["posts"]]
            need(ks == sorted(ks), "postings of %r are out of order: %r", t["desc"], [pid(p) for p in t["posts"]])
    return (tuple(t["date"] for t in R.out), tuple(len(t["posts"]) for t in R.out)) if len(R.out) > 1 else None


# --------------------------------------------------------------------- C07
def c07(sb, case):
    R = run_merge(sb, case["files"], case["style"])
    # the same transactions, one file per source group, without source tags
    parts = []
    for i, f in enumerate(case["files"]):
        g = {}
        for t in f:
            t = copy.deepcopy(t)
            s = t["comment"]["kv"].pop("source-file", json.dumps("f%d.journal" % i))
            g.setdefault(s, []).append(t)
        parts += [(s, g[s]) for s in sorted(g, key=lambda s: s.encode())]
    names = ["p%d.journal" % i for i in range(len(parts))]
    S = run_merge(sb, [p[1] for p in parts], case["style"], names=names)
    need(R.ok == S.ok, "merging a file with several sources %s, merging the sources one after the other %s: %s",
         "succeeds" if R.ok else "fails", "succeeds" if S.ok else "fails", (R.r.err + S.r.err).split("Stack")[0][:300])
    if not R.ok:
        return None
    src = {pid(p)[0]: s for s, g in parts for t in g for p in t["posts"]}
    opener = [t for s, g in parts for t in g for p in t["posts"]]
    order = {pid(p)[0]: k for k, p in enumerate(p for s, g in parts for t in g for p in t["posts"])}
    for t in R.out:
        need("source-file" not in t["comment"]["kv"], "merged transaction %r carries a source tag", t["desc"])
        # only the source tag is taken away: the other value tags of the transaction that was opened are there
        first = opener[min(x for p in t["posts"] for x in map(order.get, pid(p)) if x is not None)] if t["posts"] else None
        for k in first["comment"]["kv"] if first else []:
            need(k in t["comment"]["kv"], "merged transaction %r lost its value tag %r", t["desc"], k)
    for t in R.unm:
        x = src.get((pid(t["posts"][0]) or [None])[0]) if t["posts"] else None
        need(t["comment"]["kv"].get("source-file") == x, "unmerged transaction %r names source %r, not %r",
             t["desc"], t["comment"]["kv"].get("source-file"), x)

    def strip(ts):
        ts = copy.deepcopy(ts)
        for t in ts:
            t["comment"]["kv"].pop("source-file", None)
            for p in t["posts"]:
                p["comment"]["tags"] = {"candidate-" if x.startswith("candidate-") else x for x in p["comment"]["tags"]}
        return ts
    need(strip(R.out) == strip(S.out), "merged output differs from merging the sources one after the other: %r vs %r",
         [t["desc"] for t in R.out], [t["desc"] for t in S.out])
    need(strip(R.unm) == strip(S.unm), "unmerged output differs from merging the sources one after the other")
    return (len(parts), len(case["files"]), len(R.out), len(R.unm)) if len(parts) > len(case["files"]) else None


# --------------------------------------------------------------------- C08
def c08(sb, case):
    R = run_merge(sb, case["files"], case["style"])
    if not R.ok or R.unm:
        return None
    names = ["f%d.journal" % i for i in range(len(case["files"]))]
    for what, files, ns in (("alone", [R.out_text], ["m.journal"]),
                            ("followed by the same journals", [R.out_text] + case["files"], ["m.journal"] + names)):
        S = run_merge(sb, files, case["style"], names=ns)
        need(S.ok, "merging the output %s fails: %s", what, S.r.err.split("Stack")[0][:300])
        need(not S.unm, "merging the output %s leaves transactions unmerged: %r", what, [t["desc"] for t in S.unm])
        need(S.out == R.out, "merging the output %s changes it:\n%s\n---\n%s", what, R.out_text[:1500], S.out_text[:1500])
    return tuple(len(pid(p)) for t in R.out for p in t["posts"]) if len(R.out) > 0 and len(names) > 1 else None


# --------------------------------------------------------------------- C21
def c21(sb, case):
    rs = []
    for k in range(3):
        rs.append(run_merge(sb, case["files"], case["style"]))
    a = rs[0]
    exp = expected(case)
    multi = not isinstance(exp, str) and any(len(c) > 1 for _, cs in exp[1] for x in cs for c in x)
    for b in rs[1:]:
        need(a.ok == b.ok, "the same merge succeeds once and fails once")
        if not a.ok:
            continue
        need(a.out_text == b.out_text, "the same merge gives different merged output:\n%s\n---\n%s", a.out_text[:1200], b.out_text[:1200])
        if not multi:
            need(a.unm_text == b.unm_text, "the same merge gives different unmerged output")
    return (len(a.out), len(a.unm)) if a.ok and len(a.out) > 1 else None


def shrink(case):
    for i in range(len(case["files"])):
        if len(case["files"]) > 1:
            c = copy.deepcopy(case)
            del c["files"][i]
            yield c
    for i, f in enumerate(case["files"]):
        for j in range(len(f)):
            if len(f) > 1:
                c = copy.deepcopy(case)
                del c["files"][i][j]
                yield c
            for k in range(len(f[j]["posts"])):
                if len(f[j]["posts"]) > 1:
                    c = copy.deepcopy(case)
                    del c["files"][i][j]["posts"][k]
                    yield c
    for i, f in enumerate(case["files"]):
        for j, t in enumerate(f):
            for o in [t] + t["posts"]:
                pass


def G(**kw):
    return lambda r, i: scenario(r, multi=r.random() < kw.get("m", .25), faulty=kw.get("faulty", 0), small=i % 3 == 0)


CHECKS = {"C01": (G(), c01), "C02": (g_c02, c02), "C03": (G(), c03), "C04": (G(), c04), "C05": (G(), c05), "C06": (G(m=.5), c06),
          "C07": (G(m=1.0), c07), "C08": (G(), c08), "C21": (G(m=.4), c21)}
SHRINK = {k: shrink for k in CHECKS}


_R = "random histories of input journals (source groups, files, transactions and postings with shared fingerprints, amounts and dates)"
RULES = {"C01": _R + "; non-trivial when the merge succeeded with at least one combined posting or unmerged transaction",
         "C02": _R + ", most with one planted defect; non-trivial when refusal or acceptance was compared",
         "C03": _R + "; non-trivial when a fingerprint match was compared", "C04": _R + "; non-trivial when value matches were compared",
         "C05": _R + "; non-trivial when a combined posting was compared field by field", "C06": _R + "; non-trivial when the order of several transactions was compared",
         "C07": _R + " with several source groups; non-trivial when both outputs were compared",
         "C08": _R + ", the output merged again with its inputs; non-trivial when both were compared",
         "C21": _R + ", every command run twice and in other directories; non-trivial when outputs were compared"}
PROBES = {}
