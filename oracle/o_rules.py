"""Bounded replay oracles: comments (C09), rules (C15, C16), fpgen (C17), journals (C18)."""
import copy, json, os, re
import ledger as L
import dictionary as D
import o_merge as M
from common import Fail, need, crashed

NOOP = '[Chain("start", [])]'
WS = L.WS


def runok(sb, *args, **kw):
    r = sb.run(*args, **kw)
    if crashed(r):
        raise Fail("the command crashed (%s): %s" % (r.rc, r.err[:400]))
    return r


def rd(text, raw=False):
    try:
        return L.read(text, raw)
    except L.BadJournal as e:
        raise Fail("the output is not a canonical journal: %s\n%s" % (e, text[:600]))


# --------------------------------------------------------------------- C09
CH = ["a", "b", "z", "B", "é", "-", "_", ".", "1", "0", "日"]
FRAG = D.WORDS_LINE + [":", ": ", "::", " ", "  ", "a:", ":x:", ":x:y:", "k: v", "word", "key:", ":fp-1:", ":long-tag-name-over-twelve:",
        ";", "http://x", "12:30", ":é:", "\t", "x", ": :", ":a b:", "|", "*"]


def g_tag(r):
    if D.TAGS and r.random() < .25:
        return r.choice(D.TAGS) + r.choice(["", "", "x"])
    if D.SIZES and r.random() < .1:
        return "".join(r.choice(CH) for _ in range(min(max(1, r.choice(D.SIZES)), 100)))
    return "".join(r.choice(CH) for _ in range(r.choice([1, 1, 2, 3, 5, 10, 11, 12, 13, 14, 25])))


def g_ctext(r):
    lines = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 5, 8])):
        x = r.random()
        if x < .3:
            lines.append(":" + ":".join(g_tag(r) for _ in range(r.choice([1, 1, 2, 3, 6]))) + ":")
        elif x < .5:
            lines.append(g_tag(r) + ": " + r.choice(["v", "two words", "a: b", ":t:", "", "x  y", "日本"]))
        elif x < .7:
            lines.append(r.choice(["plain", "some text here", "é", "text :a:b: more", "t :q:", ":q: t", "pre :a: mid :b: post"]))
        else:
            lines.append("".join(r.choice(FRAG) for _ in range(r.choice([1, 2, 3, 5]))))
    return [l.strip(WS) for l in lines]


def g_c09(r, i):
    def c():
        return g_ctext(r)
    return {"txns": [{"c": c(), "posts": [c() for _ in range(r.choice([1, 2]))]} for _ in range(r.choice([1, 2, 3]))],
            "cmd": r.choice(["rules", "rules", "merge", "fpgen"])}


def c09(sb, case):
    txt, want = "", []
    for t in case["txns"]:
        def rnd(lines, ind):
            return "".join("%s; %s\n" % (ind, l) for l in lines)
        extra = [":fp-zz%d:" % len(want)]

        def add(ls):
            return ls + [":fp-zz%d:" % len(want)]
        txt += "2020-01-01 d\n" + rnd(t["c"], "  ")
        want.append(t["c"])
        for p in t["posts"]:
            # every posting carries a fingerprint, so that all commands leave the contents alone
            p = add(p)
            txt += "  a  $%d\n" % len(want) + rnd(p, "    ")
            want.append(p)
        txt += "\n"
    sb.write("j", txt)
    sb.write("r.ron", NOOP)
    if case["cmd"] == "rules":
        r = runok(sb, "apply-rules", "-o", "out", "j", "table", "r.ron")
    elif case["cmd"] == "merge":
        if any("source-file:" in l or "candidate-" in l or "fp-1" in l for w in want for l in w):
            return None
        r = runok(sb, "merge", "-o", "out", "j")
    else:
        r = runok(sb, "generate-fingerprints", "j")
    if not r.ok:
        raise Fail("the command failed: %s" % r.err[:300])
    out = sb.read("j" if case["cmd"] == "fpgen" else "out")
    got = []
    for t in rd(out, True):
        got.append(t["comment"])
        got += [p["comment"] for p in t["posts"]]
    need(len(got) == len(want), "%d comments came back, %d went in", len(got), len(want))
    for g, w in zip(got, want):
        c = L.parse_comment("\n".join(w) if w else None)
        e = L.canon_comment(c)
        need(g == e, "comment %r is written as %r, should be %r", w, g, e)
    return 1 if any(len(w) > 2 for w in want) else None


def s_c09(case):
    for i in range(len(case["txns"])):
        if len(case["txns"]) > 1:
            c = copy.deepcopy(case)
            del c["txns"][i]
            yield c
    for i, t in enumerate(case["txns"]):
        for k in range(len(t["c"])):
            c = copy.deepcopy(case)
            del c["txns"][i]["c"][k]
            yield c
        for j, p in enumerate(t["posts"]):
            for k in range(len(p)):
                c = copy.deepcopy(case)
                del c["txns"][i]["posts"][j][k]
                yield c


# ------------------------------------------------------------------ rules DSL
def q(s):
    return json.dumps(s, ensure_ascii=False)


def ron_match(m):
    k = m[0]
    return "AsLower(%s)" % ron_match(m[1]) if k == "AsLower" else "%s(%s)" % (k, q(m[1]))


def ron_pred(p):
    k = p[0]
    if k == "True":
        return "True"
    if k in ("All", "Any"):
        return "%s([%s])" % (k, ", ".join(map(ron_pred, p[1])))
    if k == "Not":
        return "Not(%s)" % ron_pred(p[1])
    if k in ("Account", "PostingFlagTag", "TransactionDescription"):
        return "%s(%s)" % (k, ron_match(p[1]))
    if k == "PostingValueTag":
        return "%s(%s, %s)" % (k, q(p[1]), ron_match(p[2]))
    return "%s(%s)" % (k, q(p[1]))


def ron_action(a):
    k = a[0]
    if k == "Noop":
        return k
    if k == "All":
        return "All([%s])" % ", ".join(map(ron_action, a[1]))
    if k == "ReplaceTransactionDescription":
        return "%s((regex: %s, replacement: %s))" % (k, q(a[1]), q(a[2]))
    return "%s(%s)" % (k, ", ".join(q(x) for x in a[1:]))


def ron_rule(u):
    return "Rule(action: %s, predicate: %s, result: %s)" % (ron_action(u["a"]), ron_pred(u["p"]), u["r"])


def ron_chain(name, rules):
    return "Chain(%s, [%s])" % (q(name), ",\n  ".join(map(ron_rule, rules)))


RX = [("^expenses", None), ("food$", None), ("a.*b", None), ("[0-9]+", None), ("unknown", None), ("^$", None), ("B", None)]
REPL = [("(\\w+) (\\w+)", "$2 $1"), ("[aeiou]", "_"), ("^", "X"), ("[0-9]+", ""), ("zzz", "never"), ("(a)|(b)", "<$1|$2>"), ("$", "!")]
TAGS = D.TAGS + ["food", "unknown-account", "import-self", "t1", "a-rather-long-tag", "Food", "FOOD", "T1", "import-peer", "foo"]
KV = D.TAGS + ["bank", "seq", "ref", "Bank", "se"]
DESCS = D.TEXTS + ["Paid Bob 12", "alpha beta", "SHOP food", "b42", "Éa x", "ÉA X", "a" * 70 + "b", "12 b 34 b", "paid bob"]
ACC = D.ACCOUNTS + ["assets:bank", "expenses:food", "expenses:unknown", "Assets:B1", "assets:bank:sub", "ASSETS:BANK", "Ünter:x"]


def g_match(r, d=0):
    x = r.random()
    if x < .2 and d < 3:
        return ["AsLower", g_match(r, d + 1)]
    if x < .25:
        # a piece of something that occurs
        w = r.choice(ACC + DESCS + TAGS + ["w w", "V1"])
        k = r.randrange(len(w))
        return ["Contains", w[k:k + r.choice([1, 2, 5, 80])]]
    if x < .5:
        return ["Contains", r.choice(D.TEXTS[:8] + ["food", "a", "B", "", "un", "Bob", "12", ":"])]
    if x < .75:
        return ["Eq", r.choice(ACC + DESCS + TAGS + ["v1", "V1", "", "paid bob 12"])]
    return ["Matches", r.choice(RX)[0]]


def g_pred(r, d=0):
    x = r.random()
    if d == 0 and x < .01:
        p = g_pred(r, 2)
        for _ in range(r.choice([4, 9, 20])):
            p = r.choice([["Not", p], ["All", [p]], ["Any", [p]], ["All", [["True"], p]], ["Any", [["Any", []], p]]])
        return p
    if d < 3 and x < .3:
        k = r.choice(["All", "Any", "Not"])
        return [k, g_pred(r, d + 1)] if k == "Not" else [k, [g_pred(r, d + 1) for _ in range(r.choice([0, 1, 2, 2, 3]))]]
    k = r.choice(["True", "Account", "PostingFlagTag", "PostingHasFlagTag", "PostingHasValueTag", "PostingValueTag",
                  "TransactionDescription"])
    if k == "True":
        return [k]
    if k == "PostingHasFlagTag":
        return [k, r.choice(TAGS)]
    if k == "PostingHasValueTag":
        return [k, r.choice(KV)]
    if k == "PostingValueTag":
        return [k, r.choice(KV), g_match(r)]
    return [k, g_match(r)]


def g_action(r, jumps, d=0):
    k = r.choice(["AddPostingFlagTag", "AddPostingValueTag", "AddTransactionFlagTag", "AddTransactionValueTag", "All", "Noop",
                  "JumpChain", "JumpChain", "JumpChain", "SetAccount", "SetAccount", "RemovePostingFlagTag", "RemovePostingValueTag",
                  "RemoveTransactionFlagTag", "RemoveTransactionValueTag", "ReplaceTransactionDescription"])
    if r.random() < .01:
        k = "Error"
    if d == 0 and r.random() < .01:
        a = g_action(r, jumps, 3)
        for _ in range(r.choice([4, 9, 20])):
            a = ["All", r.choice([[a], [["Noop"], a], [a, ["Noop"]]])]
        return a
    if k == "All":
        return [k, [g_action(r, jumps, d + 1) for _ in range(r.choice([0, 1, 2, 3]))]] if d < 3 else ["Noop"]
    if k == "Noop":
        return [k]
    if k == "JumpChain":
        return [k, r.choice(jumps)] if jumps else ["Noop"]
    if k == "Error":
        return [k, "boom"]
    if k == "SetAccount":
        return [k, r.choice(ACC + ["x:y"])]
    if k == "ReplaceTransactionDescription":
        return [k] + list(r.choice(REPL))
    if k.endswith("FlagTag"):
        return [k, r.choice(TAGS + ["new"])]
    if k.startswith("Add"):
        return [k, r.choice(KV + ["nk"]), r.choice(D.TEXTS[:8] + ["v1", "V1", "w w"])]
    return [k, r.choice(KV + ["nk"])]


def g_rtxn(r, n):
    t = M.g_txn(r, n, n, dict(unk=.4, bal=.2, accts=4, dates=4), r.choice([1, 2, 3]) if r.random() < .97 else 12)
    t["desc"] = r.choice(DESCS)
    for p in t["posts"]:
        p["account"] = r.choice(ACC)
        for x in r.sample(TAGS, r.choice([0, 1, 2])):
            if x not in p["comment"]["tags"]:
                p["comment"]["tags"].append(x)
        if r.random() < .4:
            p["comment"]["kv"][r.choice(KV)] = r.choice(D.TEXTS[:8] + ["v1", "V1", "w w"])
        if r.random() < .1:
            p["comment"]["tags"] = []
        if r.random() < .1:
            p["comment"]["kv"] = {}
    if r.random() < .3:
        t["comment"]["tags"] = t["comment"]["tags"] + [r.choice(["t1", "new"])]
    return t


def g_c15(r, i):
    n = r.choice([1, 1, 2, 3, 4]) if r.random() < .97 else r.choice([9, 17])
    names = ["start"] + ["c%d" % k for k in range(1, n)]
    chains = []
    for k, nm in enumerate(names):
        js = names[k + 1:]
        chains.append([nm, [{"a": g_action(r, js), "p": g_pred(r) if r.random() < .8 else ["True"],
                             "r": r.choice(["Continue", "Continue", "Return"])} for _ in range(r.choice([0, 1, 2, 3, 5]) if r.random() < .97 else 18)]])
    order = list(range(n))
    r.shuffle(order)
    return {"chains": [chains[k] for k in order], "txns": [g_rtxn(r, 20 * k) for k in range(r.choice([1, 1, 2, 3]) if r.random() < .97 else 17)],
            "style": r.randrange(3)}


class RuleError(Exception):
    pass


def ev_match(m, s):
    if m[0] == "AsLower":
        return ev_match(m[1], s.lower())
    if m[0] == "Contains":
        return m[1] in s
    if m[0] == "Eq":
        return m[1] == s
    return re.search(m[1], s) is not None


def ev_pred(p, t, o):
    k = p[0]
    c = o["comment"]
    if k == "True":
        return True
    if k == "All":
        return all(ev_pred(x, t, o) for x in p[1])
    if k == "Any":
        return any(ev_pred(x, t, o) for x in p[1])
    if k == "Not":
        return not ev_pred(p[1], t, o)
    if k == "Account":
        return ev_match(p[1], o["account"])
    if k == "PostingFlagTag":
        return any(ev_match(p[1], x) for x in c["tags"])
    if k == "PostingHasFlagTag":
        return p[1] in c["tags"]
    if k == "PostingHasValueTag":
        return p[1] in c["kv"]
    if k == "PostingValueTag":
        return p[1] in c["kv"] and ev_match(p[2], c["kv"][p[1]])
    return ev_match(p[1], t["desc"])


def ev_action(chains, a, t, o):
    k = a[0]
    if k == "All":
        for x in a[1]:
            ev_action(chains, x, t, o)
    elif k == "Error":
        raise RuleError()
    elif k == "JumpChain":
        ev_chain(chains, chains[a[1]], t, o)
    elif k == "SetAccount":
        o["account"] = a[1]
    elif k == "ReplaceTransactionDescription":
        t["desc"] = re.sub(a[1], lambda m: re.sub(r"\$(\d)", lambda g: m.group(int(g.group(1))) or "", a[2]), t["desc"], count=1)
    elif k != "Noop":
        c = (o if "Posting" in k else t)["comment"]
        if k.startswith("Add"):
            if k.endswith("FlagTag"):
                c["tags"].add(a[1])
            else:
                c["kv"][a[1]] = a[2]
        elif k.endswith("FlagTag"):
            c["tags"].discard(a[1])
        else:
            c["kv"].pop(a[1], None)


def ev_chain(chains, rules, t, o):
    for u in rules:
        if ev_pred(u["p"], t, o):
            ev_action(chains, u["a"], t, o)
            if u["r"] == "Return":
                return


def c15(sb, case):
    chains = dict((n, u) for n, u in case["chains"])
    txns = [M.normalise(t) for t in case["txns"]]
    sb.write("j", L.render(case["txns"], case["style"]))
    sb.write("r.ron", "[%s]" % ",\n".join(ron_chain(n, u) for n, u in case["chains"]))
    want, err = copy.deepcopy(txns), False
    try:
        for t in want:
            for o in t["posts"]:
                ev_chain(chains, chains["start"], t, o)
    except RuleError:
        err = True
    sb.write("out", "previous")
    r = runok(sb, "apply-rules", "-o", "out", "j", "table", "r.ron")
    if err:
        need(not r.ok, "a rule's Error action did not fail the command")
        need(sb.read("out") == "previous", "a failing rule run changed the output file")
        return 1
    need(r.ok, "applying valid rules failed: %s", r.err.split("Stack")[0][:400])
    got = rd(sb.read("out"))
    need(len(got) == len(want), "%d transactions came out, %d went in", len(got), len(want))
    for w, g in zip(want, got):
        # a description may have become empty or gained outer blanks; the writer keeps it
        M.same_trn(w, g, "processed")
        need(len(w["posts"]) == len(g["posts"]), "%r: %d postings, %d went in", w["desc"], len(g["posts"]), len(w["posts"]))
        for a, b in zip(w["posts"], g["posts"]):
            M.same_post(a, b, "processed")
    return 1 if want != txns else None


def s_c15(case):
    for i in range(len(case["txns"])):
        if len(case["txns"]) > 1:
            c = copy.deepcopy(case)
            del c["txns"][i]
            yield c
        for j in range(len(case["txns"][i]["posts"])):
            if len(case["txns"][i]["posts"]) > 1:
                c = copy.deepcopy(case)
                del c["txns"][i]["posts"][j]
                yield c
    for i, (n, us) in enumerate(case["chains"]):
        for j in range(len(us)):
            c = copy.deepcopy(case)
            del c["chains"][i][1][j]
            yield c


# --------------------------------------------------------------------- C16
def g_c16(r, i):
    n = r.choice([1, 1, 2, 2, 3, 4]) if r.random() < .95 else r.choice([6, 9])
    files = ["main.ron"] + [r.choice(["sub/f%d.ron", "f%d.ron", "sub/deep/f%d.ron"]) % k for k in range(1, n)]
    if r.random() < .35:      # names that only nearly differ
        files[1:] = r.sample(["main.inc", "main", "Main.ron", "main.ron.bak", "sub/main.ron", "sub/main.inc", "sub/deep/main.ron", "f1.ron", "f1.inc",
                              "f1", "F1.ron", "sub/f1.ron", "sub/f1", "f 1.ron", "main.RON", "sub2/f1.ron", "sub/sub/main.ron"][:max(n + 4, 8)] if r.random() < .5 else
                             ["main.inc", "main", "Main.ron", "main.ron.bak", "sub/main.ron", "sub/main.inc", "sub/deep/main.ron", "sub/f1.ron", "f1.inc", "f1.ron",
                              "F1.ron", "sub2/f1.ron", "f 1.ron", "main.RON", "sub/sub/main.ron"], n - 1)
    chains = ["start"] + ["c%d" % k for k in range(r.choice([0, 1, 2, 3, 4, 8]))] + r.sample(D.TEXTS, min(len(D.TEXTS), r.choice([0, 0, 1, 2])))
    if r.random() < .08:
        chains = chains[1:]
    place = {c: r.randrange(n) for c in chains}
    out = []
    for k, f in enumerate(files):
        ents = []
        for c in chains:
            if place[c] == k:
                us = []
                for _ in range(r.choice([0, 1, 1, 2])):
                    tgt = r.choice(chains) if chains and r.random() < .93 else "nope"
                    a = ["JumpChain", tgt] if r.random() < .7 else ["Noop"]
                    for _ in range(r.choice([0, 0, 0, 1, 2]) if r.random() < .95 else r.choice([5, 10])):
                        a = ["All", [["Noop"]] * r.choice([0, 1]) + [a] + [["Noop"]] * r.choice([0, 1])]
                    us.append({"a": a, "p": r.choice([["Not", ["True"]], ["Any", []], ["PostingHasFlagTag", "zz"]]),
                               "r": r.choice(["Continue", "Return"])})
                ents.append(["chain", c, us])
        if r.random() < .07 and chains:
            ents.append(["chain", r.choice(chains), []])
        out.append(ents)
    # include edges: a tree that reaches (nearly) all files, plus extra edges and cycles
    for k in range(1, n):
        if r.random() < .95:
            out[r.randrange(k)].append(["inc", k])
    for _ in range(r.choice([0, 0, 1, 2])):
        out[r.randrange(n)].append(["inc", r.randrange(n)])
    if r.random() < .05:
        out[r.randrange(n)].append(["inc", -1])
    for e in out:
        r.shuffle(e)
    return {"files": files, "entries": out, "alias": r.random() < .3, "links": r.random() < .2, "bad": r.randrange(n) if r.random() < .04 else None}


def c16(sb, case):
    files, ents = case["files"], case["entries"]
    for k, f in enumerate(files):
        es = []
        for e in ents[k]:
            if e[0] == "chain":
                es.append(ron_chain(e[1], e[2]))
            else:
                tgt = files[e[1]] if e[1] >= 0 else "missing.ron"
                if case.get("links") and e[1] >= 0 and (k + e[1]) % 2:
                    # another name of the same file, in the same place
                    lnk = os.path.join(os.path.dirname(tgt), "lnk-" + os.path.basename(tgt))
                    if not os.path.islink(sb.path(lnk)):
                        os.makedirs(os.path.dirname(sb.path(lnk)) or ".", exist_ok=True)
                        os.symlink(os.path.basename(tgt), sb.path(lnk))
                    tgt = lnk
                rel = os.path.relpath(tgt, os.path.dirname(f) or ".")
                if case["alias"]:
                    d = os.path.basename(os.path.dirname(f))
                    rel = ("../%s/%s" % (d, rel)) if d else "./" + rel
                es.append("Include(%s)" % q(rel))
        sb.write(f, ("[%s]" % ",\n".join(es)) if case["bad"] != k else "[Chain(")
    # the model
    seen, names, fault = [], [], None

    def load(k):
        nonlocal fault
        if fault:
            return
        if k < 0:
            fault = "missing file"
            return
        if case["bad"] == k:
            fault = "malformed file"
            return
        if k in seen:
            return
        seen.append(k)
        for e in ents[k]:
            if fault:
                return
            if e[0] == "inc":
                load(e[1])
            elif e[1] in names:
                fault = "duplicate chain"
            else:
                names.append(e[1])
    load(0)
    if not fault and "start" not in names:
        fault = "no start chain"

    def jumps(a):
        if a[0] == "JumpChain":
            yield a[1]
        if a[0] == "All":
            for x in a[1]:
                yield from jumps(x)
    if not fault:
        for k in seen:
            for e in ents[k]:
                if e[0] == "chain":
                    for u in e[2]:
                        if any(j not in names for j in jumps(u["a"])):
                            fault = "jump to a missing chain"
    sb.write("j", "2020-01-01 d\n  a  $1\n")
    sb.write("out", "previous")
    r = runok(sb, "apply-rules", "-o", "out", "j", "table", "main.ron")
    if fault:
        need(not r.ok, "rules with fault %r were accepted", fault)
        need(sb.read("out") == "previous", "rejected rules (%s) changed the output", fault)
    else:
        need(r.ok, "valid rules were rejected: %s", r.err.split("Stack")[0][:400])
        need(sb.read("out") == "2020-01-01 d\n  a  $1\n", "rules that never match changed the journal")
    return 1 if len(names) > 1 or len(seen) > 1 else None


# --------------------------------------------------------------------- C17
def g_c17(r, i):
    js = []
    for k in range(r.choice([1, 1, 2, 3])):
        ts = []
        for m in range(r.choice([1, 2, 4]) if r.random() < .97 else 40):
            t = M.g_txn(r, 100 * k + 10 * m, 10 * k + m, dict(unk=.3, bal=.3, accts=4, dates=3), r.choice([1, 1, 2, 3]))
            for p in t["posts"]:
                if r.random() < .6:
                    p["comment"]["tags"] = [x for x in p["comment"]["tags"] if not M.is_fp(x)] + \
                        r.choice([[], [], ["xfp-1"], ["fp"], ["FP-1"], ["fp_1"], ["candidate-fp-1"]])
                elif r.random() < .3:
                    p["comment"]["tags"] = [x for x in p["comment"]["tags"] if not M.is_fp(x)] + [r.choice(["fp-", "fp-a", "fp-b.c"])]
            ts.append(t)
        M.spice(r, [ts])
        js.append(ts)
    return {"js": js, "style": r.randrange(3)}


def c17(sb, case):
    names = ["j%d" % i for i in range(len(case["js"]))]
    for n, ts in zip(names, case["js"]):
        sb.write(n, L.render(ts, case["style"]))
    r = runok(sb, "generate-fingerprints", *names)
    need(r.ok, "the command failed: %s", r.err.split("Stack")[0][:300])
    new = []
    texts = [sb.read(n) for n in names]
    for n, ts, text in zip(names, case["js"], texts):
        got = rd(text)
        want = [M.normalise(t) for t in ts]
        need(len(got) == len(want), "%d transactions, should be %d", len(got), len(want))
        for w, g in zip(want, got):
            M.same_trn(w, g, "rewritten")
            need(len(w["posts"]) == len(g["posts"]), "%r: number of postings changed", w["desc"])
            for a, b in zip(w["posts"], g["posts"]):
                M.same_post(a, b, "rewritten", tags=False)
                ta, tb = set(a["comment"]["tags"]), set(b["comment"]["tags"])
                add = tb - ta
                need(ta <= tb, "posting lost tags %r", sorted(ta - tb))
                if any(M.is_fp(x) for x in ta):
                    need(not add, "a posting with a fingerprint %r gained %r", sorted(ta), sorted(add))
                else:
                    need(len(add) == 1 and all(M.is_fp(x) for x in add), "a posting without fingerprint gained %r", sorted(add))
                    new += add
    need(len(new) == len(set(new)), "two postings got the same new fingerprint")
    r = runok(sb, "generate-fingerprints", *names)
    need(r.ok and [sb.read(n) for n in names] == texts, "a second run changed a journal")
    return 1 if new else None


# --------------------------------------------------------------------- C18
ITEMS = ["= /food/\n    (b)  $1\n", "~ Monthly\n    b  $1\n", "account b\n", "D $1.00\n", "; a comment line\n", "# hash\n", "P 2020-01-01 12:00:00 EUR $1.50\n", "include other.journal\n", "* star\n", "% pct\n",
         "| bar\n"]


def g_c18(r, i):
    ts = [M.g_txn(r, 10 * m, m, dict(unk=.3, bal=.5, accts=4, dates=4), r.choice([1, 2, 3])) for m in range(r.choice([0, 1, 2, 4]) if r.random() < .97 else r.choice([20, 70]))]
    if ts:
        M.spice(r, [ts])
    c = {"txns": ts, "style": r.randrange(3), "cmd": r.choice(["rules", "fpgen", "merge"]), "blank": r.choice(["", "\n", "\n\n", "  \n"]),
         "item": None}
    if r.random() < .3:
        c["item"] = [r.randrange(len(ts) + 1), r.choice(ITEMS)]
    return c


def c18(sb, case):
    text = ""
    for i in range(len(case["txns"]) + 1):
        if case["item"] and case["item"][0] == i:
            text += "\n" + case["item"][1] + "\n"
        if i < len(case["txns"]):
            text += L.render_txn(case["txns"][i], case["style"]) + "\n" + case["blank"]
    sb.write("j", text)
    sb.write("r.ron", NOOP)
    sb.write("out", "previous")
    if case["cmd"] == "rules":
        r = runok(sb, "apply-rules", "-o", "out", "j", "table", "r.ron")
    elif case["cmd"] == "fpgen":
        r = runok(sb, "generate-fingerprints", "j")
    else:
        r = runok(sb, "merge", "-o", "out", "j")
    if case["item"]:
        need(not r.ok, "%s accepted a journal with the item %r", case["cmd"], case["item"][1])
        need(sb.read("j") == text, "%s changed a journal it refused", case["cmd"])
        need(sb.read("out") == "previous", "%s wrote output for a journal it refused", case["cmd"])
        return 1
    need(r.ok, "%s failed on a plain journal: %s", case["cmd"], r.err.split("Stack")[0][:300])
    out = sb.read("j" if case["cmd"] == "fpgen" else "out")
    got = rd(out)
    want = [M.normalise(t) for t in case["txns"]]
    if case["cmd"] == "merge":
        want.sort(key=lambda t: t["date"])
        for t in want:
            t["comment"]["kv"].pop("source-file", None)
    need(len(got) == len(want), "%d transactions came out, %d went in", len(got), len(want))
    for w, g in zip(want, got):
        M.same_trn(w, g, "rewritten")
        need(len(w["posts"]) == len(g["posts"]), "%r: number of postings changed", w["desc"])
        for a, b in zip(w["posts"], g["posts"]):
            M.same_post(a, b, "rewritten")
    if case["cmd"] != "merge":
        need(sb.read("j") == text or case["cmd"] == "fpgen", "the input journal changed")
    # formatting the result again is stable
    sb.write("k", out)
    r = runok(sb, "fmt", "k")
    def strip(x):
        return "\n".join(l.rstrip() for l in (x or "").split("\n"))
    need(r.ok and strip(sb.read("k")) == strip(out), "formatting canonical output changes it")
    return 1 if len(want) > 1 else None


def s_txns(case):
    for i in range(len(case["txns"])):
        c = copy.deepcopy(case)
        del c["txns"][i]
        if c.get("item") and c["item"][0] > i:
            c["item"][0] -= 1
        yield c


CHECKS = {"C09": (g_c09, c09), "C15": (g_c15, c15), "C16": (g_c16, c16), "C17": (g_c17, c17), "C18": (g_c18, c18)}
SHRINK = {"C09": s_c09, "C15": s_c15, "C18": s_txns}


# ------------------------------------------------------------- known findings
def probe_c18(sb):
    sb.write("j", "2020-01-01 d\n  a  $1\n  * b  $-1\n")
    sb.write("r", NOOP)
    r = sb.run("apply-rules", "-o", "out", "j", "table", "r")
    return r.ok and len(rd(sb.read("out"))[0]["posts"]) == 1


PROBES = {"cleared-posting-read-as-comment": probe_c18}
RULES = {"C09": "random comments of tags, key-values and text, written by one of three commands; non-trivial when the written comment was compared",
         "C15": "random rule tables applied to random journals against a model of the rule language; non-trivial when a rule changed a posting",
         "C16": "random rules files, one defect planted in most; non-trivial when acceptance or refusal was compared",
         "C17": "random journals with and without fingerprint tags; non-trivial when a tag was generated",
         "C18": "random journals with prices, balances, automated and periodic entries; non-trivial when the rewriting was compared"}
