"""Constants of /repo's current source that the source the oracles were written for does not have.

The generators mix them into their inputs (as a fuzzer's dictionary does), so that a change which only matters for one particular
word, prefix, length or count is met.  On the known source the dictionary is empty.
"""
import collections, json, os, re, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
KNOWN = os.path.join(VERIF, "tools", "known_literals.json")


def literals(repo):
    import rustlex
    root = os.path.join(repo, "src")
    out = {}
    for d, ds, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if f.endswith(".rs"):
                p = os.path.join(d, f)
                c = collections.Counter()
                with open(p) as fh:
                    try:
                        toks = rustlex.lex(fh.read())
                    except Exception:
                        continue
                for t in toks:
                    if t.k == "str":
                        m = re.match(r'(?s)\A(?:b|c|br|cr|r)?#*"(.*)"#*\Z', t.s)
                        if m:
                            c["s" + m.group(1)] += 1
                    elif t.k == "char":
                        c["s" + t.s.strip("b")[1:-1]] += 1
                    elif t.k == "num":
                        m = re.match(r"\A(0x[0-9a-fA-F_]+|[0-9][0-9_]*)(?:\.[0-9]+)?[a-z0-9]*\Z", t.s)
                        if m:
                            c["i%d" % int(m.group(1).replace("_", ""), 0)] += 1
                out[os.path.relpath(p, root)] = c
    return out


def load():
    try:
        with open(KNOWN) as f:
            known = json.load(f)
        now = literals(os.environ.get("VERIF_REPO", "/repo"))
        ws, ns = [], []
        for f, c in now.items():
            k = known.get(f, {})
            for x, n in c.items():
                if n <= k.get(x, 0):
                    continue
                if x[0] == "i":
                    if int(x[1:]) <= 5000:
                        ns.append(int(x[1:]))
                elif "{" not in x and len(x) <= 40:
                    ws.append(x[1:])
        return sorted(set(ws))[:24], sorted(set(ns))[:24]
    except Exception:
        return [], []


WORDS, INTS = load()


def plain(w):
    """w as a word of a description, name or value: letters, digits, inner punctuation and single blanks."""
    w = re.sub(r"[^0-9A-Za-z:_. \u00c0-\u024f-]", " ", re.sub(r"\\(?:u\{[^}]*\}|.)?", " ", w))
    return re.sub(r" +", " ", w).strip(" .:-_")


def tag(w):
    w = re.sub(r"\\(?:u\{[^}]*\}|.)?", "", w)
    w = re.sub(r"[^0-9A-Za-z_.\u00c0-\u024f-]", "", w)
    return w


TAGS = sorted({t for t in map(tag, WORDS) if t and not t.startswith(("fp-", "candidate-", "id-"))})
TEXTS = sorted({t for t in map(plain, WORDS) if t})
ACCOUNTS = sorted({t for t in (re.sub(r":+", ":", x) for x in TEXTS) if re.match(r"\A[A-Za-z]", t)})
WORDS_LINE = sorted({w for w in WORDS if w and not re.search(r"[\\\x00-\x1f]", w)})   # as they are, within one line
SIZES = sorted({m for n in INTS for m in (n - 1, n, n + 1, n + 2) if m >= 0})

