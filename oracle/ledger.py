"""Journal data model, renderer and reader used by the bounded replay oracles.

A journal case is JSON-able:
  txn  = {date, edate, status, code, desc, comment, posts}
  post = {account, reality, amount, balance, status, comment}
  amount = {q, c, left, lot, price}      (lot/price = None | [unit|total, q, c, left])
  balance = None | "0" | {q, c, left}
  comment = {lines: [...], tags: [...], kv: {k: v}}
"""
import re
from decimal import Decimal

VALUE_TAG = re.compile(r"^[ ]*([^: ]+):(?:[ ]+(.+))?$")
FLAGS = re.compile(r":((?:[^: ]+:)+)")
WS = " \t\n\x0b\x0c\r\x85\xa0"


def new_comment():
    return {"lines": [], "tags": [], "kv": {}}


def parse_comment(text):
    """Reference reading of a comment (README: ledger flag tags, value tags, text)."""
    c = {"lines": [], "tags": set(), "kv": {}}
    if text is None:
        return c
    for line in text.split("\n"):
        m = VALUE_TAG.match(line)
        if m and "\n" not in line:
            c["kv"][m.group(1)] = m.group(2) or ""
            continue
        start = 0
        for m in FLAGS.finditer(line):
            if start < m.start():
                t = line[start:m.start()].strip(WS)
                if t:
                    c["lines"].append(t)
            start = m.end()
            c["tags"].update(m.group(1).rstrip(":").split(":"))
        if start < len(line):
            t = line[start:].strip(WS)
            if t:
                c["lines"].append(t)
    return c


def canon_comment(c):
    """The canonical text of a comment, None when it is empty (property C09)."""
    out = []
    tags = sorted(c["tags"], key=lambda s: s.encode())
    short = [t for t in tags if len(t.encode()) <= 12]
    if short:
        out.append(":" + ":".join(short) + ":")
    out += [":" + t + ":" for t in tags if len(t.encode()) > 12]
    for i, l in enumerate(c["lines"]):
        if i == 0 and out:
            out[0] += " " + l.strip(WS)
        else:
            out.append(l.strip(WS))
    for k in sorted(c["kv"], key=lambda s: s.encode()):
        out.append(k.strip(WS) + ": " + c["kv"][k].strip(WS))
    return "\n".join(out) if out else None


def src_comment_lines(c, style=0):
    """Writes a comment in one of several equivalent input forms."""
    out = []
    tags = list(c["tags"])
    if style == 0:
        for t in tags:
            out.append(":" + t + ":")
        out += c["lines"]
        out += ["%s: %s" % kv for kv in c["kv"].items()]
    elif style == 1:
        out += ["%s:  %s" % kv for kv in c["kv"].items()]
        out += c["lines"]
        if tags:
            out.append(":" + ":".join(tags) + ":")
    else:
        ls = list(c["lines"])
        first = ls.pop(0) + " " if ls else ""
        if tags:
            out.append(first + ":" + ":".join(tags) + ":")
        elif first:
            out.append(first.strip())
        out += ls
        out += ["%s: %s" % kv for kv in c["kv"].items()]
    return out


def amt(a):
    return a["c"] + a["q"] if a["left"] else a["q"] + " " + a["c"]


def price(p, o1, c1, o2, c2):
    if p is None:
        return ""
    k, q, c, left = p
    a = amt({"q": q, "c": c, "left": left})
    return " " + (o1 + a + c1 if k == "unit" else o2 + a + c2)


def posting_amount(a):
    return (amt(a) + price(a.get("lot"), "{", "}", "{{", "}}")
            + price(a.get("price"), "@ ", "", "@@ ", ""))


STATUS = {"P": "!", "C": "*"}


def render_post(p, style=0):
    s = "  "
    if p["status"]:
        s += STATUS[p["status"]] + " "
    s += {"R": "%s", "B": "[%s]", "U": "(%s)"}[p["reality"]] % p["account"]
    if p["amount"]:
        s += "  " + posting_amount(p["amount"])
    if p["balance"] is not None:
        s += ("  " if not p["amount"] else "") + " = " + ("0" if p["balance"] == "0" else amt(p["balance"]))
    lines = src_comment_lines(p["comment"], style)
    return s + "\n" + "".join("    ; %s\n" % l for l in lines)


def render_txn(t, style=0):
    s = t["date"]
    if t["edate"]:
        s += "=" + t["edate"]
    if t["status"]:
        s += " " + STATUS[t["status"]]
    if t["code"] is not None:
        s += " (%s)" % t["code"]
    s += " " + t["desc"] + "\n"
    s += "".join("  ; %s\n" % l for l in src_comment_lines(t["comment"], style))
    return s + "".join(render_post(p, style) for p in t["posts"])


def render(txns, style=0):
    return "\n".join(render_txn(t, style) for t in txns)


class BadJournal(Exception):
    pass


_AM = re.compile(r"^(?:(?P<c1>[^0-9 -]+)(?P<q1>-?[0-9.]+)|(?P<q2>-?[0-9.]+) (?P<c2>[^0-9 ]+))$")
_TXN = re.compile(r"^(\d{4}-\d\d-\d\d)(?:=(\d{4}-\d\d-\d\d))?(?: ([!*]))?(?: \(([^)]*)\))?(?: (.*))?$")
_PA = re.compile(r"^(?P<a>.*?)(?: (?P<l>\{\{.*?\}\}|\{.*?\}))?(?: (?P<p>@@? .*))?$")


def read_amt(s):
    m = _AM.match(s)
    if not m:
        raise BadJournal("amount %r" % s)
    if m.group("c1") is not None:
        return {"q": m.group("q1"), "c": m.group("c1"), "left": True}
    return {"q": m.group("q2"), "c": m.group("c2"), "left": False}


def _rd_price(kind, s):
    a = read_amt(s)
    return [kind, a["q"], a["c"], a["left"]]


def read_posting_amount(s):
    m = _PA.match(s)
    a = read_amt(m.group("a"))
    l, p = m.group("l"), m.group("p")
    a["lot"] = None if l is None else (_rd_price("total", l[2:-2]) if l.startswith("{{") else _rd_price("unit", l[1:-1]))
    a["price"] = None if p is None else (_rd_price("total", p[3:]) if p.startswith("@@") else _rd_price("unit", p[2:]))
    return a


def read(text, raw_comments=False):
    """Reads the canonical form the tools write.  Raises BadJournal on anything else."""
    txns, cur, ctext = [], None, None
    if text and not text.endswith("\n"):
        raise BadJournal("no final newline")
    lines = text.split("\n")[:-1] if text else []

    def fin(o):
        if o is not None and not raw_comments:
            o["comment"] = parse_comment(o["comment"])
    owner = None
    blank = True
    for ln in lines:
        if ln == "":
            if blank:
                raise BadJournal("two blank lines")
            blank = True
            fin(owner)
            owner = cur = None
            continue
        if ln.startswith("  ; "):
            if owner is None:
                raise BadJournal("stray comment %r" % ln)
            t = ln[4:] if raw_comments else ln[4:].strip(WS)
            owner["comment"] = t if owner["comment"] is None else owner["comment"] + "\n" + t
            continue
        if ln.startswith("  "):
            if cur is None:
                raise BadJournal("stray posting %r" % ln)
            fin(owner)
            s = ln[2:]
            p = {"status": None, "reality": "R", "amount": None, "balance": None, "comment": None}
            if s[:2] in ("! ", "* "):
                p["status"] = "P" if s[0] == "!" else "C"
                s = s[2:]
            acct, _, rest = s.partition("  ")
            if acct[:1] == "[" and acct[-1:] == "]":
                p["reality"], acct = "B", acct[1:-1]
            elif acct[:1] == "(" and acct[-1:] == ")":
                p["reality"], acct = "U", acct[1:-1]
            p["account"] = acct
            a, eq, b = rest.partition("= ")
            if eq:
                p["balance"] = "0" if b == "0" else read_amt(b)
            if a.strip():
                p["amount"] = read_posting_amount(a.rstrip(" "))
            cur["posts"].append(p)
            owner = p
            continue
        if not blank:
            raise BadJournal("transactions not separated by a blank line: %r" % ln)
        m = _TXN.match(ln)
        if not m:
            raise BadJournal("line %r" % ln)
        fin(owner)
        cur = {"date": m.group(1), "edate": m.group(2), "status": {None: None, "!": "P", "*": "C"}[m.group(3)],
               "code": m.group(4), "desc": m.group(5) or "", "comment": None, "posts": []}
        txns.append(cur)
        owner = cur
        blank = False
    fin(owner)
    return txns


def norm_comment(c):
    return {"lines": list(c["lines"]), "tags": set(c["tags"]), "kv": dict(c["kv"])}


def dec(q):
    return Decimal(q)


def amt_eq(a, b):
    """Numeric equality of amounts, as Decimal compares them."""
    if a is None or b is None:
        return a is b
    if a == "0" or b == "0":
        return a == b
    if not (dec(a["q"]) == dec(b["q"]) and a["c"] == b["c"] and a["left"] == b["left"]):
        return False
    for k in ("lot", "price"):
        x, y = a.get(k), b.get(k)
        if (x is None) != (y is None):
            return False
        if x is not None and not (x[0] == y[0] and dec(x[1]) == dec(y[1]) and x[2:] == y[2:]):
            return False
    return True
