"""Bounded replay oracles for the importers: C10-C14, C19, C20."""
import base64, copy, datetime, hashlib, re, zoneinfo
from decimal import Decimal
import ledger as L
import dictionary as D
from common import Fail, need, crashed
from o_rules import rd

MON = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
NSOK = re.compile(r"\A[a-zA-Z0-9_+/]*\Z")


# ------------------------------------------------------------ fingerprints
def i32(n):
    return (n & 0xffffffff).to_bytes(4, "big")


def u64(n):
    return n.to_bytes(8, "big")


def fstr(s):
    b = s.encode()
    return u64(len(b)) + b


def fopt(x, f):
    return b"\0" if x is None else b"\1" + f(x)


def fdate(d):
    return u64(12) + i32(d[0]) + i32(d[1]) + i32(d[2])


def ftime(t):
    return u64(16) + i32(t[0]) + i32(t[1]) + i32(t[2]) + i32(0)


def ser(q):
    """rust_decimal's 16 bytes: flags, lo, mid, hi, each little-endian."""
    s, digits, exp = q.as_tuple()
    m = int("".join(map(str, digits)))
    flags = (-exp << 16) | (s << 31)
    return flags.to_bytes(4, "little") + m.to_bytes(12, "little")


def famt(q, c="GBP"):
    return u64(17 + len(c.encode())) + ser(q) + b"\1" + fstr(c)


def b64(data):
    return base64.b64encode(hashlib.sha1(data).digest()).decode().rstrip("=")


def neg(q):
    return q.copy_negate()


def namespace(case, acct):
    """Returns the namespace, or None when making it must fail."""
    k, v = case["ns"]
    if k == "generated":
        return b64(fstr("Nationwide") + fstr(acct))[:8]
    if k == "account-name":
        return acct
    if k == "fixed":
        return v
    return dict(v).get(acct)


def ns_args(sb, case):
    k, v = case["ns"]
    if k == "fixed":
        return ["--fp-namespace", "fixed:" + v]
    if k == "lookup":
        sb.write("ns.ron", "{" + ",".join('"%s":"%s"' % tuple(kv) for kv in v) + "}")
        return ["--fp-namespace", "lookup:ns.ron"]
    return ["--fp-namespace", k]


def imp(sb, *args):
    r = sb.run("import", *args)
    if crashed(r):
        raise Fail("the import crashed (%s): %s" % (r.rc, r.err[:400]))
    return r


def iso(d):
    return "%04d-%02d-%02d" % tuple(d)


def valid(d):
    try:
        datetime.date(*d)
        return True
    except ValueError:
        return False


# --------------------------------------------------------- generators
ALNUM = "abcXYZ019_+/"
WORDS = ["FOO", "BAR CO", "é", "a@b", "x", "PAYMENT TO MR. X", "12-34", "日本", "A", "AB", "ABC", "£5", "1 ", "&", "A–B", "JOE’S", "“Q”", "€7", "Šž", "x…", "½¤¨"]


CHARS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


def g_word(r, n=None):
    """Letters and digits with punctuation inside; never a word that ends a journal line or starts a comment."""
    n = n or r.choice([1, 2, 3, 5, 8, 13, 30])
    if D.SIZES and r.random() < .1:
        n = min(max(1, r.choice(D.SIZES)), 300)
    return "".join(r.choice(CHARS) if r.random() < .9 or k in (0, n - 1) else r.choice(".,-'&()/*#!+_$éü£") for k in range(n))


def g_text(r, empty=False):
    if empty and r.random() < .35:
        return ""
    if D.TEXTS and r.random() < .3:
        w = r.choice(D.TEXTS)
        return r.choice([w, w, w + " " + g_word(r), g_word(r) + " " + w, w.upper(), w.lower(), w + g_word(r)])
    if r.random() < .3:
        return " ".join(g_word(r) for _ in range(r.choice([1, 1, 2, 3, 7])))
    if r.random() < .01:
        return g_word(r, r.choice([64, 127, 128, 255, 256, 257, 300]))
    return " ".join(r.choice(WORDS) for _ in range(r.choice([1, 1, 2, 3]))).strip()


def g_ns(r, acct, bad=.06):
    x = r.random()
    if x < .3:
        return ["generated", ""]
    if x < .4:
        return ["account-name", ""]
    if x < .6:
        t = [[acct, "".join(r.choice(ALNUM) for _ in range(4))], ["other", "zz"]]
        if r.random() < .1:
            t = t[1:]
        return ["lookup", t]
    s = "".join(r.choice(ALNUM) for _ in range(r.choice([0, 1, 3, 8] + D.SIZES[:4])))
    ws = [w for w in D.TEXTS if NSOK.match(w)]
    if ws and r.random() < .4:
        s = r.choice(ws) + s
    if r.random() < bad * 4:
        k = r.randrange(len(s) + 1)
        s = s[:k] + r.choice(["-", ".", ":", " ", "é", "\n", "=", ",", "*", "\t", "|"]) + s[k:]
    return ["fixed", s]


def g_gbp(r, sign=False):
    if D.INTS and r.random() < .15:
        return "£%d.%02d" % (r.choice(D.SIZES), r.choice([0, 0, 1, 50]))
    s = "£" + ("-" if sign and r.random() < .4 else "") + str(r.choice([0, 0, 1, 5, 12, 100, 999, 12345, 99999999, 92233720368547757, r.randrange(10 ** r.choice([1, 2, 3, 4, 6, 9, 12]))])) + "."
    return s + "%02d" % r.choice([0, 1, 5, 9, 10, 23, 50, 99, r.randrange(100)])


def gbp(s):
    m = re.match(r"\A£(-?)(\d+)\.(\d\d)\Z", s)
    if not m:
        return None
    q = Decimal(int(m.group(2)) * 100 + int(m.group(3)))
    if q >= 2 ** 63:
        return None
    q = Decimal((0, q.as_tuple().digits, -2))
    return neg(q) if m.group(1) else q


def g_many(r):
    """Row counts around the sizes at which something may wrap or saturate."""
    if D.SIZES and r.random() < .6:
        return min(max(1, r.choice(D.SIZES)), 1500)
    return r.choice([11, 17, 33, 65, 70, 101, 130, 260, 300, 1030])


def g_dates(r, n):
    d = datetime.date(r.choice([1999, 2020, 2021, 2024]), r.choice([1, 2, 12]), r.choice([1, 27, 28]))
    if r.random() < .3:
        d = datetime.date(1980, 1, 1) + datetime.timedelta(days=r.randrange(40000))
    out, p = [], r.choice([.5, .5, .5, .1]) if n < 30 else r.choice([0, .005, .05])
    for _ in range(n):
        if r.random() < p:
            d += datetime.timedelta(days=r.choice([1, 1, 2, 30, 365, -1, 1 + r.randrange(60)]))
        out.append([d.year, d.month, d.day])
    return out


BADGBP = ["£1.5", "£1.234", "£1", "1.23", "£1,234.00", "£ 1.00", "x£1.00", "£1.00x", "-£1.00", "£.50", "£99999999999999999999.00",
          "£92233720368547758.08", "$1.00", "£1.2.3", "£--1.00", "£1.000"]


def g_nwcsv(r, kind=None, bad=.25, n=None):
    kind = kind or r.choice([5, 6])
    acct = r.choice(["acc1", "My Account ****4321", "é", "A", g_text(r)])
    case = {"f": "csv", "kind": kind, "acct": acct, "ns": g_ns(r, acct), "legacy": r.random() < .5, "rows": []}
    if r.random() < .2:
        case["pad"] = r.randrange(1, 10 ** 6)
    n = n or r.choice([1, 1, 2, 3, 4, 6, 9])
    if r.random() < (.08 if D.INTS else .02):
        n = g_many(r)
    for d in g_dates(r, n):
        amt = g_gbp(r, r.random() < .15)
        row = {"date": d, "out": "", "in": "", "datetext": None}
        row[r.choice(["in", "out"])] = amt
        if kind == 5:
            row.update(a=g_text(r), b=g_text(r, True))
        else:
            row.update(a=g_text(r), b=g_text(r), bal=g_gbp(r, True))
        if case["rows"] and r.random() < .3:
            row = copy.deepcopy(case["rows"][-1])
            if r.random() < .5:
                k = r.choice(["a", "b"])
                row[k] = g_text(r)
        case["rows"].append(row)
    if r.random() < bad:
        row = r.choice(case["rows"])
        x = r.random()
        if x < .2:
            row["in"] = row["out"] = g_gbp(r)
        elif x < .4:
            row["in"] = row["out"] = ""
        elif x < .75:
            k = "in" if row["in"] else "out"
            if kind == 6 and r.random() < .3:
                k = "bal"
            row[k] = r.choice(BADGBP)
        elif x < .95:
            row["datetext"] = r.choice(["2021-09-01", "31 Feb 2021", "", "1st Sep 2021", "01 Foo 2021", "01/09/2021", "29 Feb 2021", "00 Jan 2021"])
        else:
            case["badhead"] = r.choice([0, 1, 2, 3])
    return case


def csvq(s):
    return '"' + s.replace('"', '""') + '"'


def padded(case, s):
    """With the white space around it that the reader drops."""
    case["k"] = (case["k"] * 1103515245 + 12345) % 2 ** 31
    n = case["k"] >> 16
    return s if n % 3 else " " * (n % 2) + s + [" ", "  ", "\t"][n // 6 % 3]


def render_nwcsv(case):
    acct = case["acct"]
    h = ["Account Name:", "Account Balance:", "Available Balance: "]
    cols = (["Date", "Transactions", "Location", "Paid out", "Paid in"] if case["kind"] == 5 else
            ["Date", "Transaction type", "Description", "Paid out", "Paid in", "Balance"])
    b = case.get("badhead")
    if b == 3:
        cols[-2] = "Paid"
    elif b is not None:
        h[b] = "Other:"
    out = [[h[0], acct], [h[1], "£-123.45"], [h[2], "£500.00"], None, cols]
    for x in case["rows"]:
        d = x["datetext"] if x["datetext"] is not None else "%02d %s %04d" % (x["date"][2], MON[x["date"][1] - 1], x["date"][0])
        out.append([d, x["a"], x["b"], x["out"], x["in"]] + ([x["bal"]] if case["kind"] == 6 else []))
    if case.get("pad"):
        k = {"k": case["pad"]}
        out = [l and [padded(k, f) for f in l] for l in out]
    s = "".join(("" if l is None else ",".join(csvq(f) for f in l)) + "\n" for l in out)
    return s.encode("windows-1252")


def enc_ok(case):
    try:
        render_nwcsv(case)
        return True
    except UnicodeError:
        return False


def clean_csv(case):
    """Only windows-1252 text can be in such a file."""
    t = repr(case)
    if "日" in t:
        def f(x):
            if isinstance(x, str):
                return x.replace("日本", "Nihon")
            if isinstance(x, list):
                return [f(y) for y in x]
            if isinstance(x, dict):
                return {k: f(v) for k, v in x.items()}
            return x
        case = f(case)
    return case


def halves(q, c="GBP"):
    return ("assets:unknown", q, "expenses:unknown" if q.is_signed() else "income:unknown", neg(q))


def model_nwcsv(case):
    """Returns the expected transactions, or the reason the import has to fail."""
    if case.get("badhead") is not None:
        return "bad header"
    acct = case["acct"].strip()
    ns = namespace(case, acct)
    if ns is None:
        return "no namespace for the account"
    if not NSOK.match(ns):
        return "namespace %r is not acceptable" % ns
    out, prev, cnt = [], None, 0
    for x in case["rows"]:
        if x["datetext"] is not None:
            return "malformed date %r" % x["datetext"]
        a, b = x["a"].strip(), x["b"].strip()
        vo = gbp(x["out"]) if x["out"] else None
        vi = gbp(x["in"]) if x["in"] else None
        if (x["out"] and vo is None) or (x["in"] and vi is None):
            return "malformed money in %r" % x
        if (vo is None) == (vi is None):
            return "paid in and paid out both or neither"
        q = vi if vi is not None else neg(vo)
        bal = None
        if case["kind"] == 6:
            bal = gbp(x["bal"])
            if bal is None:
                return "malformed balance %r" % x["bal"]
        cnt = cnt + 1 if prev == x["date"] else 0
        prev = x["date"]
        sa, sq, pa, pq = halves(q)
        if case["kind"] == 5:
            data = fdate(x["date"]) + i32(cnt) + fstr(a) + fstr(b) + fopt(vo, famt) + fopt(vi, famt)
            kv = {"transactions": a}
            if b:
                kv["location"] = b
            desc = a + " @ " + b if b else a
            alg = "nwcsv5"
        else:
            data = fstr(a) + fdate(x["date"]) + i32(cnt) + fstr(b) + fopt(vo, famt) + fopt(vi, famt) + famt(bal)
            kv = {"trn_type": a}
            desc = b
            alg = "nwcsv6"
        kv.update(account=acct, bank="Nationwide")
        tags = {"unknown-account"}
        sfp = {"fp-%s.1.%s-%s" % (alg, ns, b64(data + fstr("self")))}
        pfp = {"fp-%s.1.%s-%s" % (alg, ns, b64(data + fstr("peer")))}
        if case["kind"] == 6 and case["legacy"]:
            leg = fstr(a) + fdate(x["date"]) + fstr("") + famt(bal) + i32(cnt)
            sfp.add("fp-%s-%s" % (ns, b64(leg + fstr(sa) + famt(sq))))
            pfp.add("fp-%s-%s" % (ns, b64(leg + fstr(pa) + famt(pq))))
        out.append({"date": iso(x["date"]), "edate": None, "desc": desc, "posts": [
            {"account": sa, "q": sq, "c": "GBP", "bal": bal, "status": None, "fps": sfp,
             "tags": tags | {"import-self"}, "kv": dict(kv, seq="%s-%d" % (ns, cnt + 1))},
            {"account": pa, "q": pq, "c": "GBP", "bal": None, "status": None, "fps": pfp,
             "tags": tags | {"import-peer"}, "kv": dict(kv)}]})
    return out


def run_nwcsv(sb, case, name="in.csv"):
    sb.write(name, render_nwcsv(case))
    a = ns_args(sb, case)
    return imp(sb, "nationwide-csv", *a, *(["--include-legacy-fingerprint"] if case["legacy"] else []), name)


# ------------------------------------------------------------------ PayPal
HEAD = ["Date", "Time", "Time zone", "Name", "Type", "Status", "Currency", "Amount", "Receipt ID", "Balance"]
TZS = ["UTC", "Europe/London", "Australia/Lord_Howe", "America/St_Johns", "Africa/Monrovia", "America/New_York", "Asia/Kolkata", "Pacific/Kiritimati", "Asia/Kathmandu"]


def g_off(r):
    s = r.choice("+-")
    h = r.choice([0, 0, 1, 5, 9, 12, 14, 23])
    m = r.choice([None, None, 0, 15, 30, 45, 59])
    return "UTC%s%02d" % (s, h) + ("" if m is None else ":%02d" % m)


def off(s):
    m = re.match(r"\AUTC([-+])([0-9]{2})(?::([0-9]{2}))?\Z", s)
    if not m:
        return None
    h, mi = int(m.group(2)), int(m.group(3) or 0)
    if mi > 59 or h * 60 + mi >= 1440:
        return None
    return (1 if m.group(1) == "+" else -1) * (h * 60 + mi)


def g_money(r):
    x = r.random()
    if D.INTS and r.random() < .15:
        s = str(r.choice(D.SIZES)) + r.choice(["", "", ".01", ".5"])
    elif x < .3:
        s = str(r.choice([0, 1, 5, 100, 12345, r.randrange(10 ** r.choice([1, 3, 6, 10]))]))
    elif x < .9:
        s = "%d.%02d" % (r.choice([0, 1, 5, 100, 99999999, r.randrange(10 ** r.choice([1, 2, 3, 6, 9]))]), r.randrange(1, 100))
    else:
        s = r.choice(["0.10", "10.50", "1.00", "0.00", "0.001"])
    return ("-" if r.random() < .5 else "") + s


def money(s):
    """The value; written without trailing zeros, as the reader normalises it."""
    q = Decimal(s)
    t = q.as_tuple()
    d, e = list(t.digits), t.exponent
    while e < 0 and d and d[-1] == 0:
        d.pop()
        e += 1
    sign = t.sign
    if not any(d):
        d, e, sign = [0], 0, 0
    return Decimal((sign, tuple(d), e))


def g_paypal(r, bad=.15, n=None, tzbad=0):
    tz = [["AAA", g_off(r)], ["BBB", g_off(r)], ["GMT", "UTC+00"]]
    case = {"f": "pp", "tz": tz, "out": r.choice(TZS), "ns": "".join(r.choice(ALNUM) for _ in range(r.choice([0, 3, 6]))),
            "legacy": r.random() < .5, "rows": []}
    if r.random() < .2:
        case["pad"] = r.randrange(1, 10 ** 6)
    if r.random() < bad * .4:
        case["ns"] += r.choice(["-", ".", " ", "é", ":"])
    base = datetime.datetime(r.choice([2019, 2020]), r.choice([1, 3, 6, 10, 12]), r.choice([1, 15, 28]), r.choice([0, 1, 12, 23]), r.choice([0, 30, 59]), r.choice([0, 59]))
    if r.random() < .3:
        base = datetime.datetime(1990, 1, 1) + datetime.timedelta(seconds=r.randrange(45 * 31557600))
    n = n or r.choice([1, 1, 2, 3, 5, 8])
    p = .5
    if r.random() < (.08 if D.INTS else .02):
        n = g_many(r)
        p = r.choice([0, .01, .05])
    for k in range(n):
        if k and r.random() < p:
            base += datetime.timedelta(seconds=r.choice([1, 60, 1800, 3600, 86400, -3600, r.randrange(-200000, 400000)]))
        z = r.choice(tz)
        loc = base + datetime.timedelta(minutes=off(z[1]))
        row = {"dt": [loc.year, loc.month, loc.day, loc.hour, loc.minute, loc.second], "z": z[0],
               "name": g_text(r, r.random() < .3), "type": g_text(r), "status": r.choice(["Completed", "Pending"]),
               "cur": r.choice(["GBP", "USD", "EUR"]), "amt": g_money(r), "rid": r.choice(["", "", "R123", "é 9"]), "bal": g_money(r)}
        if case["rows"] and r.random() < .2:
            row = dict(case["rows"][-1])
            if r.random() < .5:
                row["status"] = r.choice(["Completed", "Pending"])
        case["rows"].append(row)
    if r.random() < bad:
        row = r.choice(case["rows"])
        x = r.random()
        if x < .3:
            row["z"] = r.choice(["XYZ", "aaa", "", "UTC+01"])
        elif x < .5:
            row["amt"] = r.choice(["1,234.00", "abc", "", "£5.00"])
        elif x < .7:
            row["status"] = r.choice(["Denied", "completed", ""])
        elif x < .85:
            row["datetext"] = r.choice(["2019-01-01", "31/02/2019", "", "01/13/2019"])
        else:
            row["timetext"] = r.choice(["24:00:00", "12:60:00", "", "12:30"])
    return case


def render_paypal(case):
    out = [HEAD]
    for x in case["rows"]:
        d = x["dt"]
        out.append([x.get("datetext", "%02d/%02d/%04d" % (d[2], d[1], d[0])), x.get("timetext", "%02d:%02d:%02d" % tuple(d[3:])), x["z"],
                    x["name"], x["type"], x["status"], x["cur"], x["amt"], x["rid"], x["bal"]])
    if case.get("pad"):
        k = {"k": case["pad"]}
        out = [[padded(k, f) for f in l] for l in out]
    return "".join(",".join(csvq(f) for f in l) + "\n" for l in out)


def model_tz(case):
    m = {}
    for a, o in case["tz"]:
        v = off(o)
        if v is None:
            return "bad offset %r" % o
        if a in m:
            return "repeated abbreviation %r" % a
        m[a] = v
    return m


def model_paypal(case):
    tz = model_tz(case)
    if isinstance(tz, str):
        return tz
    out, last = [], None
    if case["rows"] and not NSOK.match(case["ns"]):
        return "namespace %r is not acceptable" % case["ns"]
    for x in case["rows"]:
        if "datetext" in x or "timetext" in x:
            return "malformed date or time"
        if x["z"].strip() not in tz:
            return "unknown time zone %r" % x["z"]
        if x["status"] not in ("Completed", "Pending"):
            return "unknown status"
        if not re.match(r"\A-?\d+(\.\d+)?\Z", x["amt"]):
            return "malformed amount %r" % x["amt"]
        d = x["dt"]
        inst = datetime.datetime(*d, tzinfo=datetime.timezone.utc) - datetime.timedelta(minutes=tz[x["z"]])
        if last is None or inst != last:
            out.append({"inst": inst, "rows": []})
        last = inst
        out[-1]["rows"].append(x)
    res = []
    for g in out:
        name = next((x["name"].strip() for x in g["rows"] if x["name"].strip()), None)
        if name is None:
            return "no name at that instant"
        date = g["inst"].astimezone(zoneinfo.ZoneInfo(case["out"])).date()
        t = {"date": date.isoformat(), "edate": None, "desc": name, "posts": []}
        for i, x in enumerate(g["rows"]):
            q, bal = money(x["amt"]), money(x["bal"])
            nm = x["name"].strip() or None
            data = (fdate(x["dt"][:3]) + ftime(x["dt"][3:]) + fstr(x["z"]) + fopt(nm, fstr) + fstr(x["type"]) +
                    famt(q, x["cur"]) + famt(bal, x["cur"]) + u64(i))
            sa, sq, pa, pq = halves(q)
            fp = [b64(data + fstr("self")), b64(data + fstr("peer"))]
            ns = case["ns"]
            sf = {"fp-ppcsv.1.%s-%s" % (ns, fp[0])}
            pf = set()
            if case["legacy"]:
                sf.add("fp-%s-%s" % (ns, fp[0]))
                pf.add("fp-%s-%s" % (ns, fp[1]))
            st = "C" if x["status"] == "Completed" else "P"
            pkv = {"trn_type": x["type"]}
            if nm:
                pkv["trn_name"] = nm
            t["posts"].append({"account": sa, "q": sq, "c": x["cur"], "bal": bal, "status": st, "fps": sf,
                               "tags": {"import-self", "unknown-account"}, "kv": {"receipt_id": x["rid"]} if x["rid"] else {}})
            t["posts"].append({"account": pa, "q": pq, "c": x["cur"], "bal": None, "status": st, "fps": pf,
                               "tags": {"import-peer", "unknown-account"}, "kv": pkv})
        res.append(t)
    return res


def run_paypal(sb, case, name="in.csv"):
    sb.write(name, render_paypal(case))
    sb.write("tz.csv", "abbreviation,utc_offset\n" + "".join("%s,%s\n" % tuple(z) for z in case["tz"]))
    return imp(sb, "paypal-csv", "--output-timezone", case["out"], "--fingerprint-namespace", case["ns"],
               *(["--include-legacy-fingerprint"] if case["legacy"] else []), name, "tz.csv")


# --------------------------------------------------------------------- PDF
DWORDS = sorted({w for t in D.TEXTS for w in t.split()})
DETAIL = ["FOO", "BAR", "CO", "é", "to", "1234", "Payment", "Effective", "Date", "2020", "Balance"]
X0 = [100, 300, 900, 1200, 1500]


def pdf_num(r):
    """An amount as a statement prints it, or as OCR may."""
    x = r.random()
    n = r.choice([0, 5, 12, 999, 12345, r.randrange(1000), r.randrange(10 ** r.choice([1, 4, 6, 7, 10]))])
    if x < .6:
        return "%d.%02d" % (n, r.randrange(100))
    if x < .9:
        return "{:,}.{:02d}".format(n, r.randrange(100))
    return r.choice(["%d" % n, "%d.%d" % (n, r.randrange(10)), "%d.%03d" % (n, r.randrange(1000)), "1,23,4.50", "{:,}".format(n), "0.00"])


def g_pdf(r, bad=.25, npages=None):
    acct = "12-34-56 12345678"
    case = {"f": "pdf", "acct": acct, "ns": g_ns(r, acct, bad=.03), "pages": []}
    if r.random() < .2:
        case["tail"] = r.choice([["x"], ["Sheet", "2"], ["12-34-57", "12345679"], ["Account", "Number", "11-11-11", "11111111"]])
    if case["ns"][0] == "account-name":
        case["ns"] = ["generated", ""]
    day = datetime.date(r.choice([1999, 2020, 2024]), r.choice([1, 6, 12]), r.choice([1, 15, 26]))
    if r.random() < .3:
        day = datetime.date(1980, 1, 1) + datetime.timedelta(days=r.randrange(40000))
    if r.random() < .3:
        # where the table lies on the page must not matter
        case["geo"] = [r.choice([0, -50, 700, 2 ** 30, 2 ** 31 - 3000, -2 ** 31 + 10]), r.choice([0, -90, 5000, 2 ** 30, 2 ** 31 - 20000, -2 ** 31 + 10]), r.choice([1, 1, 3])]
    for pg in range(npages or r.choice([1, 1, 2, 3])):
        tables = []
        for _ in range(r.choice([0, 1, 1, 1, 2])):
            top, lines, year = 100, [], day.year
            many = r.choice([17, 40, 150]) if r.random() < .02 else 0

            def add(words, gap=None):
                nonlocal top
                h = r.choice([20, 30, 31])
                lines.append({"top": top, "height": h, "words": words})
                top += gap if gap is not None else r.choice([h, h + 5, 2 * h, 2 * h - 1])
            add([[X0[0], 60, str(year)]] + ([[X0[1], 80, "Balance"], [X0[4], 90, "1,000.00"]] if r.random() < .5 else []))
            first = True
            for _ in range(many or r.choice([1, 2, 3, 5, 8])):
                w = []
                if first or r.random() < (.02 if many else .45):
                    day += datetime.timedelta(days=r.choice([0, 1, 1, 3]))
                    if day.year != year:
                        year = day.year
                        add([[X0[0], 60, str(year)]])
                    w += [[X0[0], 30, "%02d" % day.day], [X0[0] + 40, 40, MON[day.month - 1]]]
                    start = True
                else:
                    start = r.random() < .5
                    if r.random() < .05:
                        add([[X0[0], 60, str(year)]])      # the year once more: the day in force stays
                first = False
                if not start and r.random() < .25:
                    e = day + datetime.timedelta(days=r.choice([0, 1, 5]))
                    w += [[X0[1], 50, "Effective"], [X0[1] + 60, 40, "Date"], [X0[1] + 110, 20, "%02d" % e.day],
                          [X0[1] + 140, 30, MON[e.month - 1]], [X0[1] + 180, 40, str(e.year)]]
                elif r.random() < .97:
                    x = X0[1]
                    for _ in range(r.choice([1, 2, 3])):
                        w.append([x, 50, r.choice(DWORDS) if DWORDS and r.random() < .3 else r.choice(DETAIL) if r.random() < .8 else g_word(r, r.choice([1, 2, 4, 9]))])
                        x += 60
                if start:
                    a = pdf_num(r)
                    k = r.choice([2, 3])
                    # a word may lean over the left edge of its column or touch its neighbour exactly
                    w.append([X0[k] + r.choice([0, 10, 100, 299]), r.choice([1, 50, 90]) if k == 3 else r.choice([1, 20, 100]), a])
                    if w[-1][0] + w[-1][1] > X0[k + 1]:
                        w[-1][1] = X0[k + 1] - w[-1][0]
                if r.random() < .35:
                    w.append([X0[4] + r.choice([0, 10, 119]), r.choice([1, 90]), r.choice(["", "", "", "-"]) + pdf_num(r)])
                add(w)
            if r.random() < .2 and len(lines) > 2:
                # a vertical gap: the rest of the paragraph is not part of the table
                k = r.randrange(1, len(lines) - 1)
                extra = 2 * lines[k]["height"] + r.choice([0, 1, 40]) - (lines[k + 1]["top"] - lines[k]["top"])
                for l in lines[k + 1:]:
                    l["top"] += extra
            tables.append({"pre": r.choice([0, 0, 1, 3]), "lines": lines, "blk": r.random() < .5})
        case["pages"].append(tables)
    if not any(case["pages"]):
        return g_pdf(r, bad)
    if r.random() < bad:
        x = r.random()
        if x < .55:
            case["rec"] = [r.choice(["drop", "renum", "level", "zero", "swap"]), r.randrange(10 ** 6)]
        else:
            t = r.choice([t for p in case["pages"] for t in p])
            ls = [l for l in t["lines"] if any(w[0] >= X0[2] and w[0] < X0[4] for w in l["words"])]
            if ls:
                l = r.choice(ls)
                y = r.random()
                if y < .3:
                    l["words"] += [[X0[2] + 5, 20, "1.00"], [X0[3] + 5, 20, "2.00"]]
                elif y < .6:
                    for w in l["words"]:
                        if X0[2] <= w[0] < X0[4]:
                            w[2] = r.choice(["-5.00", "abc", "£5.00"])
                elif y < .8:
                    l["words"].append([X0[0] + 5, 5, "03"])
                else:
                    t["lines"] = t["lines"][1:]
    return case


def pdf_records(case):
    """[level, page, block, par, line, word, left, top, width, height, conf, text]"""
    out = []

    def rec(level, nums, box=(0, 0, 0, 0), text="", conf=-1):
        nums = list(nums) + [0] * (5 - len(nums))
        out.append([level] + nums + list(box) + [conf, text])
    for pi, tables in enumerate(case["pages"], 1):
        rec(1, [pi])
        blk = par = 0
        paras = []
        if pi == 1:
            paras.append((True, [{"top": 10, "height": 20, "words": [[10, 60, "Account"], [80, 60, "Number"], [150, 60, case["acct"].split(" ")[0]],
                                                                    [220, 60, case["acct"].split(" ")[1]]] +
                            [[290 + 70 * k, 60, w] for k, w in enumerate(case.get("tail", []))]}]))
        for t in tables:
            ls = [{"top": 30 + 20 * k, "height": 20, "words": [[10, 60, "Statement"], [80, 60, "Date"]]} for k in range(t["pre"])]
            ls.append({"top": 95, "height": 20, "words": [[X0[0], 80, "Date"], [X0[1], 100, "Details"], [X0[2], 100, "Payments"],
                                                         [X0[3], 100, "Receipts"], [X0[4], 120, "Balance"]]})
            paras.append((t["blk"], ls + t["lines"]))
        for newblk, ls in paras:
            if newblk or blk == 0:
                blk += 1
                par = 0
                rec(2, [pi, blk])
            par += 1
            rec(3, [pi, blk, par])
            for li, l in enumerate(ls, 1):
                rec(4, [pi, blk, par, li], (0, l["top"], 2000, l["height"]))
                for wi, w in enumerate(l["words"], 1):
                    rec(5, [pi, blk, par, li, wi], (w[0], l["top"], w[1], l["height"]), w[2], 96)
    if case.get("geo"):
        dx, dy, k = case["geo"]
        if dx > 2 ** 31 - 4000 or dy > 2 ** 31 - 40000:
            k = 1
        for l in out:
            if l[0] >= 4:
                l[6], l[7], l[8], l[9] = dx + l[6] * k, dy + l[7] * k, l[8] * k, l[9] * k
    if case.get("rec"):
        kind, n = case["rec"]
        i = n % len(out)
        if kind == "drop":
            del out[i]
        elif kind == "renum":
            out[i][out[i][0]] += 1 + n % 3
        elif kind == "level":
            out[i][0] = [0, 6, -1, 7][n % 4]
        elif kind == "zero":
            k = 1 + n % out[i][0]
            out[i][k] = [0, -1][n % 2]
        elif kind == "swap" and i + 1 < len(out):
            out[i], out[i + 1] = out[i + 1], out[i]
    return out


class Bad(Exception):
    pass


def pdf_doc(recs):
    pages = []
    for r in recs:
        lev = r[0]
        if lev not in (1, 2, 3, 4, 5):
            raise Bad("level %d" % lev)
        cur = pages
        for l in range(1, lev):
            if not 1 <= r[l] <= len(cur):
                raise Bad("level %d record outside its parent" % lev)
            cur = cur[r[l] - 1]["kids"]
        if r[lev] != len(cur) + 1:
            raise Bad("level %d record not numbered in order" % lev)
        cur.append({"kids": [], "left": r[6], "top": r[7], "width": r[8], "height": r[9], "text": r[11]})
    return pages


def pdf_amount(s):
    t = s.replace(",", "")
    if not re.match(r"\A-?\d+(\.\d+)?\Z", t):
        raise Bad("amount %r" % s)
    return Decimal(t)


def model_pdf(case):
    try:
        return _model_pdf(case)
    except Bad as e:
        return str(e)


def _model_pdf(case):
    doc = pdf_doc(pdf_records(case))
    acct = None
    for p in doc:
        for b in p["kids"]:
            for a in b["kids"]:
                for l in a["kids"]:
                    w = [x["text"] for x in l["kids"]]
                    if (acct is None and w[:2] == ["Account", "Number"] and len(w) > 3 and
                            re.match(r"\A\d\d-\d\d-\d\d\Z", w[2]) and re.match(r"\A\d{8}\Z", w[3])):
                        acct = w[2] + " " + w[3]
    if acct is None:
        raise Bad("no account name")
    ns = namespace(case, acct)
    if ns is None:
        raise Bad("no namespace")
    out, cur, cnt, prev = [], None, 0, None
    for p in doc:
        for b in p["kids"]:
            for a in b["kids"]:
                hi = next((i for i, l in enumerate(a["kids"]) if [w["text"] for w in l["kids"]][:5] ==
                           ["Date", "Details", "Payments", "Receipts", "Balance"]), None)
                if hi is None:
                    continue
                h = a["kids"][hi]["kids"]
                cols = [(h[0]["left"], h[0]["left"] + h[0]["width"]), (h[1]["left"], h[2]["left"]), (h[2]["left"], h[3]["left"]),
                        (h[3]["left"], h[4]["left"]), (h[4]["left"], h[4]["left"] + h[4]["width"])]

                def words(l, k):
                    lo, hi = cols[k]
                    return [w["text"] for w in l["kids"] if w["left"] < hi and w["left"] + w["width"] > lo]
                year, date, tl = None, None, []
                for l in a["kids"][hi + 1:]:
                    dw = words(l, 0)
                    if len(dw) == 1:
                        if not re.match(r"\A[0-9]+\Z", dw[0]):
                            raise Bad("year %r" % dw[0])
                        year = int(dw[0])
                        if not 1980 <= year <= 2100:
                            raise Bad("year %r" % dw[0])
                        continue
                    if len(dw) == 2:
                        if not re.match(r"\A[0-9]{1,2}\Z", dw[0]) or dw[1] not in MON or year is None:
                            raise Bad("date %r" % dw)
                        date = [year, MON.index(dw[1]) + 1, int(dw[0])]
                        if not valid(date):
                            raise Bad("date %r" % dw)
                    elif len(dw) > 2:
                        raise Bad("date words %r" % dw)
                    det = " ".join(words(l, 1))
                    if det:
                        tl.append((l, date, det, " ".join(words(l, 2)), " ".join(words(l, 3)), " ".join(words(l, 4))))
                pl = None
                for l, date, det, pay, rec, bal in tl:
                    if pl is not None and l["top"] - pl["top"] > 2 * pl["height"]:
                        break
                    pl = l
                    if pay and rec:
                        raise Bad("payment and receipt")
                    if pay or rec:
                        cnt = cnt + 1 if date == prev else 0
                        q = pdf_amount(pay or rec)
                        if date is None:
                            raise Bad("no date")
                        if q.is_signed():
                            raise Bad("negative amount")
                        cur = {"date": date, "edate": None, "desc": det, "q": neg(q) if pay else q, "bal": None, "cnt": cnt}
                        out.append(cur)
                    elif cur is not None:
                        if det.startswith("Effective Date "):
                            m = re.match(r"\AEffective Date (\d{1,2}) ([A-Z][a-z]{2}) (\d{4})\Z", det)
                            e = m and m.group(2) in MON and [int(m.group(3)), MON.index(m.group(2)) + 1, int(m.group(1))]
                            if not e or not valid(e):
                                raise Bad("effective date %r" % det)
                            cur["edate"] = e
                        else:
                            cur["desc"] += " " + det
                    else:
                        continue
                    prev = date
                    if bal:
                        cur["bal"] = pdf_amount(bal)
    res = []
    if out and not NSOK.match(ns):
        raise Bad("namespace %r is not acceptable" % ns)
    for t in out:
        sa, sq, pa, pq = halves(t["q"])
        data = fdate(t["date"]) + i32(t["cnt"]) + fstr(t["desc"])
        f = ["fp-%s-%s" % (ns, b64(data + fstr(x) + famt(y))) for x, y in ((sa, sq), (pa, pq))]
        res.append({"date": iso(t["date"]), "edate": t["edate"] and iso(t["edate"]), "desc": t["desc"], "posts": [
            {"account": sa, "q": sq, "c": "GBP", "bal": t["bal"], "status": None, "fps": {f[0]},
             "tags": {"unknown-account", "import-self"}, "kv": {"bank": "Nationwide", "seq": "%s-%d" % (ns, t["cnt"] + 1)}},
            {"account": pa, "q": pq, "c": "GBP", "bal": None, "status": None, "fps": {f[1]},
             "tags": {"unknown-account", "import-peer"}, "kv": {"bank": "Nationwide"}}]})
    return res


STUB_GM = """#!/bin/sh
for a in "$@"; do last="$a"; done
d=$(dirname "$last")
: > "$d/page-00.png"
"""
STUB_TESS = """#!/bin/sh
cp "$(dirname "$0")/ocr-out.tsv" "$6.tsv"
"""


def run_pdf(sb, case, name="in.pdf"):
    h = ["level", "page_num", "block_num", "par_num", "line_num", "word_num", "left", "top", "width", "height", "conf", "text"]
    sb.write("ocr-out.tsv", "\n".join("\t".join(map(str, l)) for l in [h] + pdf_records(case)) + "\n")
    g = sb.write("gm.sh", STUB_GM, 0o755)
    t = sb.write("tess.sh", STUB_TESS, 0o755)
    sb.write(name, "%PDF")
    return imp(sb, "nationwide-pdf", *ns_args(sb, case), name, g, t)


# --------------------------------------------------------------- common checks
RUN = {"csv": run_nwcsv, "pp": run_paypal, "pdf": run_pdf}
MODEL = {"csv": model_nwcsv, "pp": model_paypal, "pdf": model_pdf}


def gen(kinds, **kw):
    def g(r, i):
        k = r.choice(kinds)
        if k == "csv":
            return clean_csv(g_nwcsv(r, **kw))
        if k == "pp":
            return g_paypal(r, **kw)
        return g_pdf(r, **kw)
    return g


def outcome(sb, case, why=True):
    """Runs the import; returns (expected, actual) transactions or (reason, None) when it was refused as it must be."""
    exp = MODEL[case["f"]](case)
    r = RUN[case["f"]](sb, case)
    if isinstance(exp, str):
        if why:
            need(not r.ok, "the import has to fail (%s) but succeeded", exp)
        return exp, None
    if why:
        need(r.ok, "a proper import was refused: %s", r.err[:300])
    return exp, (rd(r.out) if r.ok else None)


def split(p):
    t = p["comment"]["tags"]
    return {x for x in t if x.startswith("fp-")}, {x for x in t if not x.startswith("fp-")}


def c10(sb, case):
    exp, got = outcome(sb, case, why=False)
    if isinstance(exp, str):
        if "namespace" in exp and "acceptable" in exp:
            need(RUN[case["f"]](sb, case).ok is False, "%s, but it was accepted", exp)
        return None
    need(got is not None, "an acceptable namespace or proper file was refused")
    need(len(got) == len(exp), "%d transactions instead of %d", len(got), len(exp))
    for e, g in zip(exp, got):
        for a, b in zip(e["posts"], g["posts"]):
            f, _ = split(b)
            need(f == a["fps"], "fingerprint of %s/%s: expected %s, got %s", e["desc"], b["account"], sorted(a["fps"]), sorted(f))
    return 1


def c11(sb, case):
    exp, got = outcome(sb, case, why=False)
    if got is None or isinstance(exp, str):
        return None
    for g in got:
        need(len(g["posts"]) % 2 == 0 and g["posts"], "%r: postings do not pair up", g["desc"])
        for a, b in zip(g["posts"][::2], g["posts"][1::2]):
            ta, tb = a["comment"]["tags"], b["comment"]["tags"]
            need("import-self" in ta and "import-peer" not in ta and "unknown-account" in ta, "%r: tags of the self posting: %s", g["desc"], sorted(ta))
            need("import-peer" in tb and "import-self" not in tb and "unknown-account" in tb, "%r: tags of the peer posting: %s", g["desc"], sorted(tb))
            need(a["account"] == "assets:unknown", "%r: self account %s", g["desc"], a["account"])
            need(a["amount"] and b["amount"], "%r: amount missing", g["desc"])
            qa, qb = Decimal(a["amount"]["q"]), Decimal(b["amount"]["q"])
            need(qa == -qb and a["amount"]["c"] == b["amount"]["c"] and a["amount"]["left"] == b["amount"]["left"],
                 "%r: %s and %s do not balance", g["desc"], a["amount"], b["amount"])
            need(not (a["amount"]["lot"] or a["amount"]["price"] or b["amount"]["lot"] or b["amount"]["price"]), "%r: a price appeared", g["desc"])
            if qa != 0:
                need(b["account"] == ("expenses:unknown" if qa < 0 else "income:unknown"), "%r: peer account %s for %s", g["desc"], b["account"], qa)
            else:
                need(b["account"] in ("expenses:unknown", "income:unknown"), "%r: peer account %s", g["desc"], b["account"])
            need(b["balance"] is None, "%r: the peer posting has a balance", g["desc"])
            need(a["status"] == b["status"], "%r: statuses differ", g["desc"])
    e2 = [p for t in exp for p in t["posts"]]
    g2 = [p for t in got for p in t["posts"]]
    if len(e2) == len(g2):
        for a, b in zip(e2, g2):
            need(Decimal(b["amount"]["q"]) == a["q"] and b["amount"]["c"] == a["c"], "amount %s%s instead of %s%s", b["amount"]["c"], b["amount"]["q"], a["c"], a["q"])
            need((b["balance"] is None) == (a["bal"] is None) and (a["bal"] is None or Decimal(b["balance"]["q"]) == a["bal"]),
                 "balance %s instead of %s", b["balance"], a["bal"])
    return 1


def same_import(case, exp, got, accounts=True):
    need([t["date"] for t in got] == [t["date"] for t in exp] and [t["desc"] for t in got] == [t["desc"] for t in exp],
         "transactions %s instead of %s", [(t["date"], t["desc"]) for t in got], [(t["date"], t["desc"]) for t in exp])
    for e, g in zip(exp, got):
        w = "%s %r" % (g["date"], g["desc"])
        need(g["edate"] == e["edate"], "%s: effective date %s instead of %s", w, g["edate"], e["edate"])
        need(g["status"] is None and g["code"] is None, "%s: status or code appeared", w)
        need(len(g["posts"]) == len(e["posts"]), "%s: %d postings instead of %d", w, len(g["posts"]), len(e["posts"]))
        for a, b in zip(e["posts"], g["posts"]):
            need(Decimal(b["amount"]["q"]) == a["q"] and b["amount"]["c"] == a["c"] and b["amount"]["left"], "%s: amount %s instead of %s", w, b["amount"], a["q"])
            need((b["balance"] is None) == (a["bal"] is None) and (a["bal"] is None or (b["balance"] != "0" and Decimal(b["balance"]["q"]) == a["bal"] and b["balance"]["c"] == a["c"])),
                 "%s: balance %s instead of %s", w, b["balance"], a["bal"])
            need(b["status"] == a["status"], "%s: posting status %s instead of %s", w, b["status"], a["status"])
            f, t = split(b)
            need(t == a["tags"], "%s: tags %s instead of %s", w, sorted(t), sorted(a["tags"]))
            need(b["comment"]["kv"] == a["kv"], "%s: value tags %s instead of %s", w, b["comment"]["kv"], a["kv"])
            need(b["comment"]["lines"] == [], "%s: comment text %s appeared", w, b["comment"]["lines"])


def c_full(sb, case):
    exp, got = outcome(sb, case)
    if isinstance(exp, str):
        return None
    same_import(case, exp, got)
    return 1 if len(exp) > 1 else None


# ----------------------------------------------------------------------- C19
BADOFF = ["UTC", "UTC+1", "UTC+001", "UTC+24", "UTC-24", "UTC+25:00", "UTC+12:60", "UTC+12:99", "UTC+23:60", "UTC01", "+01", "GMT+01", "UTC+01:0", "UTC+01:000",
          "UTC+01:00:00", "utc+01", " UTC+01x", "UTC 01", "UTC+1:30", "UTC-99", "UTC+-1", "UTC--1", "xUTC+01"]


def g_c19(r, i):
    names = r.sample(["AAA", "BBB", "CCC", "D", "aaa", "GMT", "B T"], r.choice([1, 2, 3, 4]))
    tz = [[n, ("UTC%s%02d:%02d" % (r.choice("+-"), r.choice([0, 0, 1, 12, 23]), r.choice([0, 1, 15, 30, 45, 59]))) if r.random() < .6 else g_off(r)] for n in names]
    x = r.random()
    if x < .2:
        r.choice(tz)[1] = r.choice(BADOFF)
    elif x < .35:
        tz.append([r.choice(names), r.choice([tz[0][1], g_off(r)])])
    probes = []
    for _ in range(r.choice([1, 2, 3])):
        probes.append([r.choice(names), r.choice([0, 0, -1, 1, 600])])
    if r.random() < .2:
        probes.append([r.choice(["ZZZ", "aa", "", "UTC", "bbb"]), 0])
    return {"f": "pp", "tz": tz, "probes": probes, "ns": "x", "legacy": False, "out": "UTC", "rows": []}


def c19(sb, case):
    case = copy.deepcopy(case)
    m = model_tz(case)
    for k, (z, delta) in enumerate(case["probes"]):
        o = m.get(z, 0) if isinstance(m, dict) else 0
        # local time whose UTC instant is `delta` minutes from midnight, a day of its own for each probe
        loc = datetime.datetime(2020, 1, 5 + 3 * k) + datetime.timedelta(minutes=o + delta)
        case["rows"].append({"dt": [loc.year, loc.month, loc.day, loc.hour, loc.minute, loc.second], "z": z, "name": "n%d" % k, "type": "t",
                             "status": "Completed", "cur": "GBP", "amt": "1", "rid": "", "bal": "1"})
    exp, got = outcome(sb, case)
    if isinstance(exp, str):
        return None
    need([(t["date"], t["desc"]) for t in got] == [(t["date"], t["desc"]) for t in exp],
         "dates %s instead of %s", [(t["date"], t["desc"]) for t in got], [(t["date"], t["desc"]) for t in exp])
    return 1


def s_c19(case):
    for k in ("tz", "probes"):
        for i in range(len(case[k])):
            c = copy.deepcopy(case)
            del c[k][i]
            yield c


# ----------------------------------------------------------------------- C20
def g_c20(r, i):
    k = r.choice(["csv5", "csv6", "pp", "pdf"])
    if k == "pdf":
        c = g_pdf(r, bad=0, npages=1)
    elif k == "pp":
        c = g_paypal(r, bad=0, n=r.choice([2, 4, 7]) if r.random() < .93 else g_many(r))
        tz = dict(c["tz"])
        for x in c["rows"]:
            x["name"] = x["name"] or "n"
        c["rows"].sort(key=lambda x: datetime.datetime(*x["dt"]) - datetime.timedelta(minutes=off(tz[x["z"]])))
    else:
        c = clean_csv(g_nwcsv(r, kind=int(k[3]), bad=0, n=r.choice([2, 4, 7]) if r.random() < .93 else g_many(r)))
        c["rows"].sort(key=lambda x: x["date"])
        for x in c["rows"]:
            x["datetext"] = None
    if c["ns"] and c["ns"][0] in ("account-name", "fixed", "lookup"):
        c["ns"] = ["generated", ""]
    if k == "pp":
        c["ns"] = "pp"
    c["cut"] = [r.randrange(0, 4), r.randrange(0, 4)]
    return c


def sub_case(case):
    """A statement holding only some dates of the history (cut at date boundaries)."""
    c = copy.deepcopy(case)
    if case["f"] == "pdf":
        return None
    key = (lambda x: tuple(x["date"])) if case["f"] == "csv" else None
    if key is None:
        tz = dict(case["tz"])

        def key(x):
            return (datetime.datetime(*x["dt"]) - datetime.timedelta(minutes=off(tz[x["z"]]))).isoformat()
    ks = sorted(set(key(x) for x in case["rows"]))
    lo = case["cut"][0] % len(ks)
    hi = lo + 1 + case["cut"][1] % (len(ks) - lo)
    keep = set(ks[lo:hi])
    c["rows"] = [x for x in case["rows"] if key(x) in keep]
    return c


def fp_list(got):
    return [(t["date"], t["desc"], p["account"], p["amount"]["q"], sorted(split(p)[0])) for t in got for p in t["posts"]]


def c20(sb, case):
    if isinstance(MODEL[case["f"]](case), str):
        return None
    r = RUN[case["f"]](sb, case)
    need(r.ok, "a proper import was refused: %s", r.err[:300])
    full = rd(r.out)
    seen = {}
    for t in full:
        for k, p in enumerate(t["posts"]):
            f = split(p)[0]
            if not (case["f"] == "pp" and k % 2 == 1 and not case["legacy"]):      # known finding, reported apart
                need(f, "%s %r: a posting without fingerprint", t["date"], t["desc"])
            for x in f:
                need(x not in seen, "two postings have the fingerprint %s", x)
                seen[x] = 1
    sub = sub_case(case)
    if sub is None:
        r2 = RUN[case["f"]](sb, case)
        need(r2.out == r.out, "importing again gives other fingerprints")
        return 1
    r2 = RUN[case["f"]](sb, sub, "part.csv")
    need(r2.ok, "a proper import was refused: %s", r2.err[:300])
    a, b = fp_list(full), fp_list(rd(r2.out))
    need(any(a[i:i + len(b)] == b for i in range(len(a) - len(b) + 1)), "the fingerprints of a part of the history differ: %s is no part of %s", b[:6], a[:12])
    return 1 if len(b) < len(a) else None


def shrink(case):
    for k in ("rows", "pages"):
        for i in range(len(case.get(k, []))):
            if len(case[k]) > 1:
                c = copy.deepcopy(case)
                del c[k][i]
                yield c
    for pi, p in enumerate(case.get("pages", [])):
        for ti, t in enumerate(p):
            for li in range(len(t["lines"])):
                c = copy.deepcopy(case)
                del c["pages"][pi][ti]["lines"][li]
                yield c


CHECKS = {"C10": (gen(["csv", "pp", "pdf"], bad=.1), c10), "C11": (gen(["csv", "csv", "pp", "pdf"], bad=0), c11),
          "C12": (gen(["csv"]), c_full), "C13": (gen(["pp"]), c_full), "C14": (gen(["pdf"]), c_full),
          "C19": (g_c19, c19), "C20": (g_c20, c20)}
SHRINK = {k: shrink for k in CHECKS}
SHRINK["C19"] = s_c19


# ------------------------------------------------------------- known findings
def _pp1(amt, legacy):
    return {"f": "pp", "tz": [["GMT", "UTC+00"]], "out": "UTC", "ns": "n", "legacy": legacy, "rows": [
        {"dt": [2020, 1, 1, 0, 0, 0], "z": "GMT", "name": "x", "type": "t", "status": "Completed", "cur": "GBP", "amt": amt, "rid": "",
         "bal": "1"}]}


def probe_c20(sb):
    r = run_paypal(sb, _pp1("1", False))
    return r.ok and not split(rd(r.out)[0]["posts"][1])[0]


def probe_c11(sb):
    r = run_paypal(sb, _pp1("12345678901234567.89", False))
    return r.ok and "12345678901234567.89" not in r.out


PROBES = {"paypal-peer-no-fingerprint": probe_c20, "paypal-amount-rounded": probe_c11}
_R = "; non-trivial when the importer accepted the statement and every expected transaction was compared"
RULES = {"C10": "random Nationwide CSV, PayPal CSV and OCR'd PDF statements; every fingerprint recomputed independently" + _R,
         "C11": "random statements of the three kinds; signs, accounts and sums of each transaction" + _R,
         "C12": "random Nationwide CSV statements (both layouts, malformed ones included) against a model of the importer",
         "C13": "random PayPal CSVs (time zones, name-less rows, malformed ones included) against a model of the importer",
         "C14": "random OCR tables (stub pdftoppm and tesseract) against a model of the table reader",
         "C19": "random time zone tables (malformed, repeated and boundary offsets) probed around midnight",
         "C20": "a statement and a part of it, imported apart: fingerprints compared; non-trivial when the part is a proper one"}
