"""A small Rust lexer and item parser: byte-exact positions, no normalisation.

Used by weave.py to find where a contract has to be inserted in the real
source.  It never rewrites anything itself.
"""
import re

_ID = re.compile(r"(?:r#)?[A-Za-z_\u0080-\U0010ffff][A-Za-z0-9_\u0080-\U0010ffff]*")
_NUM = re.compile(r"[0-9][0-9A-Za-z_]*(?:\.[0-9][0-9A-Za-z_]*)?")
_OPS = ["<<=", ">>=", "..=", "...", "::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||",
        "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<", ">>", ".."]


class Tok:
    __slots__ = ("k", "s", "a", "b")

    def __init__(self, k, s, a, b):
        self.k, self.s, self.a, self.b = k, s, a, b

    def __repr__(self):
        return f"{self.k}:{self.s}"


class LexError(Exception):
    pass


def lex(src):
    out = []
    i, n = 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1
            continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while d and j < n:
                if src.startswith("/*", j):
                    d += 1
                    j += 2
                elif src.startswith("*/", j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            i = j
            continue
        m = re.compile(r"(?:b|c|br|cr|r)(#*)\"").match(src, i)
        if m and "r" in src[i:m.end()]:
            e = src.find('"' + m.group(1), m.end())
            if e < 0:
                raise LexError("raw string")
            e += 1 + len(m.group(1))
            out.append(Tok("str", src[i:e], i, e))
            i = e
            continue
        if c == '"' or (c in "bc" and src[i + 1:i + 2] == '"'):
            j = i + (1 if c == '"' else 2)
            while src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            j += 1
            out.append(Tok("str", src[i:j], i, j))
            i = j
            continue
        if c == "'" or (c == "b" and src[i + 1:i + 2] == "'"):
            p = i + (1 if c == "b" else 0)
            m = re.compile(r"'(?:\\(?:x[0-9A-Fa-f]{2}|u\{[0-9A-Fa-f_]+\}|.)|[^\\'])'").match(src, p)
            if m:
                out.append(Tok("char", src[i:m.end()], i, m.end()))
                i = m.end()
                continue
            m = re.compile(r"'[A-Za-z_][A-Za-z0-9_]*").match(src, p)
            if m:
                out.append(Tok("life", m.group(0), i, m.end()))
                i = m.end()
                continue
            raise LexError("quote at %d" % i)
        m = _ID.match(src, i)
        if m:
            out.append(Tok("id", m.group(0), i, m.end()))
            i = m.end()
            continue
        m = _NUM.match(src, i)
        if m:
            out.append(Tok("num", m.group(0), i, m.end()))
            i = m.end()
            continue
        for o in _OPS:
            if src.startswith(o, i):
                out.append(Tok("op", o, i, i + len(o)))
                i += len(o)
                break
        else:
            out.append(Tok("op", c, i, i + 1))
            i += 1
    return out


OPEN = {"(": ")", "[": "]", "{": "}"}


def match_table(toks):
    st, m = [], {}
    for i, t in enumerate(toks):
        if t.k == "op":
            if t.s in OPEN:
                st.append(i)
            elif t.s in (")", "]", "}"):
                if not st:
                    raise LexError("unbalanced")
                j = st.pop()
                m[j] = i
                m[i] = j
    if st:
        raise LexError("unbalanced")
    return m


class Item:
    """kind, name, path (list), a/b = source range incl. attributes; for fns:
    sig_a (start of `fn` header incl. visibility), body (open,close token idx),
    params (open, close), ret (token idx range or None), where (tok idx|None)."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


def parse_items(toks, mt, lo, hi, path=()):
    items = []
    i = lo
    while i < hi:
        start = i
        cfg_test = False
        attrs = []
        while i < hi and toks[i].s == "#":
            j = i + 1
            inner = False
            if toks[j].s == "!":
                inner = True
                j += 1
            txt = "".join(t.s for t in toks[j:mt[j] + 1])
            if inner:
                i = mt[j] + 1
                start = i
                continue
            attrs.append(txt)
            if txt == "[cfg(test)]":
                cfg_test = True
            i = mt[j] + 1
        if i >= hi:
            break
        head = i
        if toks[i].s == ";":
            i += 1
            continue
        # visibility
        if toks[i].s == "pub":
            i += 1
            if toks[i].s == "(":
                i = mt[i] + 1
        # qualifiers
        k = i
        while toks[k].s in ("const", "async", "unsafe", "extern", "default") and not (
                toks[k].s == "const" and toks[k + 1].s not in ("fn", "unsafe", "async", "extern")):
            k += 1
            if toks[k].k == "str":
                k += 1
        kw = toks[k].s
        if kw == "fn":
            name = toks[k + 1].s
            p = k + 2
            generics = None
            if toks[p].s == "<":
                d = 0
                g0 = p
                while True:
                    s = toks[p].s
                    if s == "<":
                        d += 1
                    elif s == "<<":
                        d += 2
                    elif s == ">":
                        d -= 1
                    elif s == ">>":
                        d -= 2
                    p += 1
                    if d == 0:
                        break
                generics = (g0, p)
            assert toks[p].s == "(", (name, toks[p].s)
            po, pc = p, mt[p]
            p = pc + 1
            ret = None
            if toks[p].s == "->":
                r0 = p + 1
                p = r0
                while toks[p].s not in ("{", ";", "where"):
                    p = mt[p] + 1 if toks[p].s in ("(", "[") else p + 1
                ret = (r0, p)
            where = None
            if toks[p].s == "where":
                where = p
                while toks[p].s not in ("{", ";"):
                    p = mt[p] + 1 if toks[p].s in ("(", "[") else p + 1
            if toks[p].s == "{":
                body = (p, mt[p])
                end = mt[p]
            else:
                body = None
                end = p
            items.append(Item(kind="fn", name=name, path=path + (name,), t0=start, head=head, fn=k,
                              generics=generics, params=(po, pc), ret=ret, where=where, body=body,
                              t1=end, test=cfg_test, attrs=attrs))
            i = end + 1
            continue
        if kw in ("impl", "unsafe") or (kw == "trait"):
            p = k
            while toks[p].s != "{":
                p = mt[p] + 1 if toks[p].s in ("(", "[") else p + 1
            hdr = toks[k:p]
            name = impl_name(hdr) if kw != "trait" else toks[k + 1].s
            sub = parse_items(toks, mt, p + 1, mt[p], path + (name,))
            items.append(Item(kind=kw if kw == "trait" else "impl", name=name, path=path + (name,),
                              t0=start, head=head, open=p, t1=mt[p], items=sub, test=cfg_test, attrs=attrs))
            i = mt[p] + 1
            continue
        if kw == "mod":
            name = toks[k + 1].s
            if toks[k + 2].s == ";":
                items.append(Item(kind="moddecl", name=name, path=path + (name,), t0=start, head=head,
                                  t1=k + 2, test=cfg_test, attrs=attrs))
                i = k + 3
            else:
                p = k + 2
                sub = parse_items(toks, mt, p + 1, mt[p], path + (name,)) if not cfg_test else []
                items.append(Item(kind="mod", name=name, path=path + (name,), t0=start, head=head, open=p,
                                  t1=mt[p], items=sub, test=cfg_test, attrs=attrs))
                i = mt[p] + 1
            continue
        # everything else: to `;` or a closing brace
        name = toks[k + 1].s if k + 1 < hi else ""
        p = k
        while True:
            s = toks[p].s
            if s == ";":
                end = p
                break
            if s in OPEN:
                q = mt[p]
                if s == "{" and kw in ("struct", "enum", "union", "macro_rules", "extern"):
                    end = q
                    break
                if s == "{" and kw not in ("use", "const", "static", "type"):
                    end = q
                    break
                p = q + 1
                continue
            p += 1
        items.append(Item(kind=kw, name=name, path=path + (name,), t0=start, head=head, t1=end,
                          test=cfg_test, attrs=attrs))
        i = end + 1
    return items


def impl_name(hdr):
    """`impl<T> Trait for Type<..>` -> 'Trait for Type'; tokens of hdr start at `impl`."""
    p = 0
    while hdr[p].s != "impl":
        p += 1
    p += 1
    if p < len(hdr) and hdr[p].s == "<":
        d = 0
        while True:
            s = hdr[p].s
            d += {"<": 1, "<<": 2, ">": -1, ">>": -2}.get(s, 0)
            p += 1
            if d == 0:
                break
    rest = hdr[p:]
    # cut the where clause
    for q, t in enumerate(rest):
        if t.s == "where":
            rest = rest[:q]
            break
    out = []
    for t in rest:
        if t.s == "for" and out:
            out.append(" for ")
        else:
            out.append(t.s + (" " if t.s in ("mut", "dyn") or t.k == "life" else ""))
    return "".join(out)


def walk(items):
    for it in items:
        yield it
        if getattr(it, "items", None):
            yield from walk(it.items)
