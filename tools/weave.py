"""Weaves contracts into the real source.

Every run copies /repo/src and inserts, at the places the contract files name,
preconditions, postconditions, loop invariants, ghost code and lemmas; the
executable text is taken from /repo as it is, except for the lowering rules
below, which rewrite constructs the verifier has no support for:

  L1  bail!(..) / anyhow!(..) / format_err!(..)  ->  an opaque error value (the message is dropped)
  L2  .context(..) / .with_context(..)           ->  dropped (only the error message changes)
  L3  format!("..{}..", a, b)                    ->  the literal pieces and the arguments appended in order
  L4  SRC.map(f).filter(p)....collect() and the like -> a loop over SRC that runs the closures in order
  L5  .or_default()                              ->  .or_insert(Default::default())
      .or_insert_with(|| e), (T::new)            ->  .or_insert(e), .or_insert(T::new())
  L6  -> impl Iterator<Item = T>                 ->  -> Vec<T>, the iterator collected (@eager)
      f: impl Iterator<Item = T>                 ->  f: Vec<T>, callers collecting the argument (@eagerparam)
  L7  `&'static str` written out for the type of a string constant
  L8  for x in &mut v / v, v: &mut Vec / v.iter_mut()
                                                 ->  for x in vx::iter_mut(&mut v), which is v.iter_mut()
  L10 for p in SRC.map(f) {                      ->  for h in SRC { let p = f(h);
  L11 itertools::join(ITER, sep)                 ->  join of the collected texts; intersperse(ITER, x).collect() likewise
  L12 for (i, p) in E.enumerate() {              ->  a counter next to the loop (iterations do not overflow usize)
  L13 v.sort(); / v.join(s)                      ->  vx::vec_sort(&mut v); / vx::vec_join(&v, s)
  L14 fn f(mut self)                             ->  fn f(self) { let mut vx_self = self; ..
  L15 f(v: &mut [T])                             ->  f(v: &mut Vec<T>) (@vecparam; every caller passes a vector)
  L16 |_| e                                      ->  |_vx| e
  L17 BigEndian::write_T(b, v)                   ->  vx::be_write_T(b, v), which is just that (LittleEndian likewise)
  L18 lazy_static!{static ref X: Regex = Regex::new("..").unwrap();} .. X
                                                 ->  vx::rx(".."), which makes just that
  L19 r.and_then(|p| e) on a Result (@lower)     ->  match r { Ok(p) => e, Err(x) => Err(x) }
  L20 o.map(Path::Ctor)                          ->  o.map(|c| Path::Ctor(c))
  L21 vec![a, b] (@lower)                        ->  { let mut v = Vec::new(); v.push(a); v.push(b); v }
  L22 `if c { s continue; } rest` and `let p = e else { s continue; }; rest` in a for loop's body
                                                 ->  if c { s } else { rest }; if let p = e { rest } else { s }
  L23 match e { ["a", "b"] => x, .., _ => y }    ->  { let m = e; if m.len() == 2 && m[0] == "a" && m[1] == "b" { x } else .. { y } }
  L24 o.map_or(d, |p| e), map_or_else, is_some_and, is_none_or, or_else(|| e), map(|p| e).unwrap_or(d) and the like on an Option
                                                 ->  match o { Some(p) => e, None => d } (on a Result this does not type: unproved);
      b.then(|| e), b.then_some(e)               ->  if b { Some(e) } else { None };
      o.as_deref() on an Option<String>          ->  vx::opt_str(&o), which is just that
  L25 T::with_capacity(n)                        ->  T::new(): how much room is reserved is not looked at
  L9  a `drop(x);` statement of a plain value    ->  kept as a move: let _vx = x;
A construct outside these and outside the verifier's reach leaves its function
UNPROVED; it is never guessed at.
"""
import copy, os, re, shutil, json
from rustlex import lex, match_table, parse_items, walk, LexError


class Lost(Exception):
    """A contract cannot be attached: its function is reported as unproved."""


# ---------------------------------------------------------------- contract files
class Fn:
    def __init__(self, path, ext):
        self.path, self.ext = path, ext
        self.ret = None
        self.spec = ""
        self.begin = ""
        self.end = ""
        self.tail = ""             # ghost code after the value of the body (`vx_t`) is computed
        self.loops = {}
        self.chains = {}
        self.lbegin, self.lend, self.lafter = {}, {}, {}
        self.marks = []            # (where, pattern, text, occurrence)
        self.results = set()
        self.closures = []         # (method, occurrence, [parameter types], contract)
        self.attrs = []
        self.eager = None
        self.vparam = None         # number of a `&mut [T]` parameter taken as `&mut Vec<T>`
        self.eparam = None         # (parameter number, element type): an iterator parameter taken collected
        self.nloops = None
        self.keep = set()          # names of lowerings switched off
        self.sub = []              # documented textual rules (pattern, replacement)
        self.props = set()
        self.where = ""
        self.vname = None          # name in the verifier's report, where it is not derivable
        self.selfty = None
        self.copy_sig = None       # the body is verified as a free function with this signature
        self.muts = set()          # parameters of type &mut Vec<..> / &mut [..]
        self.noquery = False       # a contract that yields no obligation (a declaration)


class FileC:
    def __init__(self, path):
        self.path = path
        self.wrap = []
        self.attr = {}
        self.pubf = set()
        self.copies = []
        self.add = {}
        self.uses = {}
        self.fns = {}
        self.subst = []


def parse_vc(path):
    """Returns a list of FileC."""
    out, cur, fn, sink = [], None, None, None
    buf = []

    def flush():
        nonlocal sink, buf
        if sink is not None:
            sink("\n".join(buf).strip("\n"))
        sink, buf = None, []
    for ln, line in enumerate(open(path), 1):
        line = line.rstrip("\n")
        if not line.startswith("@"):
            if line.startswith("//#"):
                continue
            if sink is not None:
                buf.append(line)
            elif line.strip():
                raise SystemExit("%s:%d: text outside a section" % (path, ln))
            continue
        flush()
        d, _, arg = line.partition(" ")
        arg = arg.strip()
        if d == "@file":
            cur = FileC(arg)
            out.append(cur)
            fn = None
        elif d == "@wrap":
            cur.wrap += arg.split()
        elif d == "@wrapimpl":
            cur.wrap.append("impl " + arg)
        elif d == "@pubfields":
            cur.pubf |= set(arg.split())
        elif d == "@attr":
            name, _, txt = arg.partition(" ")
            cur.attr.setdefault(name, []).append(txt)
        elif d == "@add":
            m = arg

            def s(t, m=m, cur=cur):
                cur.add[m] = cur.add.get(m, "") + "\n" + t
            sink = s
        elif d in ("@fn", "@fn!"):
            fn = Fn(arg, d == "@fn!")
            if arg in cur.fns:
                raise SystemExit("%s:%d: %s twice" % (path, ln, arg))
            cur.fns[arg] = fn
        elif d == "@copyfn":
            fn = Fn(arg, False)
            fn.copy_sig = None
            cur.fns[arg] = fn
        elif d == "@selfty":
            fn.selfty = arg
        elif d == "@sig":
            fn.copy_sig = arg
        elif d == "@ret":
            fn.ret = arg
        elif d == "@fattr":
            fn.attrs.append(arg)
        elif d == "@eager":
            fn.eager = arg
        elif d == "@eagerparam":
            k, t = arg.split(None, 1)
            fn.eparam = (int(k), t)
        elif d == "@vecparam":
            fn.vparam = int(arg)
        elif d == "@loops":
            fn.nloops = int(arg)
        elif d == "@keep":
            fn.keep.add(arg)
        elif d == "@lower":
            fn.results |= set(arg.split())
        elif d == "@vname":
            fn.vname = arg
        elif d == "@noquery":
            fn.noquery = True
        elif d == "@props":
            fn.props |= set(arg.split())
        elif d == "@spec":
            def s(t, fn=fn):
                fn.spec += t + "\n"
            sink = s
        elif d == "@begin":
            def s(t, fn=fn):
                fn.begin += t + "\n"
            sink = s
        elif d == "@loop":
            def s(t, fn=fn, k=int(arg)):
                fn.loops[k] = t
            sink = s
        elif d == "@end":
            def s(t, fn=fn):
                fn.end += t + "\n"
            sink = s
        elif d == "@tail":
            def s(t, fn=fn):
                fn.tail += t + "\n"
            sink = s
        elif d == "@loopafter":
            def s(t, fn=fn, k=int(arg)):
                fn.lafter[k] = t
            sink = s
        elif d in ("@loopbegin", "@loopend"):
            def s(t, fn=fn, d=d, k=int(arg)):
                (fn.lbegin if d == "@loopbegin" else fn.lend)[k] = t
            sink = s
        elif d == "@chain":
            k, kind = arg.split(None, 1)

            def s(t, fn=fn, k=int(k), kind=kind):
                fn.chains[k] = (kind, t)
            sink = s
        elif d == "@closure":
            m, k = (arg.split() + ["0"])[:2]

            def s(t, fn=fn, m=m, k=int(k)):
                tys, _, c = t.partition("\n")
                fn.closures.append((m, k, [x.strip() for x in tys.split(";")], c))
            sink = s
        elif d in ("@before", "@sbefore", "@safter", "@after", "@replace"):
            def s(t, fn=fn, d=d, arg=arg):
                fn.marks.append((d[1:], arg.strip("`"), t))
            sink = s
        else:
            raise SystemExit("%s:%d: unknown directive %s" % (path, ln, d))
    flush()
    return out


# ---------------------------------------------------------------- token helpers
def toks_of(s):
    t = lex(s)
    return t, match_table(t)


def find_seq(toks, pat, lo=0):
    ps = [t.s for t in lex(pat)]
    hits = []
    for i in range(lo, len(toks) - len(ps) + 1):
        if all(ps[k] == "$_" or toks[i + k].s == ps[k] for k in range(len(ps))):
            hits.append((i, i + len(ps)))
    return hits


def split_args(toks, mt, o, ty=False):
    """Token ranges of the comma separated arguments between toks[o] and its match."""
    out, i, st, ang = [], o + 1, o + 1, 0
    end = mt[o]
    inbar = False
    while i < end:
        s = toks[i].s
        if s in ("(", "[", "{"):
            i = mt[i] + 1
            continue
        if s == "|":
            inbar = not inbar
        if ty:
            ang += {"<": 1, "<<": 2, ">": -1, ">>": -2}.get(s, 0)
        if s == "," and not inbar and not ang:
            out.append((st, i))
            st = i + 1
        i += 1
    if st < end:
        out.append((st, end))
    return out


def text(src, toks, a, b):
    return src[toks[a].a:toks[b - 1].b] if a < b else ""


# ---------------------------------------------------------------- lowering rules
def fmt_pieces(lit):
    """Splits a format string literal into (kind, value) pieces; None if it uses more than {} and {name}."""
    if not lit.startswith('"'):
        return None
    body = lit[1:-1]
    out, cur, i = [], "", 0
    while i < len(body):
        c = body[i]
        if body.startswith("{{", i) or body.startswith("}}", i):
            cur += c
            i += 2
            continue
        if c == "{":
            j = body.index("}", i)
            spec = body[i + 1:j]
            if ":" in spec:
                return None
            if cur:
                out.append(("lit", cur))
                cur = ""
            out.append(("arg", spec))
            i = j + 1
            continue
        if c == "\\":
            cur += body[i:i + 2]
            i += 2
            continue
        cur += c
        i += 1
    if cur:
        out.append(("lit", cur))
    return out


def lower_macros(s, keep):
    while True:
        toks, mt = toks_of(s)
        for i in range(len(toks) - 2):
            if toks[i].k == "id" and toks[i + 1].s == "!" and toks[i + 2].s in ("(", "[", "{"):
                n = toks[i].s
                e = mt[i + 2]
                if n == "bail" and n not in keep:
                    semi = e + 1 < len(toks) and toks[e + 1].s == ";"
                    end = toks[e + 1].b if semi else toks[e].b
                    s = s[:toks[i].a] + ("return Err(crate::vx::verr());" if semi else "return Err(crate::vx::verr())") + s[end:]
                    break
                if n in ("anyhow", "format_err") and n not in keep:
                    s = s[:toks[i].a] + "crate::vx::verr()" + s[toks[e].b:]
                    break
                if n == "format" and n not in keep:
                    args = split_args(toks, mt, i + 2)
                    ps = fmt_pieces(text(s, toks, *args[0])) if args else None
                    if ps is None:
                        raise Lost("format string")
                    vals = [text(s, toks, *a) for a in args[1:]]
                    out, k = "{ let mut vx_s = String::new(); ", 0
                    for kind, v in ps:
                        if kind == "lit":
                            out += 'crate::vx::push_lit(&mut vx_s, "%s"); ' % v
                        else:
                            if v and v.isdigit():
                                a = vals[int(v)]
                            elif v:
                                a = v
                            else:
                                a = vals[k]
                                k += 1
                            out += "crate::vx::push_disp(&mut vx_s, &(%s)); " % a
                    s = s[:toks[i].a] + out + "vx_s }" + s[toks[e].b:]
                    break
        else:
            return s


def lower_context(s):
    while True:
        toks, mt = toks_of(s)
        for i in range(len(toks) - 2):
            if toks[i].s == "." and toks[i + 1].s in ("context", "with_context") and toks[i + 2].s == "(":
                s = s[:toks[i].a] + s[toks[mt[i + 2]].b:]
                break
        else:
            return s


def lower_regex(s):
    while True:
        toks, mt = toks_of(s)
        for i in range(len(toks) - 2):
            if toks[i].s == "lazy_static" and toks[i + 1].s == "!" and toks[i + 2].s == "{":
                e = mt[i + 2]
                m = [t.s for t in toks[i + 3:e]]
                names, j = {}, 0
                while j < len(m):
                    if m[j:j + 2] != ["static", "ref"] or m[j + 3:j + 10] != [":", "Regex", "=", "Regex", "::", "new", "("] or m[j + 11:j + 16] != [")", ".", "unwrap", "(", ")"]:
                        raise Lost("a static that is no regex")
                    names[m[j + 2]] = m[j + 10]
                    j += 17
                rest = s[toks[e].b:]
                t2, _ = toks_of(rest)
                for t in reversed(t2):
                    if t.k == "id" and t.s in names:
                        rest = rest[:t.a] + "crate::vx::rx(%s)" % names[t.s] + rest[t.b:]
                s = s[:toks[i].a] + rest
                break
        else:
            return s


def lower_entry(s, keep):
    while True:
        toks, mt = toks_of(s)
        for i in range(len(toks) - 3):
            if toks[i].s == "." and toks[i + 1].s == "or_default" and toks[i + 2].s == "(" and "or_default" not in keep:
                s = s[:toks[i].a] + ".or_insert(Default::default())" + s[toks[i + 3].b:]
                break
            if toks[i].s == "." and toks[i + 1].s == "or_insert_with" and toks[i + 2].s == "(" and toks[i + 3].s == "||" and "or_insert_with" not in keep:
                e = mt[i + 2]
                s = s[:toks[i].a] + ".or_insert(" + s[toks[i + 4].a:toks[e].a] + ")" + s[toks[e].b:]
                break
            if (toks[i].s == "." and toks[i + 1].s == "or_insert_with" and toks[i + 2].s == "(" and toks[i + 3].k == "id"
                    and toks[mt[i + 2] - 2].s == "::" and toks[mt[i + 2] - 1].s in ("new", "default") and "or_insert_with" not in keep):
                e = mt[i + 2]
                s = s[:toks[i].a] + ".or_insert(" + s[toks[i + 3].a:toks[e - 1].b] + "())" + s[toks[e].b:]
                break
        else:
            return s


def lower_options(s, fn):
    """L24. Closures that leave the function (`?`, `return`) are not taken apart."""
    own = {c[0] for c in fn.closures}
    while True:
        toks, mt = toks_of(s)
        for i in range(len(toks) - 3, 0, -1):
            if toks[i].s != "." or toks[i + 1].k != "id" or toks[i + 2].s != "(" or toks[i + 1].s in own or toks[i + 1].s in fn.keep:
                continue
            m, e = toks[i + 1].s, mt[i + 2]
            if m == "as_deref" and e == i + 3:
                try:
                    st = postfix_start(toks, mt, i - 1)
                except Lost:
                    continue
                s = s[:toks[st].a] + "crate::vx::opt_str(&%s)" % text(s, toks, st, i) + s[toks[e].b:]
                break
            if m not in ("map_or", "map_or_else", "is_some_and", "is_none_or", "unwrap_or_else", "or_else", "then", "then_some", "and_then", "map"):
                continue
            if any(t.s in ("?", "return") for t in toks[i + 2:e]) or toks[i - 1].s == ">":
                continue
            args = [text(s, toks, *a).strip() for a in split_args(toks, mt, i + 2)]
            cl = [a for a in args if a.startswith(("|", "move"))]
            if any(c in KNOWN_CLOSURES for a in cl for c in closures_of("(" + a + ")")):
                continue
            zero = lambda a: a.startswith("||") and a[2:].strip()
            one = lambda a: closure(a) if not a.startswith("||") else None
            try:
                st = postfix_start(toks, mt, i - 1)
            except Lost:
                continue
            o = text(s, toks, st, i)
            new = None
            arms = lambda p, x, n: "(match %s { Some(%s) => %s, None => %s })" % (o, strip_ty(p)[0], x, n)
            if m == "map_or" and len(args) == 2 and one(args[1]):
                new = arms(*one(args[1]), args[0])
            elif m == "map_or_else" and len(args) == 2 and zero(args[0]) and one(args[1]):
                new = arms(*one(args[1]), zero(args[0]))
            elif m in ("is_some_and", "is_none_or") and len(args) == 1 and one(args[0]):
                new = arms(*one(args[0]), "false" if m == "is_some_and" else "true")
            elif m == "unwrap_or_else" and len(args) == 1 and zero(args[0]):
                new = arms("vx_u", "vx_u", zero(args[0]))
            elif m == "or_else" and len(args) == 1 and zero(args[0]):
                new = arms("vx_u", "Some(vx_u)", zero(args[0]))
            elif m == "then" and len(args) == 1 and zero(args[0]):
                new = "(if %s { Some(%s) } else { None })" % (o, zero(args[0]))
            elif m == "then_some" and len(args) == 1:
                new = "(if %s { Some(%s) } else { None })" % (o, args[0])
            elif m == "and_then" and m not in fn.results and len(args) == 1 and args[0].startswith("|") and one(args[0]):
                new = arms(*one(args[0]), "None")
            elif m == "map" and len(args) == 1 and e + 3 < len(toks) and toks[e + 1].s == "." and toks[e + 2].s in ("unwrap_or", "unwrap_or_default") and args[0].startswith("|") and one(args[0]):
                f = mt[e + 3]
                d = text(s, toks, e + 4, f).strip() if toks[e + 2].s == "unwrap_or" else "Default::default()"
                new, e = arms(*one(args[0]), d), f
            if new is None:
                continue
            s = s[:toks[st].a] + new + s[toks[e].b:]
            break
        else:
            return s


ENDIAN = {"BigEndian": "be", "NetworkEndian": "be", "BE": "be", "LittleEndian": "le", "LE": "le"}


def lower_misc(s, muts=()):
    while True:
        toks, mt = toks_of(s)
        for i in range(len(toks) - 4):
            if toks[i].s == "for" and toks[i].k == "id":
                j = i
                while toks[j].s != "in":
                    j = mt[j] + 1 if toks[j].s in ("(", "[", "{") else j + 1
                k = j + 1
                while toks[k].s != "{":
                    k = mt[k] + 1 if toks[k].s in ("(", "[") else k + 1
                if toks[k - 1].s == ")" and toks[mt[k - 1] - 1].s == "map" and toks[mt[k - 1] - 2].s == ".":
                    o = mt[k - 1]
                    p, e = closure(s[toks[o].b:toks[k - 1].a])
                    s = (s[:toks[i].b] + " vx_h in " + s[toks[j].b:toks[o - 2].a] + " { let " + s[toks[i].b:toks[j].a].strip() + " = { let %s = vx_h; %s };" % (p, e)
                         + s[toks[k].b:])
                    break
                if toks[k - 1].s == ")" and toks[k - 3].s == "enumerate" and toks[i + 1].s == "(":
                    a, b = split_args(toks, mt, i + 1)
                    nn = s.count("let mut vx_n")
                    s = (s[:toks[i].a] + "let mut vx_n%d: usize = 0; for " % nn + text(s, toks, *b) + " in " + s[toks[j].b:toks[k - 4].a]
                         + " { let %s = vx_n%d; vx_n%d = crate::vx::succ(vx_n%d);" % (text(s, toks, *a), nn, nn, nn) + s[toks[k].b:])
                    break
                if k == j + 2 and toks[j + 1].s in muts:
                    s = s[:toks[j + 1].a] + "crate::vx::iter_mut(" + toks[j + 1].s + ")" + s[toks[j + 1].b:]
                    break
                if toks[k - 1].s == ")" and toks[k - 2].s == "(" and toks[k - 3].s == "iter_mut" and toks[k - 4].s == "." and toks[j + 1].k == "id":
                    e = s[toks[j + 1].a:toks[k - 5].b]
                    s = s[:toks[j + 1].a] + "crate::vx::iter_mut(%s%s)" % ("" if e in muts else "&mut ", e) + s[toks[k - 1].b:]
                    break
                if toks[j + 1].s == "&" and toks[j + 2].s == "mut":
                    s = s[:toks[j + 1].a] + "crate::vx::iter_mut(" + s[toks[j + 1].a:toks[k - 1].b] + ")" + s[toks[k - 1].b:]
                    break
            if toks[i].s == "::" and toks[i + 1].s == "with_capacity" and toks[i + 2].s == "(" and not any(t.s in ("?", "return") for t in toks[i:mt[i + 2]]):
                s = s[:toks[i + 1].a] + "new()" + s[toks[mt[i + 2]].b:]   # L25
                break
            if toks[i].s == "." and toks[i + 1].s == "sort" and toks[i + 2].s == "(" and toks[i + 3].s == ")" and toks[i + 4].s == ";" and toks[i - 1].k == "id":
                s = s[:toks[i - 1].a] + "crate::vx::vec_sort(&mut %s)" % toks[i - 1].s + s[toks[i + 3].b:]
                break
            if toks[i].s == "." and toks[i + 1].s == "join" and toks[i + 2].s == "(" and toks[i + 3].s.startswith('"') and toks[i - 1].k == "id":
                s = s[:toks[i - 1].a] + "crate::vx::vec_join(&%s, " % toks[i - 1].s + s[toks[i + 2].b:]
                break
            if toks[i].s in ENDIAN and toks[i + 1].s == "::" and toks[i + 2].s.startswith("write_") and toks[i + 3].s == "(":   # L17
                s = s[:toks[i].a] + "crate::vx::%s_%s" % (ENDIAN[toks[i].s], toks[i + 2].s) + s[toks[i + 2].b:]
                break
            if toks[i].s in ("(", ",") and toks[i + 1].s == "|" and toks[i + 2].s == "_" and toks[i + 3].s == "|":   # L16
                s = s[:toks[i + 2].a] + "_vx" + s[toks[i + 2].b:]
                break
            if toks[i].s == "itertools" and toks[i + 1].s == "::" and toks[i + 2].s == "intersperse" and toks[i + 3].s == "(":
                args = split_args(toks, mt, i + 3)
                e = mt[i + 3]
                if text(s, toks, e + 1, e + 5).replace(" ", "").replace("\n", "") != ".collect()":
                    raise Lost("intersperse")
                s = s[:toks[i].a] + "crate::vx::intersperse(%s.collect(), %s)" % (text(s, toks, *args[0]).rstrip(","), text(s, toks, *args[1])) + s[toks[e + 4].b:]
                break
            if toks[i].s == "itertools" and toks[i + 1].s == "::" and toks[i + 2].s == "join" and toks[i + 3].s == "(":
                args = split_args(toks, mt, i + 3)
                e = mt[i + 3]
                s = s[:toks[i].a] + "crate::vx::join(%s.collect(), %s)" % (text(s, toks, *args[0]), text(s, toks, *args[1])) + s[toks[e].b:]
                break
            if toks[i].s == "drop" and toks[i + 1].s == "(" and toks[i - 1].s in (";", "{", "}") and toks[mt[i + 1] + 1].s == ";":
                e = mt[i + 1]
                s = s[:toks[i].a] + "let _vx = " + s[toks[i + 1].b:toks[e].a] + s[toks[e].b:]
                break
        else:
            return s


def lower_slices(s):
    """L23: a match on slices of string literals."""
    while True:
        toks, mt = toks_of(s)
        for i in range(len(toks) - 2):
            if toks[i].s != "match" or toks[i].k != "id":
                continue
            o = i + 1
            while toks[o].s != "{":
                o = mt[o] + 1 if toks[o].s in ("(", "[") else o + 1
            if toks[o + 1].s != "[":
                continue
            out, j, e = "", o + 1, mt[o]
            while j < e:
                if toks[j].s == "_" and toks[j + 1].s == "=>":
                    cond, j = None, j + 2
                elif toks[j].s == "[" and toks[mt[j] + 1].s == "=>":
                    lits = [t.s for t in toks[j + 1:mt[j]] if t.s != ","]
                    if not all(x.startswith('"') for x in lits):
                        raise Lost("slice pattern")
                    cond = " && ".join(["vx_m.len() == %d" % len(lits)] + ["vx_m[%d] == %s" % p for p in enumerate(lits)])
                    j = mt[j] + 2
                else:
                    raise Lost("slice pattern")
                if toks[j].s == "{":
                    b = mt[j] + 1
                else:
                    b = j
                    while b < e and toks[b].s != ",":
                        b = mt[b] + 1 if toks[b].s in ("(", "[", "{") else b + 1
                arm = s[toks[j].a:toks[b - 1].b]
                out += ("if %s { %s } else " % (cond, arm)) if cond else "{ %s }" % arm
                j = b + 1 if b < e and toks[b].s == "," else b
                if cond is None and j < e:
                    raise Lost("slice pattern")
            if cond is not None:
                raise Lost("slice pattern")
            s = s[:toks[i].a] + "{ let vx_m = %s; %s }" % (s[toks[i].b:toks[o].a].strip(), out) + s[toks[e].b:]
            break
        else:
            return s


def lower_continue(s):
    """L22: a `continue` that ends a block directly within the body of a for loop."""
    while True:
        toks, mt, loops = loops_in(s)
        fors = {j for i, j in loops if toks[i].s == "for"}
        spots = [i for i in range(len(toks) - 2) if toks[i].s == "continue" and toks[i].k == "id" and toks[i + 1].s in (";", "}")]
        spots = [i for i in spots if enclosing_loop(toks, mt, loops, i) in fors]
        if not spots:
            return s
        i = spots[-1]
        e = i + 1 if toks[i + 1].s == "}" else i + 2
        if toks[e].s != "}":
            raise Lost("a continue in the middle of a block")
        o = mt[e]
        a, _ = statement(toks, mt, o)
        outer = max((j for j in range(o) if toks[j].s == "{" and mt[j] > e), default=None)
        if outer not in fors:
            raise Lost("a continue in an inner block")
        end = mt[outer]
        keep = s[toks[o].b:toks[i].a]
        first = a
        while first < o and toks[first].s != "{":
            first = mt[first] + 1 if toks[first].s in ("(", "[") else first + 1
        if toks[a].s == "if" and first == o and toks[e + 1].s != "else":
            s = s[:toks[o].b] + keep + "} else {" + s[toks[e].b:toks[end].a] + "}" + s[toks[end].a:]
        elif toks[a].s == "let" and first == o and toks[o - 1].s == "else" and toks[e + 1].s == ";":
            s = (s[:toks[a].a] + "if " + s[toks[a].a:toks[o - 1].a] + "{" + s[toks[e + 1].b:toks[end].a] + "} else {" + keep + "}" + s[toks[end].a:])
        else:
            raise Lost("a continue of another form")


def enclosing_loop(toks, mt, loops, i):
    js = [j for k, j in loops if j < i < mt[j]]
    return max(js) if js else None


TERMS = ("collect", "any", "all", "for_each", "find_map", "next", "extend", "partition")
STEPS = ("map", "filter", "filter_map", "copied", "cloned", "into_iter", "iter", "enumerate", "skip", "flat_map", "find_map", "chain",
         "iter_mut", "rev")


def postfix_start(toks, mt, i):
    """Start token of the postfix expression whose last token is toks[i]."""
    while True:
        s = toks[i].s
        if s in (")", "]", "}"):
            i = mt[i]
            # a call or index on something, or a parenthesised expression
            p = toks[i - 1] if i else None
            if p is not None and (p.k == "id" and p.s not in ("in", "return", "match", "if", "let", "mut", "else") or p.s in (")", "]", "?", ">")):
                if p.s == ">":
                    j = i - 1
                    d = 0
                    while True:
                        if toks[j].s == ">":
                            d += 1
                        elif toks[j].s == "<":
                            d -= 1
                        elif toks[j].s == ">>":
                            d += 2
                        j -= 1
                        if d == 0:
                            break
                    i = j + 1
                    if toks[i - 1].s == "::":
                        i -= 2
                    continue
                i -= 1
                continue
        elif s == "?":
            i -= 1
            continue
        # now at the start token of a primary
        if i and toks[i - 1].s == ".":
            i -= 2
            continue
        if i and toks[i - 1].s == "::":
            i -= 2
            if toks[i].s == ">":
                raise Lost("turbofish in a chain source")
            continue
        return i


def parse_chain(s, toks, mt, term_dot):
    """The chain ending in the method call at toks[term_dot] == '.': (start token, source range, steps, end token)."""
    calls = []
    i = term_dot
    while True:
        name = toks[i + 1].s
        j = i + 2
        turbo = None
        if toks[j].s == "::":
            d, k = 0, j + 1
            while True:
                d += {"<": 1, "<<": 2, ">": -1, ">>": -2}.get(toks[k].s, 0)
                k += 1
                if d == 0:
                    break
            turbo = text(s, toks, j + 2, k - 1)
            j = k
        if toks[j].s != "(":
            raise Lost("chain method without arguments")
        calls.insert(0, (name, text(s, toks, j + 1, mt[j]) if mt[j] > j + 1 else "", turbo, i))
        # previous link
        p = i - 1
        if toks[p].s == ")":
            o = mt[p]
            q = o - 1
            if toks[q].s in (">", ">>"):
                d = 0
                while True:
                    d += {">": 1, ">>": 2, "<": -1, "<<": -2}.get(toks[q].s, 0)
                    q -= 1
                    if d == 0:
                        break
                q -= 1
            if toks[q].k == "id" and toks[q - 1].s == "." and toks[q].s in STEPS:
                i = q - 1
                continue
        break
    start = postfix_start(toks, mt, i - 1)
    return start, (start, i), calls


def closure(arg):
    """(parameter pattern, body text) of `|p| e` / `move |p| e` / path."""
    toks, mt = toks_of(arg)
    k = 0
    if toks[k].s == "move":
        k += 1
    if toks[k].s == "|":
        j = k + 1
        while toks[j].s != "|":
            j = mt[j] + 1 if toks[j].s in ("(", "[", "{") else j + 1
        return arg[toks[k].b:toks[j].a].strip(), arg[toks[j].b:].strip().rstrip(",")
    return "vx_p", "%s(vx_p)" % arg.strip().rstrip(",")


def strip_ty(pat):
    """`x: T` -> (x, T)"""
    toks, mt = toks_of(pat)
    i = 0
    while i < len(toks):
        if toks[i].s in ("(", "[", "{"):
            i = mt[i] + 1
            continue
        if toks[i].s == ":":
            return pat[:toks[i].a].strip(), pat[toks[i].b:].strip()
        i += 1
    return pat, None


def lower_chain(s, n, kind, inv):
    """Lowers the n-th remaining chain terminal of s to a loop, or None if there is none."""
    toks, mt = toks_of(s)
    seen = -1
    for i in range(len(toks) - 2):
        if toks[i].s == "." and toks[i + 1].s in TERMS and toks[i + 2].s in ("(", "::"):
            if toks[i + 1].s == "next" and toks[i - 1].s != ")":
                continue
            if toks[i + 1].s == "extend" and kind != "extend":
                continue
            seen += 1
            if seen != n:
                continue
            return lower_at(s, toks, mt, i, kind, inv)
    return None


def lower_at(s, toks, mt, i, kind, inv):
    if toks[i + 1].s == "extend":
        start = postfix_start(toks, mt, i - 1)
        e = mt[i + 2]
        arg = text(s, toks, i + 3, e) + ".for_each(|vx_e| %s.push(vx_e))" % s[toks[start].a:toks[i].a].strip()
        t2, m2 = toks_of(arg)
        k = [k for k in range(len(t2)) if t2[k].s == "." and t2[k + 1].s == "for_each"][-1]
        return s[:toks[start].a] + lower_at(arg, t2, m2, k, "for_each", inv) + s[toks[e].b:]
    start, (a, b), calls = parse_chain(s, toks, mt, i)
    term = calls[-1]
    j = i + 2
    if toks[j].s == "::":
        d, k = 0, j + 1
        while True:
            d += {"<": 1, "<<": 2, ">": -1, ">>": -2}.get(toks[k].s, 0)
            k += 1
            if d == 0:
                break
        j = k
    end = mt[j]
    src = text(s, toks, a, b)
    steps = calls[:-1]
    # leading into_iter()/iter() belong to the source
    while steps and steps[0][0] in ("iter", "into_iter", "iter_mut"):
        src += ".%s()" % steps[0][0]
        steps = steps[1:]
    if steps and steps[0][0] == "skip" and not src.endswith(")"):
        raise Lost("skip")
    v = "vx_x"
    inv, *inner = inv.split("\n+++\n")
    inner = [[x.strip("\n").replace("%", "%%") for x in re.split(r"(?m)^---$", g)] + ["", "", "", ""] for g in inner]
    nflat = 0
    body, close = "", ""
    cnt = 0
    pre = ""
    for name, arg, turbo, _ in steps:
        if name == "map":
            p, e = closure(arg)
            p, ty = strip_ty(p)
            nv = "vx_y%d" % cnt
            body += "let %s%s = %s; let %s = %s; " % (p, ": " + ty if ty else "", v, nv, e)
            v = nv
        elif name == "filter":
            p, e = closure(arg)
            p, ty = strip_ty(p)
            body += "if { let %s = &%s; %s } { " % (p, v, e)
            close += " }"
        elif name == "filter_map":
            p, e = closure(arg)
            p, ty = strip_ty(p)
            nv = "vx_y%d" % cnt
            body += "let vx_o%d = { let %s = %s; %s }; if let Some(%s) = vx_o%d { " % (cnt, p, v, e, nv, cnt)
            close += " }"
            v = nv
        elif name == "flat_map":
            p, e = closure(arg)
            p, ty = strip_ty(p)
            ip = inner[nflat] if nflat < len(inner) else [""] * 4
            n = str(nflat) if nflat else ""
            nflat += 1
            body += "let %s = %s; for vx_z%s in vx_jt%s: %s\n%s\n { %s " % (p, v, n, n, e, ip[0], ip[1])
            close = " %s } %s " % (ip[2], ip[3]) + close
            v = "vx_z" + n
        elif name == "copied":
            nv = "vx_y%d" % cnt
            body += "let %s = *%s; " % (nv, v)
            v = nv
        elif name == "cloned":
            nv = "vx_y%d" % cnt
            body += "let %s = (*%s).clone(); " % (nv, v)
            v = nv
        elif name in ("into_iter", "iter"):
            continue
        else:
            raise Lost("iterator adaptor %s" % name)
        cnt += 1
    parts = [x.strip("\n") for x in re.split(r"(?m)^---$", inv)] + ["", "", "", ""]      # invariants, begin, end, after, before
    inv, lb, le, after = parts[0], parts[1].replace("%", "%%"), parts[2].replace("%", "%%"), parts[3].replace("%", "%%")
    nl = "\n"
    loop = (parts[4].replace("%", "%%") + nl if parts[4] else "") + "for vx_x in %s\n/*@INV*/ { %s%s%%s%s %s} %s" % (src, lb + nl if lb else "", body, close, nl + le + nl if le else "", nl + after + nl if after else "")
    t = term[0]
    if kind.startswith("call "):
        if [x for x in calls[:-1] if x[0] not in ("iter", "into_iter")]:
            raise Lost("more than a plain collection")
        return s[:toks[start].a] + "%s(%s)" % (kind[5:], text(s, toks, a, b)) + s[toks[end].b:]
    if t == "collect":
        if kind == "vec" or kind.startswith("vec "):
            out = "{ let mut vx_acc" + (": Vec<%s>" % kind[4:] if kind != "vec" else "") + " = Vec::new(); %s vx_acc }" % (loop % ("vx_acc.push(%s);" % v),)
        elif kind == "result":
            out = ("{ let mut vx_acc = Vec::new(); let mut vx_err = None; %s match vx_err { None => Ok(vx_acc), Some(e) => Err(e) } }" %
                   (loop % ("match %s { Ok(vx_v) => { vx_acc.push(vx_v); } Err(vx_e) => { vx_err = Some(vx_e); break; } }" % v)))
        elif kind == "set":
            out = "{ let mut vx_acc = HashSet::new(); %s vx_acc }" % (loop % ("vx_acc.insert(%s);" % v))
        elif kind.startswith("from "):
            out = "{ let mut vx_acc = Vec::new(); %s %s(vx_acc) }" % (loop % ("vx_acc.push(%s);" % v), kind[5:])
        else:
            raise Lost("collect into %s" % kind)
    elif t == "partition":
        p, e = closure(term[1])
        out = "{ let mut vx_a = Vec::new(); let mut vx_b = Vec::new(); %s (vx_a, vx_b) }" % (loop % ("if { let %s = &%s; %s } { vx_a.push(%s); } else { vx_b.push(%s); }" % (p, v, e, v, v)))
    elif t == "for_each":
        p, e = closure(term[1])
        out = "{ %s }" % (loop % ("let %s = %s; %s;" % (p, v, e)))
    elif t == "any":
        p, e = closure(term[1])
        out = "{ let mut vx_r = false; %s vx_r }" % (loop % ("if { let %s = %s; %s } { vx_r = true; break; }" % (p, v, e)))
    elif t == "all":
        p, e = closure(term[1])
        out = "{ let mut vx_r = true; %s vx_r }" % (loop % ("if !{ let %s = %s; %s } { vx_r = false; break; }" % (p, v, e)))
    elif t == "next":
        out = "{ let mut vx_r%s = None; %s vx_r }" % (": Option<%s>" % kind[4:] if kind.startswith("opt ") else "", loop % ("vx_r = Some(%s); break;" % v))
    elif t == "find_map":
        p, e = closure(term[1])
        out = "{ let mut vx_r%s = None; %s vx_r }" % (": Option<%s>" % kind[4:] if kind.startswith("opt ") else "", loop % ("let vx_f = { let %s = %s; %s }; if vx_f.is_some() { vx_r = vx_f; break; }" % (p, v, e)))
    else:
        raise Lost("terminal %s" % t)
    out = out.replace("/*@INV*/", "/*@INV %s*/" % inv.replace("*/", ""))
    return s[:toks[start].a] + out + s[toks[end].b:]


# ---------------------------------------------------------------- functions
def loops_in(s):
    """[(keyword token index, header end token index ('{'))] in textual order."""
    toks, mt = toks_of(s)
    out = []
    for i, t in enumerate(toks):
        if t.k == "id" and t.s in ("for", "while", "loop"):
            if t.s == "for" and toks[i + 1].s == "<":
                continue
            j = i + 1
            while toks[j].s != "{":
                j = mt[j] + 1 if toks[j].s in ("(", "[") else j + 1
            out.append((i, j))
    return toks, mt, out


def statement(toks, mt, i):
    """Tokens [a, b) of the statement that holds token i."""
    back = mt
    a = i
    while a > 0:
        t = toks[a - 1].s
        if t in (";", "{"):
            break
        if t == "}" and toks[a].s not in (".", "?", "else", ")", "]", ","):
            break
        a = back.get(a - 1, a - 1) if t in (")", "]", "}") else a - 1
    b = i
    while b < len(toks):
        t = toks[b].s
        if t == "}":
            break
        if t in ("(", "[", "{"):
            b = mt[b] + 1
            continue
        b += 1
        if t == ";":
            break
    return a, b


def apply_marks(body, fn):
    for where, pat, txt in fn.marks:
        toks, mt = toks_of(body)
        occ = 0
        if pat.startswith("#"):
            n, pat2 = pat[1:].split(" ", 1)
            pat2 = pat2.strip("`")
            occ = int(n)
        else:
            pat2 = pat
        hits = find_seq(toks, pat2)
        if len(hits) <= occ or (not pat.startswith("#") and len(hits) != 1):
            raise Lost("anchor %r found %d times" % (pat2, len(hits)))
        a, b = hits[occ]
        if where in ("sbefore", "safter"):
            a, b = statement(toks, mt, a)
            where = where[1:]
        if where == "before":
            body = body[:toks[a].a] + txt + "\n" + body[toks[a].a:]
        elif where == "after":
            body = body[:toks[b - 1].b] + "\n" + txt + "\n" + body[toks[b - 1].b:]
        else:
            body = body[:toks[a].a] + txt + body[toks[b - 1].b:]
    return body


def annotate_closures(body, fn):
    """Gives the closure passed to the k-th call of a method its parameter types and contract; its text stays."""
    for m, k, tys, con in fn.closures:
        toks, mt = toks_of(body)
        hits = [i for i in range(1, len(toks) - 1) if toks[i].s == m and toks[i + 1].s == "(" and toks[i - 1].s in (".", "::")]
        if len(hits) <= k:
            raise Lost("call of %s not found" % m)
        o = hits[k] + 1
        args = split_args(toks, mt, o)
        hit = None
        for a, b in args:
            if toks[a].s in ("|", "move", "||"):
                hit = (a, b)
        if hit is None and len(args) == 1 and all(t.k == "id" or t.s == "::" for t in toks[args[0][0]:args[0][1]]):
            a, b = args[0]                 # L20
            body = body[:toks[a].a] + "|vx_c| %s(vx_c)" % text(body, toks, a, b) + body[toks[b - 1].b:]
            toks, mt = toks_of(body)
            hit = split_args(toks, mt, o)[0]
        if hit is None:
            raise Lost("no closure passed to %s" % m)
        a, b = hit
        pa = a + (1 if toks[a].s == "move" else 0)
        if toks[pa].s == "||":
            names, j = [], pa
        else:
            j, names, st = pa + 1, [], pa + 1
            while toks[j].s != "|":
                if toks[j].s == ",":
                    names.append(text(body, toks, st, j))
                    st = j + 1
                j = mt[j] + 1 if toks[j].s in ("(", "[", "{", "<") and j in mt else j + 1
            if st < j:
                names.append(text(body, toks, st, j))
        if len(names) != len([t for t in tys if t]):
            raise Lost("closure parameters")
        ps, cs = [], con
        for n, (nm, ty) in enumerate(zip(names, tys)):
            nm = nm.split(":")[0].strip()
            ps.append("%s: %s" % (nm, ty))
            cs = cs.replace("#%d" % (n + 1), nm)
        be = text(body, toks, j + 1, b)
        if not be.startswith("{"):
            be = "{ %s }" % be
        body = body[:toks[a].a] + ("move " if pa != a else "") + "|%s| %s %s" % (", ".join(ps), cs, be) + body[toks[b - 1].b:]
    return body


def lower_results(s, names):
    """L19: R.and_then(|p| e) on a Result (said by @lower) -> match R { Ok(p) => e, Err(vx_e) => Err(vx_e) }."""
    while names:
        toks, mt = toks_of(s)
        if "vec" in names:         # L21: vec![a, b] -> { let mut vx_v = Vec::new(); vx_v.push(a); vx_v.push(b); vx_v }
            h = next((i for i in range(len(toks) - 2) if toks[i].s == "vec" and toks[i + 1].s == "!"), None)
            if h is not None:
                args = split_args(toks, mt, h + 2)
                s = (s[:toks[h].a] + "{ let mut vx_v = Vec::new(); " + "".join("vx_v.push(%s); " % text(s, toks, a, b) for a, b in args)
                     + "vx_v }" + s[toks[mt[h + 2]].b:])
                continue
        for i in range(len(toks) - 3, 0, -1):
            if toks[i].s == "." and toks[i + 1].s in names and toks[i + 1].s == "and_then" and toks[i + 2].s == "(":
                st = postfix_start(toks, mt, i - 1)
                p, e = closure(text(s, toks, i + 3, mt[i + 2]))
                p, _ = strip_ty(p)
                s = (s[:toks[st].a] + "(match %s { Ok(%s) => %s, Err(vx_e) => Err(vx_e) })" % (text(s, toks, st, i), p, e)
                     + s[toks[mt[i + 2]].b:])
                break
        else:
            return s
    return s


def closures_of(s):
    """The closures of s, blanks removed."""
    toks, mt = toks_of(s)
    out = []
    for i, t in enumerate(toks):
        if t.s not in ("|", "||") or (i and toks[i - 1].s not in ("(", ",", "=", "move", "=>", "{", ";", "return")):
            continue
        j = i
        if t.s == "|":
            j = i + 1
            while j < len(toks) and toks[j].s != "|":
                j = mt[j] + 1 if toks[j].s in ("(", "[", "{") else j + 1
            if i and toks[i - 1].s in ("{", ",", ";", "=>") and any(x.s == "=>" for x in toks[i:j]):
                continue
        k = j + 1
        while k < len(toks) and toks[k].s not in (",", ";", ")", "]", "}"):
            k = mt[k] + 1 if toks[k].s in ("(", "[", "{") else k + 1
        out.append(" ".join(x.s for x in toks[i:k]))
    return out


try:
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_closures.json")) as fh:
        KNOWN_CLOSURES = set(json.load(fh))
except Exception:
    KNOWN_CLOSURES = set()
# those of the known source that stay as they are and need no contract
ALL_OPEN = set()


def open_closures(src, body):
    """Closures of the source that the lowering left as they are: nothing is known about what they return."""
    left = closures_of(body)
    r = [c for c in closures_of(src) if c in left]
    ALL_OPEN.update(r)
    return [c for c in r if c not in KNOWN_CLOSURES]


def lower_body(body, fn):
    src = body
    body = lower_body1(body, fn)
    try:
        fn.open = open_closures(src, body)
    except Exception:
        fn.open = []
    return body


def lower_body1(body, fn):
    body = lower_regex(body)
    body = lower_results(body, fn.results)
    if "context" not in fn.keep:
        body = lower_context(body)
    if "macros" not in fn.keep:
        body = lower_macros(body, fn.keep)
    body = lower_entry(body, fn.keep)
    body = lower_options(body, fn)
    body = lower_misc(body, fn.muts)
    body = lower_slices(body)
    body = lower_continue(body)
    body = annotate_closures(body, fn)
    # chains: highest index first so that indices refer to the original text
    for k in sorted(fn.chains, reverse=True):
        kind, inv = fn.chains[k]
        r = lower_chain(body, k, kind, inv)
        if r is None:
            raise Lost("chain %d not found" % k)
        body = r
    return body


def annotate_loops(body, fn):
    toks, mt, loops = loops_in(body)
    if fn.nloops is not None and len(loops) != fn.nloops:
        raise Lost("%d loops instead of %d" % (len(loops), fn.nloops))
    if fn.loops and max(fn.loops) >= len(loops):
        raise Lost("loop %d not found" % max(fn.loops))
    for k in sorted(fn.loops, reverse=True):
        toks, mt, loops = loops_in(body)   # inner loops have grown
        i, j = loops[k]
        inv = fn.loops[k]
        e = mt[j]
        body = body[:toks[e].b] + "\n" + fn.lafter.get(k, "") + "\n" + body[toks[e].b:]
        body = body[:toks[e].a] + fn.lend.get(k, "") + "\n" + body[toks[e].a:]
        body = body[:toks[j].b] + "\n" + fn.lbegin.get(k, "") + body[toks[j].b:]
        hdr = body[toks[i].a:toks[j].a]
        if toks[i].s == "for":
            # for PAT in [it:] EXPR
            p = i + 1
            while toks[p].s != "in":
                p = mt[p] + 1 if toks[p].s in ("(", "[", "{") else p + 1
            m = re.match(r"\s*it\s*=\s*(\w+)\s*\n", inv + "\n")
            name = "it"
            if m:
                name = m.group(1)
                inv = inv[m.end():]
            hdr = body[toks[i].a:toks[p].b] + " %s: " % name + body[toks[p + 1].a:toks[j].a]
        hdr = re.sub(r"/\*@INV.*?\*/", "", hdr, flags=re.S)
        body = body[:toks[i].a] + hdr.rstrip() + "\n" + inv + "\n" + body[toks[j].a:]
    # chain loops carry their own invariants
    while True:
        m = re.search(r"for vx_x in (?!vx_it:)(.*?)\n/\*@INV (.*?)\*/", body, flags=re.S)
        if not m:
            return body
        body = body[:m.start()] + "for vx_x in vx_it: %s\n%s\n" % (m.group(1), m.group(2)) + body[m.end():]


EPARAMS = {}                   # function name -> parameter number whose argument is collected


def eager_args(t):
    """f(.., ITER, ..) -> f(.., ITER.collect(), ..) for the functions of EPARAMS."""
    if not EPARAMS:
        return t
    toks, mt = toks_of(t)
    ins = []
    for i in range(len(toks) - 1):
        if toks[i].s in EPARAMS and toks[i + 1].s == "(" and (i == 0 or toks[i - 1].s != "fn"):
            args = split_args(toks, mt, i + 1)
            k = EPARAMS[toks[i].s] - 1
            if k < len(args):
                ins.append(toks[args[k][1] - 1].b)
    for p in reversed(ins):
        t = t[:p] + ".into_iter().collect()" + t[p:]
    return t


def at_tail(b, ghost):
    """let vx_t = TAIL; GHOST vx_t"""
    toks, mt = toks_of(b)
    i, st = 0, 0
    while i < len(toks):
        s = toks[i].s
        if s in ("(", "[", "{"):
            blk = s == "{" and toks[st].s in ("if", "match", "for", "while", "loop", "{", "proof")
            i = mt[i] + 1
            if blk and i < len(toks) and toks[i].s not in ("else", ".", "?"):
                st = i
            continue
        i += 1
        if s == ";":
            st = i
    if st >= len(toks):
        raise Lost("no tail expression")
    return b[:toks[st].a] + "let vx_t = " + b[toks[st].a:toks[-1].b] + ";\n" + ghost + "vx_t\n"


def fn_hashes(srcdir):
    """{file::function: hash of its tokens}"""
    import hashlib
    out = {}
    for d, ds, fs in os.walk(srcdir):
        for f in fs:
            if f.endswith(".rs"):
                p = os.path.join(d, f)
                with open(p) as fh:
                    src = fh.read()
                try:
                    toks = lex(src)
                    items = parse_items(toks, match_table(toks), 0, len(toks))
                except Exception:
                    continue
                for it in walk(items):
                    if it.kind == "fn":
                        h = hashlib.sha256(" ".join(t.s for t in toks[it.t0:it.t1 + 1]).encode()).hexdigest()[:16]
                        out[os.path.relpath(p, srcdir) + "::" + "::".join(it.path)] = h
    return out


def remember(srcdir, cdir):
    """Development only: records the functions and the closures of the source the contracts are written for."""
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "known_fns.json"), "w") as f:
        json.dump(fn_hashes(srcdir), f, indent=0, sort_keys=True)
    import tempfile
    ALL_OPEN.clear()
    with tempfile.TemporaryDirectory() as d:
        weave(srcdir, cdir, os.path.join(d, "w"))
    with open(os.path.join(here, "known_closures.json"), "w") as f:
        json.dump(sorted(ALL_OPEN), f, indent=0)


def changed_fns(srcdir):
    """The functions that are not as in the source the contracts were written for."""
    try:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_fns.json")) as f:
            known = json.load(f)
    except Exception:
        return set()
    return {k for k, h in fn_hashes(srcdir).items() if known.get(k) != h}


def weave_fn(src, toks, it, fn, external, canary=False):
    """Text of the function with its contract.  external: the body is not verified."""
    names = param_names(src, toks, it, match_table(toks))

    def param(m):
        k = int(m.group(1)) - 1
        if k >= len(names) or names[k] is None:
            raise Lost("parameter %d" % (k + 1))
        return names[k]
    # a closure bound to a name has no contract: what calls it knows nothing about its results
    fn.letclosure = it.body is not None and bool(re.search(r"\blet\s+(mut\s+)?\w+\s*(:[^=;]*)?=\s*(move\s*)?\|", src[toks[it.body[0]].a:toks[it.body[1]].b]))
    orig, fn = fn, copy.copy(fn)
    sub = lambda t: re.sub(r"\$(\d)", param, t)
    fn.spec, fn.begin, fn.end, fn.tail = sub(fn.spec), sub(fn.begin), sub(fn.end), sub(fn.tail)
    fn.loops = {k: sub(v) for k, v in fn.loops.items()}
    fn.lbegin = {k: sub(v) for k, v in fn.lbegin.items()}
    fn.lafter = {k: sub(v) for k, v in fn.lafter.items()}
    fn.lend = {k: sub(v) for k, v in fn.lend.items()}
    fn.chains = {k: (a, sub(v)) for k, (a, v) in fn.chains.items()}
    fn.marks = [(a, sub(b), sub(c)) for a, b, c in fn.marks]
    fn.closures = [(a, b, c, sub(d)) for a, b, c, d in fn.closures]
    sig_end = it.body[0]
    fn.muts = set(re.findall(r"(\w+)\s*:\s*&\s*mut\s*(?:Vec\s*<|\[)", src[toks[it.params[0]].a:toks[it.params[1]].b]))
    pre = src[toks[it.t0].a:toks[it.params[1]].b]
    ret = text(src, toks, *it.ret) if it.ret else None
    whr = text(src, toks, it.where, sig_end) if it.where is not None else ""
    body = eager_args(src[toks[it.body[0]].b:toks[it.body[1]].a])
    if fn.vparam:                 # L15
        mt0 = match_table(toks)
        a, b = split_args(toks, mt0, it.params[0], True)[fn.vparam - 1]
        o = next((i for i in range(a, b) if toks[i].s == "["), None)
        if o is not None:
            amp = toks[o - 3].s if toks[o - 2].s.startswith("'") else toks[o - 2].s
            if toks[o - 1].s != "mut" or amp != "&" or mt0[o] != b - 1:
                raise Lost("not a slice parameter")
            pre = src[toks[it.t0].a:toks[o].a] + "Vec<" + src[toks[o].b:toks[b - 1].a] + ">" + src[toks[b - 1].b:toks[it.params[1]].b]
    ms = re.match(r"(.*\()(\s*)mut\s+self\b(.*)\Z", pre, re.S)
    if ms:                        # L14
        pre = ms.group(1) + ms.group(2) + "self" + ms.group(3)
        body = re.sub(r"\bself\b", "vx_self", body)
        body = "let mut vx_self = self;" + body
    if fn.eparam:
        mt0 = match_table(toks)
        ps = [(a, b) for a, b in split_args(toks, mt0, it.params[0], True) if not (src[toks[a].a:toks[b - 1].b].endswith("self") and ":" not in src[toks[a].a:toks[b - 1].b])]
        a, b = ps[fn.eparam[0] - 1]
        c = next(i for i in range(a, b) if toks[i].s == ":")
        gen = it.params[0] > 2 and toks[it.params[0] - 1].s == ">" and toks[it.params[0] - 2].s == toks[c + 1].s and toks[it.params[0] - 3].s == "<"
        if toks[c + 1].s != "impl" and not gen:
            raise Lost("not an iterator parameter")
        pre = src[toks[it.t0].a:toks[c].b] + " Vec<%s>" % fn.eparam[1] + src[toks[b - 1].b:toks[it.params[1]].b]
        if gen:
            pre = src[toks[it.t0].a:toks[it.params[0] - 3].a] + pre[toks[it.params[0]].a - toks[it.t0].a:]
            whr = ""
    head = "".join("%s\n" % a for a in fn.attrs)
    rt = ""
    in_ok = fn.eager and ret and re.match(r"Result\s*<\s*impl\b", ret)
    if in_ok:
        ret2 = "Result<Vec<%s>>" % fn.eager
    elif fn.eager:
        ret2 = "Vec<%s>" % fn.eager
    else:
        ret2 = ret
    if ret2 is not None:
        rt = " -> (%s: %s)" % (fn.ret, ret2) if fn.ret else " -> " + ret2
    spec = fn.spec
    if external and fn.copy_sig:
        return head + "#[verifier::external_body]\n" + fn.copy_sig + "\n" + spec + "{ unimplemented!() }\n"
    if external and (fn.eager or not re.search(r"\bimpl\b", ret2 or "")):
        # what the body names (types, lifetimes of inner items) need not be known to the verifier
        return head + "#[verifier::external_body]\n" + pre + rt + "\n" + whr + "\n" + spec + "{ unimplemented!() }\n"
    if external:
        return head + "#[verifier::external_body]\n" + pre + rt + "\n" + whr + "\n" + spec + "{" + body + "}\n"
    if fn.eager:
        bt, _ = toks_of(body)
        if not bt or bt[-1].s in (";", "}"):
            raise Lost("no tail expression to collect")
        if in_ok:
            bm = match_table(bt)
            if bt[-1].s != ")" or bt[bm[len(bt) - 1] - 1].s != "Ok":
                raise Lost("tail is not Ok(..)")
            body = body[:bt[-1].a] + ".collect())\n"
        else:
            body = body[:bt[-1].b] + ".collect()\n"
    if fn.copy_sig:
        bt, _ = toks_of(body)
        for t in reversed(bt):
            if t.k == "id" and t.s == "self":
                body = body[:t.a] + "vx_self" + body[t.b:]
            elif t.k == "id" and t.s == "Self":
                body = body[:t.a] + fn.selfty + body[t.b:]
        pre, rt, whr = fn.copy_sig, "", ""
    body = re.sub(r"\A(\s*#!\[allow\([^\]]*\)\])+", "", body)       # lints
    b = lower_body(body, fn)
    orig.letclosure = orig.letclosure or bool(fn.open)
    b = annotate_loops(b, fn)
    b = apply_marks(b, fn)
    if fn.tail:
        b = at_tail(b, fn.tail)
    if canary:                    # only the entry matters: can anything meet the preconditions (and the axioms)?
        return head + pre + rt + "\n" + whr + "\n" + spec + "{\nproof { assert(false); }\ncrate::vx::never()\n}\n"
    return head + pre + rt + "\n" + whr + "\n" + spec + "{\n" + fn.begin + b + fn.end + "}\n"


# ---------------------------------------------------------------- files
def weave_file(src, fc, demoted, canary=False):
    """Returns (text, {fn path: (start marker line, end line)}, {fn path: reason}).

    demoted: fn paths whose body is left unverified (reason given)."""
    src = strip_comments(src)
    toks, mt = toks_of(src)
    items = parse_items(toks, mt, 0, len(toks))
    reasons = {}
    edits = []                    # (a, b, text)
    wanted = dict(fc.fns)
    used = set()
    wrapset = set(fc.wrap)
    done_wrap = set()

    def mark(path, txt):
        return "/*@FN %s*/\n%s/*@END %s*/\n" % (path, txt, path)

    def do_fn(it, path):
        fn = wanted[path]
        used.add(path)
        if it.body is None:
            t = src[toks[it.t0].a:toks[it.t1].b]
            pre = src[toks[it.t0].a:toks[it.params[1]].b]
            ret = text(src, toks, *it.ret) if it.ret else None
            rt = (" -> (%s: %s)" % (fn.ret, ret) if fn.ret else " -> " + ret) if ret else ""
            names = param_names(src, toks, it, mt)
            spec = re.sub(r"\$(\d)", lambda m: names[int(m.group(1)) - 1], fn.spec)
            return mark(path, "".join("%s\n" % a for a in fn.attrs) + pre + rt + "\n" + spec.rstrip() + ";\n")
        ext = fn.ext or path in demoted
        if not ext:
            try:
                return mark(path, weave_fn(src, toks, it, fn, False, canary))
            except (Lost, LexError, IndexError, KeyError, ValueError) as e:
                reasons[path] = "the contract no longer fits the code: %s" % e
        return mark(path, weave_fn(src, toks, it, fn, True))

    def attr_text(path):
        return "".join(a + "\n" for a in fc.attr.get(path, []))

    def go(items, prefix, lo, hi):
        add = fc.add.get(prefix, "")
        for it in items:
            if it.test:
                continue
            path = "::".join(it.path)
            a, b = toks[it.t0].a, toks[it.t1].b
            if it.kind == "fn":
                if path in wanted and wanted[path].copy_sig:
                    copies.append(do_fn(it, path))
                elif path in wanted:
                    edits.append((a, b, "::vstd::prelude::verus!{\n%s}" % do_fn(it, path)))
                elif path in wrapset:
                    done_wrap.add(path)
                    edits.append((a, b, "::vstd::prelude::verus!{\n%s%s}" % (attr_text(path), src[a:b])))
            elif it.kind in ("impl", "trait"):
                name = path
                whole = "impl " + name in wrapset
                fns = [f for f in it.items if f.kind == "fn" and "::".join(f.path) in wanted]
                copies.extend(do_fn(f, "::".join(f.path)) for f in fns if wanted["::".join(f.path)].copy_sig)
                fns = [f for f in fns if not wanted["::".join(f.path)].copy_sig]
                hdr = src[toks[it.t0].a:toks[it.open].b]
                if whole:
                    done_wrap.add("impl " + name)
                if whole or (fns and it.kind == "impl" and any(t.s == "for" for t in toks[it.t0:it.open])):
                    out, pos = "", toks[it.open].b
                    for f in it.items:
                        fp = "::".join(f.path)
                        fa, fb = toks[f.t0].a, toks[f.t1].b
                        if f.kind == "fn" and fp in wanted and not wanted[fp].copy_sig:
                            out += src[pos:fa] + do_fn(f, fp)
                            pos = fb
                    out += src[pos:toks[it.t1].a]
                    extra = fc.add.get("in " + name, "")
                    edits.append((a, b, "::vstd::prelude::verus!{\n%s%s\n%s\n%s}\n}" % ("", hdr, extra, out)))
                elif fns:
                    rest, pos = "", toks[it.open].b
                    mine = ""
                    for f in fns:
                        fa, fb = toks[f.t0].a, toks[f.t1].b
                        rest += src[pos:fa]
                        pos = fb
                        mine += do_fn(f, "::".join(f.path))
                    rest += src[pos:toks[it.t1].a]
                    edits.append((a, b, "%s%s}\n::vstd::prelude::verus!{\n%s%s\n%s}\n}" % (hdr, rest, "", hdr, mine)))
            elif it.kind == "mod":
                edits.append((toks[it.open].b, toks[it.open].b, "\n#[allow(unused_imports)] use crate::vx::*; #[allow(unused_imports)] use vstd::prelude::*; #[allow(unused_imports)] use vstd::std_specs::cmp::PartialEqSpec as _; #[allow(unused_imports)] use vstd::std_specs::iter::IteratorSpec as _;\n::vstd::prelude::verus!{ broadcast use crate::vx::ax; }\n"))
                go(it.items, path, it.open, it.t1)
                if path in fc.add:
                    edits.append((toks[it.t1].a, toks[it.t1].a, "::vstd::prelude::verus!{\n%s\n}\n" % fc.add[path]))
            elif path in fc.pubf and path not in wrapset:
                edits.append((a, b, pub_fields(src[a:b])))
            elif path in wrapset:
                done_wrap.add(path)
                t = src[a:b]
                if path in fc.pubf:
                    t = pub_fields(t)
                if it.kind == "const":
                    t = re.sub(r":\s*&\s*str\b", ": &'static str", t, count=1)
                edits.append((a, b, "::vstd::prelude::verus!{\n%s%s\n}" % (attr_text(path), t)))

    copies = []
    go(items, "", 0, len(toks))
    for w in wrapset - done_wrap:
        reasons["type " + w] = "not found in the file"
    for p in wanted:
        if p not in used:
            reasons[p] = "the function is no longer there"
    edits.sort(key=lambda e: (e[0], e[1]))
    out, pos = "", 0
    for a, b, t in edits:
        out += src[pos:a] + t
        pos = b
    out += src[pos:]
    # imports: before the first item
    first = next((i for i in items), None)
    ins = toks[first.t0].a if first is not None else 0
    # (edits only move text after `ins`, unless the first item itself is wrapped)
    out = out[:ins] + "#[allow(unused_imports)] use crate::vx::*; #[allow(unused_imports)] use vstd::prelude::*; #[allow(unused_imports)] use vstd::std_specs::cmp::PartialEqSpec as _; #[allow(unused_imports)] use vstd::std_specs::iter::IteratorSpec as _;\n::vstd::prelude::verus!{ broadcast use crate::vx::ax; }\n" + out[ins:]
    if copies:
        out += "\n::vstd::prelude::verus!{\n%s\n}\n" % "\n".join(copies)
    if "" in fc.add:
        out += "\n::vstd::prelude::verus!{\n%s\n}\n" % fc.add[""]
    return out, reasons


def regions(textout):
    """{fn path: (first line, last line)}"""
    reg = {}
    for n, line in enumerate(textout.split("\n"), 1):
        m = re.match(r"\s*/\*@FN (.*?)\*/", line)
        if m:
            reg[m.group(1)] = [n, n]
        m = re.search(r"/\*@END (.*?)\*/", line)
        if m:
            reg[m.group(1)][1] = n
    return reg


def strip_comments(src):
    out, pos = "", 0
    for t in lex(src):
        gap = src[pos:t.a]
        out += gap if not gap.strip() else "\n" * gap.count("\n") or " "
        out += src[t.a:t.b]
        pos = t.b
    return out + "\n"


def pub_fields(t):
    """Widens the visibility of a struct and its fields (contracts of other modules name them)."""
    toks, mt = toks_of(t)
    ins = []
    k = next(i for i, x in enumerate(toks) if x.s in ("struct", "enum"))
    if toks[k - 1].s != "pub" and toks[k - 1].s != ")":
        ins.append(toks[k].a)
    if toks[k].s == "struct":
        o = next((i for i in range(k, len(toks)) if toks[i].s in ("{", "(")), None)
        if o is not None:
            for a, b in split_args(toks, mt, o, True):
                while toks[a].s == "#":
                    a = mt[a + 1] + 1
                if toks[a].s != "pub":
                    ins.append(toks[a].a)
    for p in sorted(ins, reverse=True):
        t = t[:p] + "pub " + t[p:]
    return t


def param_names(src, toks, it, mt):
    out = []
    for a, b in split_args(toks, mt, it.params[0], True):
        txt = text(src, toks, a, b)
        if re.search(r"\bself$", txt) and ":" not in txt:
            continue
        m = re.match(r"(?:mut\s+)?(\w+)\s*:", txt)
        out.append(m.group(1) if m else None)
    return out


def eager_calls(t, names):
    """f(..).m(..) -> f(..).into_iter().m(..) for the functions whose iterator is collected."""
    toks, mt = toks_of(t)
    ins = []
    for i in range(1, len(toks) - 1):
        if toks[i].s in names and toks[i + 1].s == "(" and toks[i - 1].s != "fn":
            e = mt[i + 1]
            if e + 2 < len(toks) and toks[e + 1].s == "." and toks[e + 2].s != "into_iter":
                ins.append(toks[e].b)
    for p in reversed(ins):
        t = t[:p] + ".into_iter()" + t[p:]
    return t


def outside(t):
    """eager_args on the text outside the woven functions."""
    woven = [(m.start(), m.end()) for m in re.finditer(r"/\*@FN .*?/\*@END .*?\*/", t, flags=re.S)]
    toks, mt = toks_of(t)
    ins = []
    for i in range(1, len(toks) - 1):
        if toks[i].s in EPARAMS and toks[i + 1].s == "(" and toks[i - 1].s != "fn" and not any(a <= toks[i].a < b for a, b in woven):
            args = split_args(toks, mt, i + 1)
            k = EPARAMS[toks[i].s] - 1
            if k < len(args):
                ins.append(toks[args[k][1] - 1].b)
    for p in reversed(ins):
        t = t[:p] + ".into_iter().collect()" + t[p:]
    return t


def load_contracts(cdir):
    files = {}
    for f in sorted(os.listdir(cdir)):
        if f.endswith(".vc"):
            for fc in parse_vc(os.path.join(cdir, f)):
                if fc.path in files:
                    raise SystemExit("%s appears twice" % fc.path)
                files[fc.path] = fc
    return files


def weave(srcdir, cdir, out, demoted=(), canary=False, dropped=()):
    """Writes the woven crate to out/src.  Returns (contracts, {file: {fn: region}}, {key: reason}).

    demoted: set of 'file::fn'."""
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(srcdir, out)
    files = load_contracts(cdir)
    reg, reasons = {}, {}
    ep = {}
    for path, fc in files.items():
        if path not in dropped:
            ep.update({f.split("::")[-1]: fn.eparam[0] for f, fn in fc.fns.items() if fn.eparam})
    if ep != EPARAMS:             # (two weavers may run side by side)
        EPARAMS.clear()
        EPARAMS.update(ep)
    for path, fc in files.items():
        if path in dropped:
            continue
        p = os.path.join(out, path)
        if not os.path.exists(p):
            for f in fc.fns:
                reasons[path + "::" + f] = "the file is no longer there"
            continue
        src = open(p).read()
        dem = {d[len(path) + 2:] for d in demoted if d.startswith(path + "::")}
        try:
            txt, rs = weave_file(src, fc, dem, canary)
        except (LexError, AssertionError, IndexError, KeyError) as e:
            for f in fc.fns:
                reasons[path + "::" + f] = "the file cannot be read: %r" % e
            continue
        for k, v in rs.items():
            reasons[path + "::" + k] = v
        open(p, "w").write(txt)
        reg[path] = regions(txt)
    if canary:
        # the canaries are about the functions: what the lemmas say is taken from the proof run
        for root, _, fs in os.walk(out):
            for f in fs:
                if f.endswith(".rs"):
                    p = os.path.join(root, f)
                    t = open(p).read()
                    t2 = re.sub(r"(?m)^([ \t]*)((?:pub )?(?:broadcast )?proof fn )", r"\1#[verifier::external_body] \2", t)
                    if t2 != t:
                        open(p, "w").write(t2)
    # a lazy_static is a process-wide constant: the verifier cannot host statics, so the macro is replaced by vx's
    for root, _, names in os.walk(out):
        for f in names:
            if f.endswith(".rs"):
                p = os.path.join(root, f)
                t = open(p).read()
                t2 = re.sub(r"use\s+lazy_static::lazy_static\s*;", "", t)
                if t2 != t:
                    open(p, "w").write(t2)
    if EPARAMS:
        for root, _, fs in os.walk(out):
            for f in fs:
                if f.endswith(".rs"):
                    p = os.path.join(root, f)
                    t = open(p).read()
                    if any(n in t for n in EPARAMS):
                        t2 = outside(t)
                        if t2 != t:
                            open(p, "w").write(t2)
                            rel = os.path.relpath(p, out)
                            if rel in reg:
                                reg[rel] = regions(t2)
    names = set(f.split("::")[-1] for fc in files.values() for f, fn in fc.fns.items() if fn.eager and not fc.path in dropped) - {"into_iter"}
    if names:
        for root, _, fs in os.walk(out):
            for f in fs:
                if f.endswith(".rs"):
                    p = os.path.join(root, f)
                    t = open(p).read()
                    t2 = eager_calls(t, names)
                    if t2 != t:
                        open(p, "w").write(t2)
                        rel = os.path.relpath(p, out)
                        if rel in reg:
                            reg[rel] = regions(t2)
    for f in os.listdir(cdir):
        if f.endswith(".rs"):
            shutil.copy(os.path.join(cdir, f), os.path.join(out, f))
    mp = os.path.join(out, "main.rs")
    m = open(mp).read()
    open(mp, "w").write("#![feature(pattern, sized_hierarchy, allocator_api)]\n#![allow(unused_doc_comments, unused_imports, dead_code, unused_variables, unused_mut, unused_braces, unused_parens, unused_assignments, internal_features)]\n"
                        + m.replace("mod accounts;", "#[macro_use] mod vx;\nmod accounts;", 1))
    return files, reg, reasons
