"""Runs the deductive verifier (Verus) on the woven source and attributes every result to a function.

verify(...) returns a Result:
  fns       {key: {"status": proved|failed|unproved|assumed, "reason", "queries", "ms", "errors":[..]}}
  global    None, or the reason the verifier could not be run at all
A front-end error inside a function means the code is outside the verifier's reach there: the function's body is
set aside (its contract is then assumed by its callers) and the verifier is run again; the function is UNPROVED."""
import json, os, re, subprocess, sys, time, glob, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import weave as W

VERUS = "/opt/veriftools/verus/verus"
TOOLCHAIN = "1.98.1-x86_64-unknown-linux-gnu"
FAILED = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed",
          "possible arithmetic", "possible division by zero", "decreases not satisfied", "possible bit shift",
          "unable to prove", "failed this postcondition", "constructed value may fail to meet its declared type invariant",
          "unwinding", "cannot show", "could not prove termination", "possible overflow", "assertion")
LIMIT = ("resource limit", "rlimit", "timed out", "timeout", "while loop: not all errors may have been reported")


TRANSITIVE = ("nonzero_ext",)      # named by the contracts of the arena library


def externs(target):
    """(name, rlib) of the crate's direct dependencies, from cargo's own resolution and build messages."""
    out = []
    with open(os.path.join(target, "direct.json")) as f:
        direct = json.load(f)
    for l in open(os.path.join(target, "artifacts.json")):
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("reason") == "compiler-artifact" and d["package_id"] in direct:
            k = d["target"]["kind"]
            if "custom-build" in k or "bin" in k:
                continue
            for f in d["filenames"]:
                if f.endswith(".rlib") or (f.endswith(".so") and "proc-macro" in k):
                    out.append((direct[d["package_id"]], f))
        elif d.get("reason") == "compiler-artifact" and d["target"]["name"] in TRANSITIVE:
            out += [(d["target"]["name"], f) for f in d["filenames"] if f.endswith(".rlib")]
    return out


def cargo_build(repo, target, log=None):
    """Builds /repo's working tree; returns (binary, error)."""
    os.makedirs(target, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0")
    env.pop("RUSTFLAGS", None)
    t = time.time()
    with open(os.path.join(target, "artifacts.json"), "w") as f:
        r = subprocess.run(["cargo", "+" + TOOLCHAIN, "build", "--offline", "--locked", "--manifest-path", os.path.join(repo, "Cargo.toml"),
                            "--message-format=json-render-diagnostics"], stdout=f, stderr=subprocess.PIPE, env=env, text=True, cwd=repo)
    if r.returncode != 0:
        return None, r.stderr[-3000:]
    m = subprocess.run(["cargo", "+" + TOOLCHAIN, "metadata", "--offline", "--locked", "--format-version", "1", "--manifest-path",
                        os.path.join(repo, "Cargo.toml")], capture_output=True, text=True, env=env, cwd=repo)
    md = json.loads(m.stdout)
    node = [n for n in md["resolve"]["nodes"] if n["id"] == md["resolve"]["root"]][0]
    direct = {d["pkg"]: d["name"] for d in node["deps"] if any(k.get("kind") is None for k in d["dep_kinds"])}
    with open(os.path.join(target, "direct.json"), "w") as f:
        json.dump(direct, f)
    return os.path.join(target, "debug", "accountmerge"), None


class Result:
    def __init__(self):
        self.fns = {}
        self.glob = None
        self.runs = 0
        self.wall = 0.0
        self.cmd = ""
        self.verified = 0
        self.errors = 0
        self.solver_ms = 0
        self.lost = {}
        self.raw = []
        self.bd = {}


def run_verus(src, target, extra=(), timeout=400):
    deps = os.path.join(target, "debug", "deps")
    ext = []
    for n, f in externs(target):
        ext += ["--extern", "%s=%s" % (n, f)]
    cmd = [VERUS, os.path.join(src, "main.rs"), "--crate-name", "accountmerge", "--edition", "2021", "-L", "dependency=" + deps,
           *ext, "--output-json", "--time-expanded", "--error-format=json", *(() if "--multiple-errors" in extra else ("--multiple-errors", "6")), *extra]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=src, env=dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN))
    except subprocess.TimeoutExpired:
        return cmd, None, [], "timeout"
    try:
        js = json.loads(r.stdout[r.stdout.index("{"):])
    except ValueError:
        js = None
    ds = []
    for l in r.stderr.splitlines():
        if l.startswith("{"):
            try:
                ds.append(json.loads(l))
            except ValueError:
                pass
    return cmd, js, ds, r.stderr


def spans(d):
    """All spans of a diagnostic and its children, primary ones first, macro expansions followed to their call site."""
    out = []
    def add(sp, prim):
        while sp is not None:
            out.append((not prim, sp["file_name"], sp["line_start"], sp["line_end"], sp.get("label") or ""))
            sp = (sp.get("expansion") or {}).get("span")
    for sp in d.get("spans", []):
        add(sp, sp.get("is_primary"))
    for c in d.get("children", []):
        for sp in c.get("spans", []):
            add(sp, False)
    out.sort(key=lambda x: x[0])
    return out


def verify(srcdir, cdir, out, target, canary=False, rounds=8, extra=(), demote0=(), log=None):
    t0 = time.time()
    res = Result()
    demoted, why = set(demote0), {}
    dropped = set()
    for rnd in range(rounds):
        if rnd and time.time() - t0 > 300:
            res.glob = "gave up after %d rounds" % rnd
            break
        files, reg, lost = W.weave(srcdir, cdir, out, demoted, canary=canary, dropped=dropped)
        res.lost = lost
        cmd, js, ds, raw = run_verus(out, target, [*extra, *(["--multiple-errors", "0"] if canary else [])])
        res.cmd = " ".join(cmd)
        res.runs += 1
        res.raw = ds
        errs = [d for d in ds if d.get("level") == "error" and not d["message"].startswith("aborting due to")]
        fails, front = {}, {}
        loose = []
        for d in errs:
            msg = d["message"]
            sp = spans(d)
            low = msg.lower()
            isfail = any(low.startswith(p) or p in low for p in FAILED) and not d.get("code")
            islim = any(p in low for p in LIMIT)
            key = None
            for _, f, a, b, lab in sp:
                rel = os.path.relpath(os.path.join(out, f) if not os.path.isabs(f) else f, out)
                for fn, (l0, l1) in reg.get(rel, {}).items():
                    if l0 <= a <= l1:
                        # a failed precondition names the callee's clause too: the primary span is the caller
                        key = rel + "::" + fn
                        break
                if key:
                    break
            where = "%s:%d" % (sp[0][1], sp[0][2]) if sp else "?"
            if key is None:
                loose.append((isfail or islim, msg, sp, d))
                continue
            if isfail or islim:
                fails.setdefault(key, []).append(("limit" if islim else "fail", msg, where, d.get("rendered", ""), d))
            else:
                front.setdefault(key, []).append(("front", msg, where, d.get("rendered", "")))
        if log:
            log(rnd, errs)
        hard = [l for l in loose if not l[0]]
        if not errs and "panicked at" in raw and demoted - set(k for k in demoted if k.split("::")[0] in dropped):
            # the verifier itself fell over with some bodies set aside: set their files' contracts aside too
            for k in demoted:
                rel = k.split("::")[0]
                dropped.add(rel)
                why.setdefault("file " + rel, "the verifier failed internally")
            continue
        if js is None and not front and not hard:
            res.glob = "the verifier did not finish: %s" % str(raw)[-400:]
            break
        if front or hard:
            new = {k for k in front if k not in demoted}
            for k in new:
                why[k] = "outside the verifier's reach: " + front[k][0][1]
            if hard and not new:
                # ghost text of a file no longer fits: give up on that file's contracts
                nd = set()
                for _, msg, sp, d in hard:
                    for _, f, a, b, lab in sp:
                        rel = os.path.relpath(os.path.join(out, f) if not os.path.isabs(f) else f, out)
                        if rel in files and rel not in dropped:
                            nd.add(rel)
                            why["file " + rel] = msg
                            break
                # a demoted function whose signature itself is out of reach
                for k in front:
                    rel = k.split("::")[0]
                    if rel not in dropped:
                        nd.add(rel)
                        why["file " + rel] = front[k][0][1]
                if not nd:
                    # an error that lies nowhere in the source: it can only come with what changed
                    ch = W.changed_fns(srcdir) - demoted
                    if ch:
                        for k in ch:
                            why[k] = "outside the verifier's reach: " + (hard[0][1] if hard else "?")
                        demoted |= ch
                        continue
                    res.glob = "front-end error: %s" % (hard[0][1] if hard else "?")
                    break
                dropped |= nd
            elif not new:
                nd = {k.split("::")[0] for k in front} - dropped
                if not nd:
                    res.glob = "front-end error: %s" % list(front.values())[0][0][1]
                    break
                for k in front:
                    why["file " + k.split("::")[0]] = front[k][0][1]
                dropped |= nd
            demoted |= new
            continue
        # verification results
        bd = {}
        for m in (js or {}).get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                e = bd.setdefault(f["function"], [0, 0, True])
                e[0] += 1
                e[1] += f["time-micros"]
                e[2] = e[2] and f["success"]
        res.bd = bd
        res.solver_ms = sum(e[1] for e in bd.values()) // 1000
        taken = set()
        vr = (js or {}).get("verification-results", {})
        res.verified, res.errors = vr.get("verified", 0), vr.get("errors", 0)
        for path, fc in files.items():
            for p, fn in fc.fns.items():
                k = path + "::" + p
                st = dict(status="proved", reason="", errors=[], queries=0, ms=0.0)
                name = vname_of(path, p, fn)
                e = bd.get(name)
                if e is None and " for " in p and not fn.ext and not fn.noquery and not fn.vname:
                    name = impl_name(bd, taken, path, p)
                    taken.add(name)
                    e = bd.get(name)
                if e:
                    st["queries"], st["ms"] = e[0], e[1] / 1000.0
                if path in dropped:
                    st.update(status="unproved", reason=why.get("file " + path, "contracts set aside"))
                elif k in lost:
                    st.update(status="unproved", reason=lost[k])
                elif k in demoted:
                    st.update(status="unproved", reason=why.get(k, "set aside"))
                elif fn.ext:
                    st.update(status="assumed", reason="assumed contract")
                elif k in fails:
                    if all(x[0] == "limit" for x in fails[k]):
                        st.update(status="unproved", reason="resource limit", errors=fails[k])
                    elif getattr(fn, "letclosure", False):
                        st.update(status="unproved", reason="it calls a closure that has no contract", errors=fails[k])
                    else:
                        st.update(status="failed", reason=fails[k][0][1], errors=fails[k])
                elif e is None and not fn.noquery:
                    st.update(status="unproved", reason="no obligation was generated")
                res.fns[k] = st
        res.loose = [l for l in loose if l[0]]
        if not canary:
            without_hints(res, out, target, extra, reg, t0)
        break
    else:
        res.glob = "gave up after %d rounds" % rounds
    if res.glob:
        files = W.load_contracts(cdir)
        for path, fc in files.items():
            for p, fn in fc.fns.items():
                res.fns[path + "::" + p] = dict(status="assumed" if fn.ext else "unproved", reason=res.glob, errors=[], queries=0, ms=0)
    res.wall = time.time() - t0
    return res


def without_hints(res, out, target, extra, reg, t0):
    """Functions whose only failures are asserted hints (`assert` is ghost text of the contract files, the code has none) are
    tried again without the hints that failed: an edit may have moved the place a hint stands at, and what decides is the
    function's contract, not the hint."""
    def hints(errs):
        sp = []
        for e in errs:
            if e[1] != "assertion failed":
                return None
            p = [x for x in e[4].get("spans", []) if x.get("is_primary")]
            if len(p) != 1 or p[0].get("expansion"):
                return None
            sp.append((p[0]["file_name"], p[0]["byte_start"], p[0]["byte_end"]))
        return sp
    todo = {k: hints(st["errors"]) for k, st in res.fns.items() if st["status"] == "failed"}
    todo = {k: h for k, h in todo.items() if h}
    for _ in range(4):
        if not todo or time.time() - t0 > 300:
            return
        cuts = {}
        for h in todo.values():
            for f, a, b in h:
                cuts.setdefault(f, set()).add((a, b))
        for f, cs in cuts.items():
            p = f if os.path.isabs(f) else os.path.join(out, f)
            with open(p, "rb") as fh:
                t = fh.read()
            for a, b in sorted(cs, reverse=True):
                txt = b"true" + b"\n" * t[a:b].count(b"\n")
                t = t[:a] + txt + t[b:]
            with open(p, "wb") as fh:
                fh.write(t)
        mods = sorted({mod_of(k.split("::")[0]) for k in todo})
        args = [x for m in mods for x in ("--verify-only-module", m)]
        cmd, js, ds, raw = run_verus(out, target, [*extra, *args])
        res.runs += 1
        if js is None:
            return
        new = {}
        for d in ds:
            if d.get("level") != "error" or d["message"].startswith("aborting due to"):
                continue
            hit = None
            sp = spans(d)
            for _, f, a, b, lab in sp:
                rel = os.path.relpath(os.path.join(out, f) if not os.path.isabs(f) else f, out)
                for fn, (l0, l1) in reg.get(rel, {}).items():
                    if l0 <= a <= l1:
                        hit = rel + "::" + fn
                        break
                if hit:
                    break
            if hit is None or d.get("code"):
                return
            low = d["message"].lower()
            new.setdefault(hit, []).append(("limit" if any(p in low for p in LIMIT) else "fail", d["message"], "%s:%d" % (sp[0][1], sp[0][2]) if sp else "?",
                                            d.get("rendered", ""), d))
        nxt = {}
        for k in todo:
            st = res.fns[k]
            if k not in new:
                st.update(status="proved", reason="without the hints that no longer stand where they did", errors=[])
            elif all(e[0] == "limit" for e in new[k]):
                st.update(status="unproved", reason="resource limit", errors=new[k])
            else:
                st.update(reason=new[k][0][1], errors=new[k])
                h = hints(new[k])
                if h:
                    nxt[k] = h
        todo = nxt


def mod_of(path):
    mod = path[:-3].replace("/", "::")
    return mod[:-5] if mod.endswith("::mod") else mod


def vname_of(path, p, fn):
    """Name of the function in Verus's breakdown."""
    if fn.vname:
        return fn.vname
    base = re.sub(r"^.* for ", "", re.sub(r"<[^>]*>", "", p))
    return "accountmerge::" + mod_of(path) + "::" + base if path != "main.rs" else "accountmerge::" + base


def impl_name(bd, taken, path, p):
    """The name of a trait function implemented for a foreign or a primitive type."""
    head, _, meth = p.rpartition("::")
    mods, ty = re.match(r"((?:\w+::)*)", head).group(1), re.sub(r"<[^>]*>|[&\[\]]", "", head.split(" for ", 1)[1]).strip()
    c = [n for n in bd if n.endswith("::" + ty + "::" + meth) and n not in taken]
    here = [n for n in c if n.startswith("accountmerge::%s::" % mod_of(path))]
    if len(here) == 1 or len(c) == 1:
        return (here or c)[0]
    pre = "accountmerge::%s::%simpl&%%" % (mod_of(path), mods)
    c = sorted((n for n in bd if n.startswith(pre) and n.endswith("::" + meth) and n not in taken), key=lambda n: int(re.search(r"%(\d+)", n).group(1)))
    return c[0] if c else None


if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--src", default=os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src"))
    ap.add_argument("--target", default=os.path.join(VERIF, "build", "target"))
    ap.add_argument("--out", default=os.path.join(VERIF, "build", "woven-all"))
    ap.add_argument("--contracts", default=os.path.join(VERIF, "contracts"))
    ap.add_argument("--canary", action="store_true")
    ap.add_argument("--all", action="store_true")
    ap.add_argument("--only", default="")
    ap.add_argument("--rounds", type=int, default=8)
    ap.add_argument("-x", default="")
    a = ap.parse_args()
    if not os.path.exists(os.path.join(a.target, "artifacts.json")):
        print(cargo_build("/repo", a.target))
    def log(rnd, errs):
        if a.canary:
            return
        for d in errs:
            print(d.get("rendered", d["message"]))
    r = verify(a.src, a.contracts, a.out, a.target, a.canary, a.rounds, extra=a.x.split(), log=log)
    print("wall %.1f runs %d verified %d errors %d solver %d ms" % (r.wall, r.runs, r.verified, r.errors, r.solver_ms), r.glob or "")
    if r.glob and not a.canary:
        for d in r.raw[-3:]:
            print(d.get("rendered"))
    for k, s in sorted(r.fns.items()):
        if a.all or s["status"] not in ("proved", "assumed"):
            print("%-9s %-60s q=%d %.0fms %s" % (s["status"], k, s["queries"], s["ms"], s["reason"]))
    for k, v in r.lost.items():
        print("LOST", k, v)
    if a.all:
        for k in sorted(r.bd):
            print("   ", k, r.bd[k])
