#!/usr/bin/env python3
"""Checks one property of accountmerge:   run.py check C01   |   run.py replay FILE   |   run.py setup

1. builds /repo's working tree (out of tree, under build/);
2. weaves the contracts of contracts/ into a copy of the source and has Verus discharge every obligation;
   a second, deliberately contradictory copy (assert(false) at every contracted entry) must fail everywhere;
3. at the same time runs the real binary on generated inputs against an independent oracle: the search for a
   concrete failing input, and the bounded stand-in for what is out of the verifier's reach;
4. reports."""
import hashlib, json, os, shutil, sys, time, threading, traceback, random

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path[:0] = [os.path.join(VERIF, "tools"), os.path.join(VERIF, "oracle")]
import prove, common, weave, trust, rustlex

MODULE = {}
for m, ids in (("o_merge", "C01 C02 C03 C04 C05 C06 C07 C08 C21"), ("o_rules", "C09 C15 C16 C17 C18"),
               ("o_import", "C10 C11 C12 C13 C14 C19 C20")):
    for i in ids.split():
        MODULE[i] = m

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
BUDGET = dict(quick=(4000, 18), thorough=(400000, 420))
CHANGED = dict(quick=(60000, 60), thorough=(400000, 420))  # when the source differs from the one the contracts were last proved on
EXTRA = dict(quick=(60000, 60), thorough=(200000, 200))     # when an obligation failed or a function went unproved


def say(*a):
    print(*a, flush=True)


def load_props():
    with open(os.path.join(VERIF, "properties.jsonl")) as f:
        return {d["id"]: d for d in map(json.loads, f)}


def manifest_level(prop):
    with open(os.path.join(VERIF, "MANIFEST.json")) as f:
        for c in json.load(f)["checks"]:
            if c["property"] == prop:
                return c["level"]
    return "exploration"


def known(prop):
    """Entries of known_findings.txt for prop: list of (kind, id, text)."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                rest = l.split(" ", 2)[2]
                fid, _, txt = rest.partition(" ")
                out.append((fid.replace("id=", ""), txt))
    return out


def source_hash():
    """Of the tokens of every source file (comments and layout do not count)."""
    h = hashlib.sha256()
    root = os.path.join(REPO, "src")
    for d, ds, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if f.endswith(".rs"):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                with open(p) as fh:
                    for t in rustlex.lex(fh.read()):
                        h.update(t.s.encode() + b"\0")
    return h.hexdigest()


def seen_source():
    try:
        with open(os.path.join(VERIF, "tools", "proved_source.txt")) as f:
            return f.read().split()[0] == source_hash()
    except Exception:
        return False


def write_replay(prop, data):
    d = os.path.join(BUILD, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (prop, SEED))
    with open(p, "w") as f:
        json.dump(data, f, indent=1)
    return p


def prove_all(box, target):
    try:
        src, cdir = os.path.join(REPO, "src"), os.path.join(VERIF, "contracts")
        th = []
        def one(name, canary):
            try:
                box[name] = prove.verify(src, cdir, os.path.join(BUILD, "woven-" + name), target, canary=canary)
            except Exception:
                box[name + "_err"] = traceback.format_exc()
        for n, c in (("proof", False), ("canary", True)):
            t = threading.Thread(target=one, args=(n, c))
            t.start()
            th.append(t)
        for t in th:
            t.join()
    except Exception:
        box["proof_err"] = traceback.format_exc()


def judge(prop, box):
    """What the verifier says about prop: dict(fns, failed, unproved, proved, assumed, vacuous, lemmas)."""
    out = dict(fns={}, failed=[], unproved=[], proved=[], assumed=[], vacuous=[], queries=0, ms=0, note=None, lemmas=[], elsewhere=["no verifier result"])
    files = weave.load_contracts(os.path.join(VERIF, "contracts"))
    want = [p + "::" + k for p, fc in files.items() for k, fn in fc.fns.items() if prop in fn.props]
    if not want:
        return out
    r, c = box.get("proof"), box.get("canary")
    if r is None:
        out["note"] = "verifier run failed: " + box.get("proof_err", "?")[-300:]
        out["unproved"] = [(k, out["note"]) for k in want]
        return out
    if r.glob:
        out["note"] = r.glob
    for k in want:
        st = r.fns.get(k)
        if st is None:
            out["unproved"].append((k, "no result"))
            continue
        out["fns"][k] = st
        s = st["status"]
        if s == "proved":
            cs = c.fns.get(k) if c is not None else None
            if cs is None or c.glob or cs["status"] != "failed":
                out["vacuous"].append(k)
                out["unproved"].append((k, "the contradiction canary did not fail there: %s" % (cs and cs["status"])))
                continue
            out["proved"].append(k)
            out["queries"] += st["queries"]
            out["ms"] += st["ms"]
        elif s == "failed":
            out["failed"].append((k, st))
        elif s == "assumed":
            out["assumed"].append(k)
        else:
            out["unproved"].append((k, st["reason"]))
    # lemmas: every query of the run that is not a contracted function
    if not r.glob:
        named = {files_k for files_k in (prove.vname_of(p, k, fn) for p, fc in files.items() for k, fn in fc.fns.items())}
        mods = {prove.mod_of(k.split("::")[0]) for k in want} | {"vx"}
        for name, e in r.bd.items():
            if name in named:
                continue
            parts = name.split("::")
            mod = "::".join(parts[1:-1])
            if any(mod == m or mod.startswith(m + "::") for m in mods):
                # a lemma is about the specifications, not an obligation of the code: one that does not go through
                # any more is no violation, only a gap in the argument
                if not e[2]:
                    out["unproved"].append((name, "lemma not discharged"))
                else:
                    out["lemmas"].append(name)
                    out["queries"] += e[0]
                    out["ms"] += e[1] / 1000.0
        out["elsewhere"] = sorted(k for k, st in r.fns.items() if st["status"] not in ("proved", "assumed"))
    return out


def check(prop):
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    target = os.path.join(BUILD, "target")
    binary, err = prove.cargo_build(REPO, target)
    if binary is None:
        say("BUILD FAILED\n" + err)
        return 2
    tb = time.time() - t0
    box = {}
    th = threading.Thread(target=prove_all, args=(box, target))
    th.start()
    cases, secs = (BUDGET if seen_source() else CHANGED)[TIER]
    res = common.explore(MODULE[prop], prop, binary, SEED, cases, secs)
    th.join()
    j = judge(prop, box)
    # known findings
    for fid, txt in known(prop):
        with common.Sandbox(binary) as sb:
            mod = __import__(MODULE[prop])
            if mod.PROBES[fid](sb):
                say("KNOWN-FINDING: property=%s id=%s %s" % (prop, fid, txt))
            else:
                say("note: known finding %s of %s no longer fails" % (fid, prop))
    failed = [k for k, _ in j["failed"]]
    if res["failure"] is None and (failed or j["unproved"]):
        cases, secs = EXTRA[TIER]
        r2 = common.explore(MODULE[prop], prop, binary, "x%d" % SEED, cases, secs)
        res["evaluations"] += r2["evaluations"]
        res["distinct"] += r2["distinct"]
        res["failure"] = r2["failure"]
    rc = 0
    if res["failure"] is not None:
        case, msg, i = res["failure"]
        p = write_replay(prop, dict(property=prop, module=MODULE[prop], case=case, message=msg, case_index=i, seed=SEED,
                                    failed_obligations=failed, replay_cmd="python3 run.py replay <this file>"))
        say("concrete failing input: " + msg[:1500])
        for k, st in j["failed"]:
            say("failed obligation: %s: %s" % (k, st["reason"]))
        say("VIOLATION property=%s replay=%s" % (prop, p))
        rc = 1
    elif failed:
        p = write_replay(prop, dict(property=prop, failed_obligations=[
            dict(function=k, errors=[dict(kind=e[0], message=e[1], where=e[2], verifier_output=e[3]) for e in st["errors"]])
            for k, st in j["failed"]], checker_cmd=box["proof"].cmd))
        for k, st in j["failed"]:
            say("failed obligation: %s: %s (%s)" % (k, st["reason"], st["errors"][0][2]))
        say("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p))
        rc = 1
    for k, why in j["unproved"]:
        say("UNPROVED %s: %s (bounded search stands in)" % (k, why))
    evidence(prop, res, j, box, time.time() - t0, tb, rc)
    if rc == 0:
        say("OK %s: %d functions proved, %d assumed contracts, %d unproved; %d inputs, %d distinct non-trivial; %.0f s" %
            (prop, len(j["proved"]), len(j["assumed"]), len(j["unproved"]), res["evaluations"], res["distinct"], time.time() - t0))
    return rc


def evidence(prop, res, j, box, wall, tb, rc):
    mod = __import__(MODULE[prop])
    level = manifest_level(prop)
    complete = bool(j["proved"]) and not j["unproved"] and not j["failed"] and not j["elsewhere"]
    if level == "proof" and not complete:
        level = "exploration"
    tr = trust.scan(os.path.join(VERIF, "contracts"), j)
    cov = dict(
        evaluations=res["evaluations"], distinct_nontrivial=res["distinct"], rule=getattr(mod, "RULES", {}).get(prop, "generated cases; non-trivial when the guarded behaviour was exercised"),
        samples=[json.dumps(s)[:1500] for s in res["samples"]])
    if j["fns"] or j["unproved"]:
        r = box.get("proof")
        cov.update(
            obligations=j["queries"] + sum(st["queries"] for _, st in j["failed"]) + len(j["unproved"]),
            discharged=j["queries"], back_end="Verus 0.2026.09.13 / Z3",
            checker_cmd="python3 run.py check %s  (weaves contracts/ into /repo/src, then: %s)" % (prop, r.cmd[:160] + " ..." if r else ""),
            trusted_base=tr,
            functions_proved=sorted(j["proved"]), functions_unproved=[dict(function=k, why=w) for k, w in j["unproved"]],
            functions_failed=sorted(k for k, _ in j["failed"]), not_proved_elsewhere=j["elsewhere"], contracts_assumed=sorted(j["assumed"]), lemmas=sorted(j["lemmas"]),
            canaries_failed_as_required=len(j["proved"]), solver_ms=round(j["ms"], 1),
            verifier_wall_s=round(r.wall, 1) if r else None)
    ev = dict(property=prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=level, coverage=cov,
              assumptions=tr, wall_s=round(wall, 1), violations=rc)
    if level != "proof":
        pass
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def replay(path):
    with open(path) as f:
        d = json.load(f)
    target = os.path.join(BUILD, "target")
    binary, err = prove.cargo_build(REPO, target)
    if binary is None:
        say(err)
        return 2
    if "case" not in d:
        say("the violation is a failed obligation; re-running the check")
        return check(d["property"])
    key, fail = common.replay(d["module"], d["property"], binary, d["case"])
    if fail is None:
        say("no failure on this tree")
        return 0
    say(fail)
    say("VIOLATION property=%s replay=%s" % (d["property"], path))
    return 1


if __name__ == "__main__":
    if len(sys.argv) >= 3 and sys.argv[1] == "check":
        sys.exit(check(sys.argv[2]))
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) >= 2 and sys.argv[1] == "seen":  # records the source the contracts were proved on (development only)
        with open(os.path.join(VERIF, "tools", "proved_source.txt"), "w") as f:
            f.write(source_hash() + "\n")
        weave.remember(os.path.join(REPO, "src"), os.path.join(VERIF, "contracts"))
        import dictionary
        with open(dictionary.KNOWN, "w") as f:
            json.dump(dictionary.literals(REPO), f, indent=0, sort_keys=True)
        sys.exit(0)
    if len(sys.argv) >= 2 and sys.argv[1] == "setup":
        for tool in (prove.VERUS,):
            if not os.path.exists(tool):
                say("missing: " + tool)
                sys.exit(1)
        sys.exit(0)
    say(__doc__)
    sys.exit(2)
