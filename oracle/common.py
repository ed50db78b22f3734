"""Runs the real binary in scratch directories; drives generated cases over 8 workers."""
import json, os, random, shutil, subprocess, sys, tempfile, time, hashlib, traceback
from concurrent.futures import ProcessPoolExecutor, FIRST_COMPLETED, wait

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Run:
    __slots__ = ("rc", "out", "err", "timeout")

    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    @property
    def ok(self):
        return self.rc == 0


class Sandbox:
    """A scratch directory in which one case runs the binary."""

    def __init__(self, binary):
        self.bin = binary
        self.dir = tempfile.mkdtemp(prefix="vcase-")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.dir, name)

    def write(self, name, data, mode=None):
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode())
        if mode:
            os.chmod(p, mode)
        return p

    def read(self, name):
        try:
            with open(self.path(name), "rb") as f:
                return f.read().decode("utf-8", "replace")
        except FileNotFoundError:
            return None

    def run(self, *args, stdin="", timeout=20):
        try:
            r = subprocess.run([self.bin, *args], cwd=self.dir, input=stdin.encode(), capture_output=True,
                               timeout=timeout, env={"PATH": "/usr/bin:/bin", "HOME": self.dir, "TMPDIR": self.dir})
        except subprocess.TimeoutExpired:
            return Run(-999, "", "timeout", True)
        return Run(r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace"))


class Fail(Exception):
    """A concrete failing input."""


def crashed(r):
    """A panic or a signal is never a proper refusal."""
    return r.timeout or r.rc < 0 or r.rc == 101


def need(cond, msg, *args):
    if not cond:
        raise Fail(msg % args if args else msg)


_G = {}


def _init(modname, binary):
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    _G["mod"] = __import__(modname)
    _G["bin"] = binary


def _mod_check(prop, case):
    """Returns (key of a non-trivial case or None, failure or None)."""
    with Sandbox(_G["bin"]) as sb:
        try:
            return _G["mod"].CHECKS[prop][1](sb, case), None
        except Fail as e:
            return None, str(e)
        except UnicodeError as e:
            return None, "output is not readable: %r" % e


def _batch(prop, seed, start, count, deadline):
    gen = _G["mod"].CHECKS[prop][0]
    keys, n, sample = [], 0, None
    for i in range(start, start + count):
        if time.time() > deadline:
            break
        rng = random.Random("%s/%s/%s" % (prop, seed, i))
        case = gen(rng, i)
        key, fail = _mod_check(prop, case)
        n += 1
        if fail is not None:
            return n, keys, sample, (case, fail, i)
        if key is not None:
            keys.append(hashlib.md5(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12])
            if sample is None:
                sample = case
    return n, keys, sample, None


def _shrink(prop, case, fail, budget=25):
    """Greedy: drop list elements of the case while it still fails."""
    t0 = time.time()
    shr = getattr(_G["mod"], "SHRINK", {}).get(prop)
    if not shr:
        return case, fail
    again = True
    while again and time.time() - t0 < budget:
        again = False
        for c in shr(case):
            if time.time() - t0 > budget:
                break
            try:
                k, f = _mod_check(prop, c)
            except Exception:
                continue
            if f is not None:
                case, fail, again = c, f, True
                break
    return case, fail


def explore(modname, prop, binary, seed, cases, secs, workers=8):
    """Returns dict(evaluations, keys, sample, failure)."""
    deadline = time.time() + secs
    res = dict(evaluations=0, distinct=0, samples=[], failure=None)
    keys = set()
    step = max(1, min(25, cases // (workers * 4) or 1))
    with ProcessPoolExecutor(workers, initializer=_init, initargs=(modname, binary)) as ex:
        nxt, live = 0, set()
        while True:
            while nxt < cases and len(live) < workers * 2 and time.time() < deadline and res["failure"] is None:
                live.add(ex.submit(_batch, prop, seed, nxt, min(step, cases - nxt), deadline))
                nxt += step
            if not live:
                break
            done, live = wait(live, return_when=FIRST_COMPLETED)
            for d in done:
                n, ks, sample, failure = d.result()
                res["evaluations"] += n
                keys.update(ks)
                if sample is not None and len(res["samples"]) < 2:
                    res["samples"].append(sample)
                if failure is not None and (res["failure"] is None or failure[2] < res["failure"][2]):
                    res["failure"] = failure
        if res["failure"] is not None:
            case, msg, i = res["failure"]
            case, msg = ex.submit(_shrink, prop, case, msg).result()
            res["failure"] = (case, msg, i)
    res["distinct"] = len(keys)
    return res


def replay(modname, prop, binary, case):
    _init(modname, binary)
    return _mod_check(prop, case)
