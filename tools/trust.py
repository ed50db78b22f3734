"""Mechanical scan of the contract files for what is assumed rather than proved."""
import os, re
import weave

PATS = [(r"assume_specification\s*(?:<[^\[]*>)?\s*\[\s*(.*?)\s*\]\s*\(", "assumed contract of a dependency: %s"),
        (r"#\[verifier::external_type_specification\]\s*(?:#\[.*?\]\s*)*pub struct \w+(?:<.*?>)?\((.*?)\);", "foreign type: %s"),
        (r"(?:broadcast\s+)?(?:pub\s+)?axiom\s+fn\s+(\w+)", "axiom: %s"),
        (r"(?<!\w)assume\((.*?)\)\s*;", "assume: %s"),
        (r"(?<!\w)(admit\(\))", "%s"),
        (r"#\[verifier::external_body\]\s*(?:#\[.*?\]\s*)*(?:pub\s+)?(?:proof\s+|broadcast\s+)*(?:struct|fn)\s+(\w+)", "trusted body: %s"),
        (r"(?:pub\s+)?uninterp\s+spec\s+fn\s+(\w+)", "uninterpreted function: %s")]
BASE = ["Verus 0.2026.09.13 and Z3 (soundness of the verifier and of its Rust semantics)",
        "the weaver's lowering rules L1-L23 (tools/weave.py): error values and their context are opaque, format! is appended piece by piece, iterator chains are rewritten to loops, impl Iterator is collected",
        "the standard library specifications shipped with vstd"]


def scan(cdir, j=None):
    out = list(BASE)
    if j is not None and not j["fns"]:
        return ["the oracle's reading of the property; inputs outside the generators are not covered"]
    for f in sorted(os.listdir(cdir)):
        if f.endswith((".vc", ".rs")):
            s = open(os.path.join(cdir, f)).read()
            s = re.sub(r"//.*", "", s)
            for pat, fmt in PATS:
                for m in re.finditer(pat, s, re.S):
                    out.append("%s: %s" % (f, fmt % re.sub(r"\s+", " ", m.group(1))[:120]))
    for path, fc in weave.load_contracts(cdir).items():
        for k, fn in fc.fns.items():
            if fn.ext:
                out.append("assumed contract of %s::%s (body out of reach)" % (path, k))
    return out
