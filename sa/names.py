"""The functions of the repository as they are named where the tables speak about them.

A function the tables name that is no longer there, while exactly one new function has its signature and calls much the same
functions, has been renamed: it keeps the name of the tables.  (Which function a table is compared with does not decide whether
it matches.)  `python3 sa/names.py` rewrites names.json from /repo."""
import difflib, json, os

FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "names.json")


def last(n): return n.rsplit("::", 1)[-1]


def facts(dump, canon):
    """canonical name -> (signature, functions called) of the functions of a crate"""
    out, calls = {}, {}
    for b in dump["bodies"]:
        n = canon(b["name"])
        if b["promoted"] is not None: continue
        own = n.split("::{")[0]
        for bl in b["blocks"]:
            t = bl["t"]
            if t[0] == "call" and isinstance(t[1], dict) and t[1].get("fn") and not bl["cu"]: calls.setdefault(own, set()).add(last(t[1]["fn"]))
        if "::{" in n or n.startswith("<") or b["kind"] not in ("function", "associated function", "method"): continue
        out[n] = ", ".join(canon(x) for x in b["locals"][1:b["argc"] + 1]) + " -> " + canon(b["locals"][0])
    return {n: (s, calls.get(n, set())) for n, s in out.items()}


_known = None


def renamed(dump, canon):
    """new name -> the name of the tables"""
    global _known
    if _known is None: _known = json.load(open(FILE))
    known = _known.get(dump["crate"])
    if not known: return {}
    now = facts(dump, canon)
    gone = [n for n in known if n not in now]
    new = [n for n in now if n not in known]
    if not gone or not new: return {}

    def alike(g, n):
        a, b = set(known[g][1]), now[n][1]
        if known[g][0] != now[n][0]: return 0
        x = (len(a & b) + 0.5) / (len(a | b) + 0.5)
        return x + 0.01 * difflib.SequenceMatcher(None, last(g), last(n)).ratio() if x >= 0.5 else 0
    out = {}
    for g in gone:
        best = sorted(((alike(g, n), n) for n in new), reverse=True)
        if not best or not best[0][0] or len(best) > 1 and best[1][0] == best[0][0]: continue
        n = best[0][1]
        if any(alike(h, n) >= best[0][0] for h in gone if h != g): continue
        out[n] = g
    return out


if __name__ == "__main__":
    import sys
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import front, engine
    known = {}
    for c, p in front.dump(["minirust-rs", "miniutil", "minimize", "minirun", "intrinsics"]).items():
        d = json.load(open(p))
        known[d["crate"]] = {n: [s, sorted(cs)] for n, (s, cs) in sorted(facts(d, engine.canon).items())}
    json.dump(known, open(FILE, "w"), indent=0)
    print({c: len(x) for c, x in known.items()})
