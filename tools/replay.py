#!/usr/bin/env python3
"""Repeats a scenario and explains how it differs from the specification:
replay.py FILE [--shrink OUT]. Exit 1 if it differs, 0 if not."""
import json, os, re, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, conc, families, mbt  # noqa: E402


def attempt(c, sc):
    """-> (kind, text, what differs) or None"""
    if sc[1] == "conc":
        m = [x for x in sc[2] if x.startswith("sched ")]
        got = conc.confirm(c, sc, m[0].split(" ", 1)[1] if m else "seed=0")
        return got and (got[0], got[1], (got[0],))
    fam = families.Fam(sc[1])
    fam.aspects = r".*"
    r = c.confirm("replay", sc, fam)
    if not r:
        return None
    kind, _, _, d = r[0]
    if isinstance(d, str):
        return kind, d, (kind,)
    bad = tuple(sorted({b for m in d[:1] for b in m["bad"]}))
    return kind, "\n".join("record %d differs in %s\nexpected %s" % (m["i"], ", ".join(m["bad"]), json.dumps(m)[:3000])
                           for m in d), bad


def shrink(c, sc, first):
    """Greedily drops commands as long as the same observation differs."""
    keep = re.compile(r"^(svc|unit|chk|quo|rep|gt|timer|new|sched|def|par)\b")
    lines, n = list(sc[2]), 8
    while n >= 1:
        i = len(lines) - n
        while i >= 0:
            part = lines[i:i + n]
            if not any(keep.match(x) for x in part):
                cand = (sc[0], sc[1], lines[:i] + lines[i + n:])
                try:
                    got = attempt(c, cand)
                except mbt.MachineryError:
                    got = None
                if got and got[2] == first[2]:
                    lines = cand[2]
                    i -= n - 1
            i -= 1
        n //= 2
    used = " ".join(x for x in lines if not x.startswith("def "))
    return sc[0], sc[1], [x for x in lines if not x.startswith("def ") or x.split()[2] in used.split()
                          or ":" + x.split()[2] in used]


def main():
    props, sc = check.read_scenario(sys.argv[1])
    mbt.build("sched" if sc[1] == "conc" else "driver")
    c = check.Check(props[0] if props else "C01", "quick", 1)
    try:
        got = attempt(c, sc)
        if not got:
            print("conforms to the specification")
            return 0
        print("%s: %s" % (got[0], got[1]))
        if "--shrink" in sys.argv:
            small = shrink(c, sc, got)
            out = sys.argv[sys.argv.index("--shrink") + 1]
            with open(out, "w") as f:
                f.write("# props: %s\n%s" % (" ".join(props), mbt.scenario_text(small)))
            print("%d of %d lines: %s" % (len(small[2]), len(sc[2]), out))
        return 1
    finally:
        c.work.close()


if __name__ == "__main__":
    sys.exit(main())
