"""The client used by several threads at once: scenarios run under many
schedules by driver/sched, every different run validated by spec/TraceConc."""
import concurrent.futures as cf
import json, os, random, re, subprocess, time

import gen, mbt

ONE = {k: dict(only=[k]) for k in ("check", "quota", "report")}
# property -> [(profile, quick scenarios, thorough scenarios)]; what counts
PARTS = {
    "C22": dict(parts=[({}, 50, 1200), (dict(ONE["check"], keys=[1, 2]), 16, 400), (dict(ONE["quota"], keys=[1, 2]), 16, 400),
                       (dict(ONE["report"], keys=[1, 2]), 16, 400), (dict(sync=.4), 12, 300),
                       (dict(how="pair", kinds=["check"]), 110, 3000), (dict(how="pair", kinds=["quota"]), 150, 4000),
                       (dict(how="pair", kinds=["report"]), 60, 1500), (dict(how="pair", sent=1), 24, 400), (dict(how="apart"), 20, 600),
                       (dict(how="apart", only=["report"], kinds=["report"]), 20, 500), (dict(how="apart", only=["check"], kinds=["check"]), 12, 300),
                       (dict(how="apart", only=["quota"], kinds=["quota"]), 12, 300)],
                counts=("crash", "hang", "mismatch"), runs=(300, 1500)),
    "C19": dict(parts=[(dict(destroy=1, prefix=(4, 12), per=[1, 2, 2, 3]), 30, 600), (dict(how="pair", destroy=1), 60, 1500)],
                counts=("crash", "hang", "mismatch"), runs=(200, 1000)),
    "C23": dict(parts=[(dict(inplace=.5, then=.3, n=[1, 2], keys=[2, 3], prefix=(4, 12)), 40, 800), (dict(sync=.4), 10, 200), (dict(how="pair"), 60, 1500), (dict(how="pair", destroy=1), 30, 600)],
                counts=("hang",), runs=(200, 1000)),
}

# The guarantees of one kind of call hold when threads use it at once, too.
for _k, _ps in dict(check=("C01", "C02", "C03", "C04", "C05"), report=("C06", "C07", "C08", "C09", "C10"),
                    quota=("C12", "C13", "C14", "C15", "C16")).items():
    for _p in _ps:
        PARTS[_p] = dict(parts=[(dict(ONE[_k], keys=[1, 2]), 8, 150), (dict(how="pair", kinds=[_k]), 40, 800)],
                         counts=("crash", "hang", "mismatch"), runs=(150, 600))
PARTS["C17"] = dict(parts=[(dict(sync=.5), 12, 200), (dict(sync=.6, n0=.6, per=[1, 1, 2]), 12, 200), ({}, 8, 100), (dict(how="pair"), 20, 300)],
                    counts=("crash", "hang", "mismatch"), runs=(150, 600))
PARTS["C18"] = dict(parts=[({}, 10, 200), (dict(how="pair"), 30, 600), (dict(how="pair", sent=1), 16, 200)],
                    counts=("crash", "hang", "mismatch"), runs=(150, 600))

# Scenarios: any; two operations after a short history; several clients.
GEN = dict(conc=gen.conc, pair=gen.pair, apart=gen.apart)


def targets(prop):
    return ["sched"] if prop in PARTS else []


def drive(work, scs, runs, seed, jobs=mbt.CORES, limit_ms=60000):
    """-> {id: trace line} of different runs, crashes, totals"""
    jobs = max(1, min(jobs, len(scs)))
    traces, crashes, tot = {}, [], dict(runs=0, different=0)

    def part(p):
        return mbt._drive(work, p, limit_ms, "sched", (str(runs), str(seed)))
    with cf.ThreadPoolExecutor(jobs) as ex:
        for tr, cr in ex.map(part, [scs[i::jobs] for i in range(jobs)]):
            for line in tr:
                d = json.loads(line)
                if "ev" in d:
                    traces[d["id"]] = line
                else:
                    tot["runs"] += d["runs"]
                    tot["different"] += d["different"]
            crashes += cr
    return traces, crashes, tot


def _shard(work, lines, timeout):
    f = work.path("conc.ndjson")
    with open(f, "w") as g:
        g.writelines(lines)
    rc, out = mbt.tlc("TraceConc", env={"TRACE_FILE": f, "PROGRESS": "0"}, timeout=timeout, java=mbt.SHORT)
    done = set(re.findall(r'<<"DONE", "([^"]*)">>', out))
    bad = [l for l in lines if json.loads(l)["id"] not in done]
    if rc != 0:
        if rc not in mbt.EVALUATION_FAILED:
            raise mbt.MachineryError("TLC (TraceConc) ended with %d:\n%s" % (rc, out[-3000:]))
        if len(lines) == 1:
            return [(lines[0], "cannot be explained: " + out[-1500:])], mbt.counts(out)
        # A record the specification cannot evaluate ends the whole run.
        h = max(1, len(bad) // 2)
        r1, n1 = _shard(work, bad[:h], timeout)
        r2, n2 = _shard(work, bad[h:], timeout) if bad[h:] and not r1 else ([], (0, 0))
        return r1 + r2, (n1[0] + n2[0], n1[1] + n2[1])
    os.unlink(f)
    return [(l, "") for l in bad], mbt.counts(out)


def validate(work, traces, timeout=800):
    """-> [(line, text)] of what is not a behaviour of the specification"""
    lines = list(traces.values())
    if not lines:
        return [], (0, 0)
    n = max(1, min(mbt.CORES, (len(lines) + 19) // 20))
    bad, g, d = [], 0, 0
    with cf.ThreadPoolExecutor(n) as ex:
        for b, (x, y) in ex.map(lambda p: _shard(work, p, timeout), [lines[i::n] for i in range(n)]):
            bad += b
            g += x
            d += y
    return bad, (g, d)


def explain(work, line):
    """How far the run can be followed."""
    f = work.path("one.ndjson")
    open(f, "w").write(line)
    rc, out = mbt.tlc("TraceConc", env={"TRACE_FILE": f, "PROGRESS": "1"}, timeout=300, java=mbt.SHORT)
    at = [int(x) for x in re.findall(r'<<"AT", "[^"]*", (\d+)>>', out)]
    ev = json.loads(line)["ev"]
    k = max(at) if at else 0
    text = "records 1 to %d of %d can be explained; no linearization explains record %d:\n" % (k, len(ev), k + 1)
    for m in list(re.finditer(r'<<"MISMATCH", "((?:[^"\\]|\\.)*)">>', out))[:3]:
        text += "differs (in one linearization): " + mbt._unquote(m.group(1))[:1500] + "\n"
    for i, e in enumerate(ev[:k + 1], 1):
        text += "%d %s\n" % (i, json.dumps(e)[:600])
    return text


def with_schedule(sc, schedule):
    return (sc[0], sc[1], ["sched " + schedule] + [x for x in sc[2] if not x.startswith("sched ")])


def confirm(check, sc, schedule):
    """Runs the one schedule again. -> (kind, text) or None"""
    one = with_schedule(sc, schedule)
    traces, crashes, _ = drive(check.work, [one], 1, check.seed, jobs=1)
    if crashes:
        return crashes[0][1], crashes[0][2]
    bad, _ = validate(check.work, traces)
    if bad:
        return "mismatch", explain(check.work, bad[0][0])
    return None


def run(check):
    spec = PARTS.get(check.prop)
    if not spec:
        return
    quick = check.tier == "quick"
    runs = spec["runs"][0 if quick else 1]
    total = dict(scenarios=0, runs=0, different_runs=0, accepted=0, records=0, states=0)
    check.cov.setdefault("more", {})["concurrent"] = total
    allscs = []
    for j, (prof, q, t) in enumerate(spec["parts"]):
        for i in range(q if quick else t):
            rng = random.Random("%d/%s/conc/%d/%d" % (check.seed, check.prop, j, i))
            allscs.append(("%s-c%d-%d" % (check.prop, j, i), "conc", GEN[prof.get("how", "conc")](rng, prof)))
    size = len(allscs) if quick else 64
    for b in range(0, len(allscs), size):
        scs = allscs[b:b + size]
        by = {s[0]: s for s in scs}
        traces, crashes, tot = drive(check.work, scs, runs, check.seed)
        found = []
        for sc, kind, text in crashes:
            m = re.search(r"under schedule (\S+)", text)
            if kind in spec["counts"]:
                found.append((kind, sc, m.group(1).rstrip(",") if m else None, text))
        bad, (g, d) = validate(check.work, traces) if not found else ([], (0, 0))
        if "mismatch" in spec["counts"]:
            for line, text in bad[:3]:
                i = json.loads(line)["id"]
                found.append(("mismatch", by[i.split("@")[0].split("#")[0]], i.split("@", 1)[1], text))
        total["scenarios"] += len(scs)
        total["runs"] += tot["runs"]
        total["different_runs"] += tot["different"]
        total["accepted"] += len(traces) - len(bad)
        n = sum(t.count('{"c":') for t in traces.values())
        total["records"] += n
        check.cov["trace_records_checked"] += n
        total["states"] += d
        check.cov["traces_validated_against_impl"] += len(traces)
        check.cov["trace_states"] += d
        for kind, sc, schedule, text in found:
            got = confirm(check, sc, schedule) if schedule else None
            if got:
                kind, text = got
            else:
                kind += " (not repeated)"
            check.viol.append((kind, with_schedule(sc, schedule or "seed=0"), None, text))
            return
