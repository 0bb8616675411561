"""Bounded exploration of the client's specification (spec/MC*.tla) by TLC, and
execution of the explored behaviours by the implementation.

Every transition TLC explores is printed as the sequence of commands that leads
to it; sequences that are a prefix of another one are dropped, the others become
scenarios, whose recorded traces are validated like those of random scenarios."""
import json, os, random, re, time
import concurrent.futures as cf

import families, mbt

# property -> [(module, quick steps, thorough steps)]
MODELS = {
    "C01": [("MCCheck", 4, 7), ("MCCheckOdd", 5, 8)],
    "C02": [("MCCheck", 5, 7)],
    "C03": [("MCCheck", 5, 7), ("MCShared", 3, 6)],
    "C04": [("MCCheckOdd", 6, 8)],
    "C05": [("MCCheck", 4, 7), ("MCCheckOdd", 5, 8)],
    "C06": [("MCReport", 4, 6), ("MCShared", 3, 6)],
    "C07": [("MCReport", 4, 6)],
    "C08": [("MCReport", 4, 6)],
    "C09": [("MCReport", 4, 6)],
    "C12": [("MCQuota", 3, 5), ("MCQuotaOdd", 4, 7)],
    "C13": [("MCQuota", 3, 5), ("MCQuotaOdd", 4, 7)],
    "C14": [("MCQuota", 3, 5), ("MCQuotaOdd", 4, 7)],
    "C15": [("MCQuota", 3, 5), ("MCQuotaOdd", 4, 7)],
    "C16": [("MCQuota", 3, 5), ("MCQuotaOdd", 4, 7)],
    "C17": [("MCNested", 4, 5), ("MCNoTransport", 3, 5)],
    "C18": [("MCShared", 5, 6), ("MCNested", 4, 5)],
    "C19": [("MCShared", 4, 6), ("MCReport", 3, 5), ("MCCheck", 4, 6), ("MCQuota", 3, 5)],
    "C20": [("MCShared", 4, 6)],
    "C21": [("MCNoTransport", 4, 6)],
    "C23": [("MCNested", 4, 5)],
}
# The utilities: property -> [(module, configuration, quick, thorough)]
UTIL = {
    "C09": [("MCMetrics", "MCMetrics", 2, 3)],
    "C10": [("MCMetrics", "MCMetrics", 2, 3)],
    "C11": [("MCMetrics", "MCMetrics", 2, 3)],
    "C24": [("MCLruRoom", "MCLru", 4, 7), ("MCLruTime", "MCLru", 4, 6)],
    "C25": [("MCLruPins", "MCLru", 4, 7), ("MCLruRoom", "MCLru", 4, 6)],
    "C26": [("MCLruTime", "MCLru", 4, 7), ("MCLruPins", "MCLru", 4, 6)],
    "C27": [("MCDist", "MCDist", 3, 6)],
    "C28": [("MCDist", "MCDist", 4, 7)],
    "C29": [("MCMoney", "MCMoney", 4, 5)],
    "C30": [("MCKeys", "MCKeys", 4, 5)],
}
# All interleavings of a few operations of two threads; nothing is executed, the
# runs of the implementation are checked against the same steps by conc.py.
# property -> [(module, quick operations, thorough operations, invariants)]
CONC = {
    "C19": [("MCConcShared", 3, 5, "")],
    "C22": [("MCConcCheck", 3, 5, ""), ("MCConcQuota", 3, 5, "OneInFlight"), ("MCConcShared", 3, 5, "")],
    "C23": [("MCConcCheck", 3, 5, "")],
}
SAMPLE = dict(quick=1500, thorough=60000)
STATEMENT = re.compile(r'ok = \{(.*?)\}', re.S)


def _us(units):
    return units * 1000     # the models count milliseconds


class Translation:
    """Commands of the model -> lines of a scenario."""

    def __init__(self, d):
        self.conf, self.templates, self.fins, self.plans = d["conf"], d["templates"], d["fins"], d["plans"]
        c = self.conf
        self.head = ["svc %s %s" % (c["chk"]["svc"], c["chk"]["cid"]), "unit 1000",
                     "chk %d %d %d" % (c["chk"]["n"], c["chk"]["flushms"], c["chk"]["expms"]),
                     "quo %d %d %d" % (c["quo"]["n"], c["quo"]["refreshms"], c["quo"]["expms"]),
                     "rep %d %d" % (c["rep"]["n"], c["rep"]["flushms"]),
                     "gt " + " ".join(sorted(c["gt"])), "timer %d" % c["timer"]]
        self.head = [x.rstrip() for x in self.head]
        self.head += ["def cresp e | check_errors { code: ABUSER_DETECTED }",
                      "def qresp e | allocate_errors { code: RESOURCE_EXHAUSTED }"]

    def request(self, t, n):
        """The fields must be those of MC!Req."""
        mv = 'metric_value_sets { metric_name: "m" metric_values { int64_value: 1 } }'
        imp = {"LOW": "", "IMP2": " importance: HIGH"}[t["imp"]]
        op = 'operation_id: "%d" operation_name: "op%d" consumer_id: "c"%s %s log_entries { name: "%d" }' % (
            n, t["key"], imp, mv, n)
        if t["k"] == "check":
            return 'service_name: "%s"' % t["svc"] + (" operation { %s }" % op if t["hasop"] else "")
        if t["k"] == "report":
            return 'service_name: "%s"' % t["svc"] + " operations { %s }" % op * t["nops"]
        return 'service_name: "%s"' % t["svc"] + (
            ' allocate_operation { operation_id: "%d" method_name: "op%d" consumer_id: "c" quota_mode: BEST_EFFORT '
            'quota_metrics { metric_name: "m" metric_values { int64_value: 1 } } }' % (n, t["key"]) if t["hasop"] else "")

    def declare(self, t, n, out):
        then = 0
        if t["then"]:
            then = self.declare(t["then"][0], n + 1, out)
        out.append("def %s r%d | %s" % (t["k"], n, self.request(t, n)))
        out.append("decl %d %s r%d %d 0 %d" % (n + 1, t["k"], n, t["own"], then))
        return n + 1

    @staticmethod
    def resp(kind, r):
        return "-" if kind == "report" or not r["err"] else "e"

    def lines(self, path):
        out = list(self.head) + ["new"]
        for i, cmd in enumerate(path):
            if cmd["d"]:
                out.append("adv %d" % _us(cmd["d"]))
            c = cmd["c"]
            if c == "call":
                out.append("call %d" % self.declare(self.templates[cmd["t"] - 1], 10 * i, out))
            elif c == "fin":
                k, j, st, resp = self.fins[cmd["f"] - 1]
                out.append("fin %s %d %s %s" % (k, j, st, self.resp(k, resp)))
            elif c == "plan":
                p = self.plans[cmd["p"] - 1]
                out.append("plan %s %s" % (p["k"], " ".join(
                    "*inplace:%d:%s:%s" % (_us(x["d"]), x["st"], self.resp(p["k"], x["resp"])) for x in p["p"])))
            else:
                out.append(c)
        return out


class Lines:
    """The models of the utilities write the lines of their scenarios."""
    TAIL = dict(lru=["release 0"] * 8 + ["destroy"])
    HEAD = dict(keys=["svc svc cid", "chk 20 100000 200000", "quo 20 100000 200000", "rep 20 100000",
                      "gt check quota report", "timer 0", "new"],
                metrics=["svc svc cid", "chk 0 1 1", "quo 0 1 1", "rep 10 100000", "gt report", "timer 0"])

    def __init__(self, d):
        self.comp = d["comp"]
        # Short behaviours share a scenario.
        self.group = dict(money=20).get(self.comp, 1)
        self.driver = dict(keys="client", metrics="client").get(self.comp, self.comp)

    def lines(self, path):
        return (self.HEAD.get(self.comp, []) + [x for p in path for x in p.split(";")] + self.TAIL.get(self.comp, []))


def explore(work, module, steps, workers, timeout=800, mem="4g", base="MC"):
    """-> statistics, Translation, [path]"""
    cfg = work.path(module + ".cfg")
    text = open(os.path.join(mbt.SPEC, base + ".cfg")).read()
    open(cfg, "w").write(text.replace("@STEPS@", str(steps)).replace("@PRINT@", "TRUE"))
    t0 = time.time()
    rc, out = mbt.tlc(module, cfg=cfg, workers=workers, mem=mem, timeout=timeout,
                      java=mbt.SHORT if workers <= 2 else mbt.LONG)
    if rc != 0 or "No error has been found" not in out:
        tail = [x for x in out.splitlines() if not x.startswith('<<"PATH"')]
        raise mbt.MachineryError("the model %s violates its properties or cannot be explored (%d):\n%s" %
                                 (module, rc, "\n".join(tail[-60:])))
    conf = json.loads(mbt._unquote(re.search(r'<<"CONF", "(.*)">>', out).group(1)))
    g, d = mbt.counts(out)
    paths = {}
    prefixes = set()
    for m in re.finditer(r'<<"PATH", "((?:[^"\\]|\\.)*)">>', out):
        p = json.loads(mbt._unquote(m.group(1)))
        paths[json.dumps(p, sort_keys=True)] = p
        if len(p) > 1:
            prefixes.add(json.dumps(p[:-1], sort_keys=True))
    leaves = [paths[k] for k in sorted(paths) if k not in prefixes]
    return dict(model=module, steps=steps, states=d, transitions=g, behaviours=len(leaves),
                wall_s=round(time.time() - t0, 1)), Lines(conf) if "comp" in conf else Translation(conf), leaves


def interleave(work, module, steps, more, workers, timeout=800, mem="4g"):
    cfg = work.path(module + ".cfg")
    text = open(os.path.join(mbt.SPEC, "MCConc.cfg")).read()
    open(cfg, "w").write(text.replace("@STEPS@", str(steps)).replace("@ADVS@", "1").replace("@MORE@", more))
    t0 = time.time()
    rc, out = mbt.tlc(module, cfg=cfg, workers=workers, mem=mem, timeout=timeout,
                      java=mbt.SHORT if workers <= 2 else mbt.LONG)
    if rc != 0 or "No error has been found" not in out:
        raise mbt.MachineryError("the model %s violates its properties or cannot be explored (%d):\n%s" %
                                 (module, rc, "\n".join(out.splitlines()[-80:])))
    g, d = mbt.counts(out)
    return dict(model=module, operations=steps, states=d, transitions=g, wall_s=round(time.time() - t0, 1))


def interleavings(prop, tier, work, res):
    todo = CONC.get(prop, [])
    if tier == "quick":
        with cf.ThreadPoolExecutor(4) as ex:
            got = list(ex.map(lambda m: interleave(work, m[0], m[1], m[3], 2), todo))
    else:
        got = [interleave(work, m[0], m[2], m[3], mbt.CORES, timeout=3600, mem="12g") for m in todo]
    for st in got:
        res["states"] += st["states"]
        res["transitions"] += st["transitions"]
        res["models"].append(st)


def run(prop, tier, seed, work):
    res = dict(states=0, transitions=0, models=[], behaviours=[])
    interleavings(prop, tier, work, res)
    todo = [(m, q, th, "MC") for m, q, th in MODELS.get(prop, [])] + \
           [(m, q, th, b) for m, b, q, th in UTIL.get(prop, [])]
    if not todo:
        return res
    if tier == "quick":
        with cf.ThreadPoolExecutor(len(todo)) as ex:
            got = list(ex.map(lambda m: explore(work, m[0], m[1], 2, base=m[3]), todo))
    else:
        got = [explore(work, m[0], m[2], mbt.CORES, timeout=3600, mem="10g", base=m[3]) for m in todo]
    for st, tr, leaves in got:
        rng = random.Random("%s/%s/%d" % (prop, st["model"], seed))
        n = SAMPLE[tier] // len(got)
        comp = getattr(tr, "driver", "client")
        group = getattr(tr, "group", 1)
        if len(leaves) > n * group:
            leaves = rng.sample(leaves, n * group)
        st["executed"] = len(leaves)
        res["states"] += st["states"]
        res["transitions"] += st["transitions"]
        res["models"].append(st)
        base = families.PROPS[prop]["fams"][0]
        fam = families.Fam(comp, records=base.records)
        scs = [[x for p in leaves[i:i + group] for x in tr.lines(p)] for i in range(0, len(leaves), group)]
        res["behaviours"].append(("model " + st["model"], fam,
                                  [("%s-%s-%d" % (prop, st["model"], i), comp, x) for i, x in enumerate(scs)]))
    return res
