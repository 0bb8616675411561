#!/usr/bin/env python3
"""Decides one property: check.py ID. Environment: VERIF_SEED, VERIF_TIER.

Exit 0: it held on everything explored; 1: VIOLATION line; 2: the check failed."""
import glob, json, os, random, re, sys, time, traceback
import concurrent.futures as cf

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import families, gen, mbt  # noqa: E402
try:
    import models  # noqa: E402
except ImportError:
    models = None
try:
    import conc  # noqa: E402
except ImportError:
    conc = None

ROOT = mbt.ROOT
TIERS = ("quick", "thorough")


def load_known():
    """The known findings: property -> {scenario file: [lines of the file]}."""
    out = {}
    for line in open(os.path.join(ROOT, "known-findings.txt")):
        m = re.match(r"KNOWN-FINDING: property=(\S+) scenario=(\S+) bad=(\S+) (.*)", line)
        if m:
            out.setdefault(m.group(1), []).append((m.group(2), m.group(3).split(","), m.group(4).strip()))
    return out


def read_scenario(path):
    """-> (properties, (id, component, lines))"""
    props, sid, comp, lines = [], None, None, []
    for line in open(path):
        line = line.rstrip("\n")
        if line.startswith("# props:"):
            props = line[8:].split()
        elif line.startswith("scenario "):
            _, sid, comp = line.split()
        elif line and not line.startswith("#") and line != "end":
            lines.append(line)
    return props, (sid, comp, lines)


def directed(prop):
    out = []
    for f in sorted(glob.glob(os.path.join(ROOT, "scenarios", "*.scn"))):
        props, sc = read_scenario(f)
        if prop in props:
            out.append(sc)
    return out


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.spec = families.PROPS.get(prop)
        self.work = mbt.Work(prop)
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[],
                        trace_records_checked=0, trace_states=0, scenarios=dict(), models=[])
        self.viol = []      # (kind, scenario, module, detail)
        self.known = []

    # -- selection -----------------------------------------------------------
    def wanted(self, fam, trace, mm):
        """The mismatches of a trace which concern the property."""
        pat = re.compile(fam.aspects or self.spec["aspects"])
        out = []
        evs = trace["ev"]
        dead = next((k for k, e in enumerate(evs) if e.get("c") == "destroy"), len(evs))
        for m in mm:
            k = m["i"] - 1
            if fam.records:
                c = evs[k]["c"] if 0 <= k < len(evs) else ""
                if "destroy+" in fam.records:
                    # only what follows the destruction, if nothing before was different
                    if k < dead and k >= 0:
                        break
                elif c not in fam.records and k >= 0:
                    break
            bad = [b for b in m["bad"] if pat.match(b)]
            if bad:
                out.append(dict(m, bad=bad))
        return out

    def run_family(self, name, fam, scs):
        if not scs:
            return
        module = families.MODULE[fam.comp]
        traces, crashes = mbt.drive(self.work, scs)
        for sc, kind, text in crashes:
            self.viol.append((kind, sc, fam, text))
        mism, (g, d) = mbt.check_traces(self.work, module, traces)
        by = {s[0]: s for s in scs}
        self.cov["traces_validated_against_impl"] += len(traces)
        self.cov["trace_states"] += d
        self.cov["scenarios"][name] = len(scs)
        n = 0
        for k, t in traces.items():
            n += t.count('{"c":')
        self.cov["trace_records_checked"] += n
        if len(self.cov["samples"]) < 3:
            self.cov["samples"].append(dict(family=name, scenario=scs[0][2][-12:]))
        for k in mism:
            w = self.wanted(fam, json.loads(traces[k]), mism[k])
            if w:
                self.viol.append(("mismatch", by[k.split("#")[0]], fam, w))

    def confirm(self, kind, sc, fam):
        """Does the violation repeat when the scenario runs alone?"""
        module = families.MODULE[fam.comp]
        traces, crashes = mbt.drive(self.work, [sc], limit_ms=60000, jobs=1)
        if crashes:
            return [(crashes[0][1], sc, fam, crashes[0][2])]
        mism, _ = mbt.check_traces(self.work, module, traces, shards=1)
        for k in sorted(mism):
            w = self.wanted(fam, json.loads(traces[k]), mism[k])
            if w:
                return [("mismatch", sc, fam, w)]
        return []

    # -- the steps -----------------------------------------------------------
    def random_part(self):
        rng0 = "%d/%s" % (self.seed, self.prop)
        for j, fam in enumerate(self.spec["fams"]):
            n = fam.quick if self.tier == "quick" else fam.thorough
            batch = 4000
            for b in range(0, n, batch):
                scs = []
                for i in range(b, min(n, b + batch)):
                    rng = random.Random("%s/%d/%d" % (rng0, j, i))
                    scs.append(("%s-f%d-%d" % (self.prop, j, i), fam.comp, getattr(gen, fam.comp)(rng, fam.prof)))
                if self.tier == "quick":
                    self.pending.append(("random %d" % j, fam, scs))
                else:
                    self.run_family("random %d.%d" % (j, b // batch), fam, scs)
                    if self.viol:
                        return

    def run_pending(self):
        """Families of one component together, to start fewer processes."""
        groups = {}
        for name, fam, scs in self.pending:
            groups.setdefault((fam.comp, fam.records, fam.aspects), []).append((name, fam, scs))
        for parts in groups.values():
            allscs = [s for p in parts for s in p[2]]
            self.run_family(" + ".join("%s (%d)" % (p[0], len(p[2])) for p in parts), parts[0][1], allscs)
            if self.viol:
                return

    def known_part(self):
        for rel, bad, what in load_known().get(self.prop, []):
            _, sc = read_scenario(os.path.join(ROOT, rel))
            fam = families.Fam(sc[1])
            fam.aspects = r".*"
            r = self.confirm("known", sc, fam)
            if not r:
                continue
            got = sorted({b for m in r[0][3] for b in m["bad"]}) if r[0][0] == "mismatch" else [r[0][0]]
            if got == sorted(bad):
                print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
                self.known.append(what)
            else:
                self.viol += r

    def run(self):
        self.pending = []
        mbt.build(*(["driver"] if self.prop != "C22" else []),
                  *(conc.targets(self.prop) if conc else []))
        jobs = []
        if models:
            # The models are checked while the scenarios run.
            ex = cf.ThreadPoolExecutor(1)
            jobs.append(ex.submit(models.run, self.prop, self.tier, self.seed, self.work))
        if self.spec:
            ds = directed(self.prop)
            for comp in sorted({s[1] for s in ds}):
                fam = families.Fam(comp)
                fam.aspects = r".*" if self.prop not in families.PROPS else None
                self.pending.append(("directed " + comp, fam, [s for s in ds if s[1] == comp]))
            self.random_part()
            if not self.viol:
                self.run_pending()
        for j in jobs:
            res = j.result()
            self.cov["states"] += res["states"]
            self.cov["transitions"] += res["transitions"]
            self.cov["models"] += res["models"]
            for name, fam, scs in res["behaviours"]:
                if not self.viol:
                    self.run_family(name, fam, scs)
        if not self.viol and conc:
            conc.run(self)
        if not self.viol:
            self.known_part()

    def finish(self):
        confirmed = []
        for kind, sc, fam, detail in self.viol[:6]:
            if fam is None:     # found by the concurrency part, which confirms itself
                confirmed.append((kind, sc, fam, detail))
                continue
            r = self.confirm(kind, sc, fam)
            if not r and kind == "hang":
                continue        # a slow machine
            confirmed += r or [(kind + " (not repeated)", sc, fam, detail)]
            break
        self.evidence(len(confirmed))
        if not confirmed:
            if self.viol:
                raise mbt.MachineryError("a hang did not repeat: %s" % (self.viol[0][1][0]))
            print("OK property=%s tier=%s: %d traces, %d records, %d model states, %.0f s" % (
                self.prop, self.tier, self.cov["traces_validated_against_impl"], self.cov["trace_records_checked"],
                self.cov["states"], time.time() - self.t0))
            return 0
        kind, sc, fam, detail = confirmed[0]
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", "%s-%d-%s.scn" % (self.prop, self.seed, sc[0]))
        with open(path, "w") as f:
            f.write("# props: %s\n# %s\n" % (self.prop, kind))
            f.write("# replay: python3 tools/replay.py %s\n" % path)
            for line in (detail if isinstance(detail, str) else json.dumps(detail, indent=1)).splitlines():
                f.write("# | %s\n" % line)
            f.write(mbt.scenario_text(sc) if isinstance(sc[2], list) else sc[2])
        print("%s: %s %s" % (self.prop, kind,
                             detail[-600:] if isinstance(detail, str) else [(m["i"], m["bad"]) for m in detail]))
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1

    def evidence(self, violations):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        c = self.cov
        # trace checking explores states, too
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=dict(states=c["states"] + c["trace_states"],
                                transitions=c["transitions"] + c["trace_records_checked"],
                                traces_validated_against_impl=c["traces_validated_against_impl"],
                                scenarios=c["scenarios"], models=c["models"], samples=c["samples"],
                                known_findings=self.known, **c.get("more", {})),
                  assumptions=ASSUMPTIONS, wall_s=round(time.time() - self.t0, 2), violations=violations)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


ASSUMPTIONS = [
    "the clock does not go backwards; text fields contain no NUL bytes",
    "the driver, the projection of messages to records (driver/common.cc) and TLC are right",
    "the behaviours explored: models within the constants of their configuration, scenarios as generated from the seed",
]


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = Check(prop, tier if tier in TIERS else "quick", seed)
    try:
        c.run()
        rc = c.finish()
    except mbt.MachineryError as e:
        print("CHECK FAILED (not a verdict): %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        c.work.close()
    sys.exit(rc)


if __name__ == "__main__":
    main()
