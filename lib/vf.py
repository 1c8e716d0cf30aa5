"""Check driver: obligations, known findings, evidence, exit status."""
import json
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.txt")


class Floor(Exception):
    pass


class Check:
    def __init__(self, prop, rule, explanation, trusted=None):
        self.prop = prop
        self.rule = rule
        self.explanation = explanation
        self.trusted = trusted or []
        self.obl = {}              # key -> (ok, where, msg)
        self.counts = {}
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in sys.argv:
            self.tier = sys.argv[sys.argv.index("--tier") + 1]
        self.samples = []

    # -- obligations
    def ok(self, key, sample=None):
        if key not in self.obl:
            self.obl[key] = (True, None, None)
        if sample and len(self.samples) < 12:
            self.samples.append("%s: %s" % (key, sample))

    def fail(self, key, where, msg):
        o = self.obl.get(key)
        if o is None or o[0]:
            self.obl[key] = (False, where, msg)

    def expect(self, cond, key, where, msg, sample=None):
        if cond:
            self.ok(key, sample)
        else:
            self.fail(key, where, msg)
        return cond

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, n):
        """fewer instances than confirmed by hand: the rule would pass vacuously"""
        have = self.counts.get(name, 0)
        if have < n:
            self.fail("floor:" + name, "analysis", "only %d instances of '%s' were found; at least %d exist in the confirmed tree" % (have, name, n))

    def parallel(self, fn, n=8):
        """fn(check, i, n) in n processes, each of which does its share; what they establish is gathered here"""
        import pickle
        kids = []
        for i in range(n):
            r, w = os.pipe()
            pid = os.fork()
            if not pid:
                code = 0
                try:
                    sub = Check(self.prop, self.rule, self.explanation)
                    try:
                        fn(sub, i, n)
                        msg = (sub.obl, sub.counts, sub.samples)
                    except BaseException as ex:
                        traceback.print_exc()
                        msg = "%s: %s" % (type(ex).__name__, str(ex)[:400])
                    with os.fdopen(w, "wb") as f:
                        pickle.dump(msg, f)
                    sys.stdout.flush()
                    sys.stderr.flush()
                finally:
                    os._exit(code)
            os.close(w)
            kids.append((pid, r))
        bad = None
        for pid, r in kids:
            with os.fdopen(r, "rb") as f:
                d = f.read()
            os.waitpid(pid, 0)
            try:
                m = pickle.loads(d)
            except Exception:
                m = "a part of the analysis ended without a result"
            if isinstance(m, str):
                bad = m
                continue
            for k, (o, w, t) in m[0].items():
                if o:
                    self.ok(k)
                else:
                    self.fail(k, w, t)
            for k, v in m[1].items():
                self.count(k, v)
            self.samples = (self.samples + m[2])[:12]
        if bad:
            raise RuntimeError(bad)

    # -- finish
    def known(self):
        r = {}
        try:
            for l in open(KNOWN):
                l = l.rstrip("\n")
                if l.startswith("known: property=%s " % self.prop):
                    rest = l[len("known: property=%s " % self.prop):]
                    key, _, desc = rest.partition(" :: ")
                    if key.startswith("key="):
                        r[key[4:].strip()] = desc.strip()
        except FileNotFoundError:
            pass
        return r

    def finish(self):
        known = self.known()
        viol = []
        kf = []
        for k in sorted(self.obl):
            o, where, msg = self.obl[k]
            if not o:
                if k in known:
                    kf.append((k, known[k]))
                else:
                    viol.append((k, where, msg))
        n = len(self.obl)
        d = sum(1 for o in self.obl.values() if o[0])
        if n == 0:
            viol.append(("empty", "analysis", "no obligation was generated"))
        ev = {"property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
              "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
              "coverage": {"explanation": self.explanation, "rule": self.rule, "obligations": n, "discharged": d,
                           "known_findings": len(kf), "analysed": self.counts,
                           "samples": self.samples or sorted(self.obl)[:8]},
              "assumptions": self.trusted,
              "wall_s": round(time.time() - self.t0, 2),
              "violations": len(viol)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        path = os.path.join(ROOT, "evidence", self.prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.replace(path + ".tmp", path)
        rp = os.path.join(ROOT, "evidence", self.prop + ".report.txt")
        with open(rp, "w") as f:
            for k, w, m in viol:
                f.write("%s\n  at %s\n  %s\n" % (k, w, m))
        print("%s: %d obligations, %d discharged, %d known; %s; %.1fs" % (
            self.prop, n, d, len(kf), ", ".join("%s=%d" % x for x in sorted(self.counts.items())), time.time() - self.t0))
        for k, desc in kf:
            print("KNOWN-FINDING: property=%s %s %s" % (self.prop, k, desc))
        for k, w, m in viol[:6]:
            print("  [%s] %s: %s" % (k, w, str(m)[:700]))
        if len(viol) > 6:
            print("  ... %d more in %s" % (len(viol) - 6, rp))
        if viol:
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        return 0


def main(make):
    """make() -> Check after running its rules; any failure of the analysis is a violation"""
    sys.setrecursionlimit(20000)
    ck = None
    try:
        ck = make()
    except SystemExit:
        raise
    except BaseException as ex:          # undecided is not a pass
        from_ck = getattr(ex, "_ck", None)
        traceback.print_exc()
        sys.stderr.flush()
        prop = os.environ.get("VERIF_PROP", "?")
        ck = Check(prop, "analysis must complete", "the analysis did not complete")
        ck.fail("analysis", "%s" % type(ex).__name__, "the current source could not be analysed: %s" % (str(ex)[:400]))
    sys.exit(ck.finish())
