"""Rules, obligations and the runner shared by all checks."""
import hashlib, json, os, sys, time, traceback
sys.setrecursionlimit(20000)
import extract, prog as P

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

OK, BAD, UNDECIDED = "ok", "violated", "undecided"


class Ob:
    """one obligation of a rule: what must hold, where, and the verdict"""

    def __init__(self, key, status, text, where="", detail=None):
        self.key = key          # stable: no line numbers
        self.status = status
        self.text = text
        self.where = where
        self.detail = detail
        self.rule = None


RULES = []


def rule(name, props, title):
    def deco(f):
        RULES.append((name, tuple(props.split()), title, f))
        return f
    return deco


def parallel(fs):
    """run the functions in forked children; their (picklable) results in order.  A child that dies yields None"""
    import pickle
    kids = []
    for f in fs:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                try:
                    x = ("ok", f())
                except Exception:
                    x = ("exc", traceback.format_exc())
                with os.fdopen(w, "wb") as o:
                    pickle.dump(x, o)
            finally:
                os._exit(0)
        os.close(w)
        kids.append((pid, r))
    out = []
    for pid, r in kids:
        with os.fdopen(r, "rb") as i:
            d = i.read()
        os.waitpid(pid, 0)
        out.append(pickle.loads(d) if d else ("exc", "analysis process died"))
    return out


class Ctx:
    def __init__(self, tier="quick"):
        self.tier = tier
        self.dump = extract.dump()
        self.p = P.Prog(self.dump)
        self.memo = {}
        self.stats = {}

    def once(self, key, f):
        if key not in self.memo:
            self.memo[key] = f()
        return self.memo[key]

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n


def known():
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f):
        return []
    return json.load(open(f))["findings"]


LEVELS = {}


def run(prop, tier, seed, level, note):
    t0 = time.time()
    try:
        ctx = Ctx(tier)
    except extract.ExtractError as x:
        print("ERROR: %s" % x)
        return 2
    rules = [r for r in RULES if prop in r[1]]
    obs = []
    per = {}
    for name, props, title, f in rules:
        t = time.time()
        got = []
        try:
            for o in f(ctx, prop):
                o.rule = name
                got.append(o)
        except Exception:
            o = Ob("%s/internal" % name, UNDECIDED, "the rule could not be evaluated: " + traceback.format_exc().splitlines()[-1][:300])
            o.detail = traceback.format_exc()
            o.rule = name
            got.append(o)
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
        seen = {}
        for o in got:
            k = o.key
            if k in seen and seen[k].status == BAD:
                continue
            if k in seen and o.status == OK:
                continue
            if k in seen and seen[k].status == UNDECIDED and o.status != BAD:
                continue
            seen[k] = o
        obs += seen.values()
        per[name] = {"rule": title, "obligations": len(seen), "discharged": sum(o.status == OK for o in seen.values()),
                     "undecided": [o.text[:200] for o in seen.values() if o.status == UNDECIDED][:10],
                     "seconds": round(time.time() - t, 2)}
    bad = [o for o in obs if o.status == BAD]
    listed = [k for k in known() if k["property"] == prop and k.get("status") == "known"]
    new = []
    hits = set()
    for o in bad:
        for k in listed:
            if k["key"] == o.key:
                hits.add(k["key"])
                break
        else:
            new.append(o)
    for k in listed:
        if k["key"] in hits:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    rc = 0
    rdir = os.path.join(VERIF, "evidence", "replay")
    for o in new:
        os.makedirs(rdir, exist_ok=True)
        h = hashlib.sha256(o.key.encode()).hexdigest()[:12]
        path = os.path.join(rdir, "%s-%s.json" % (prop, h))
        json.dump({"property": prop, "rule": o.rule, "key": o.key, "what": o.text, "where": o.where, "detail": o.detail}, open(path, "w"), indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  [%s] %s%s" % (o.rule, o.text, (" at " + str(o.where)) if o.where else ""))
        rc = 1
    und = [o for o in obs if o.status == UNDECIDED]
    for o in und:
        print("undecided [%s] %s %s" % (o.rule, o.key, o.text[:240]))
    n = len(obs)
    dis = sum(o.status == OK for o in obs)
    cov = {
        "explanation": note,
        "obligations": n,
        "discharged": dis,
        "undecided": len(und),
        "known_findings": len(hits),
        "violations": len(new),
        "checker_cmd": "python3 check.py %s" % prop,
        "trusted_base": ["rustc nightly front end and MIR construction", "driver/ (MIR dump)", "analysis/ (abstract interpreter and its library models)"],
        "functions_analysed": len(ctx.p.bodies),
        "source_hash": extract.src_hash(),
        "rules": per,
        "samples": [{"rule": o.rule, "obligation": o.text[:300], "where": str(o.where), "verdict": o.status} for o in obs[:40]],
    }
    cov.update(ctx.stats)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(time.time() - t0, 2)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1, default=str)
    if not n:
        print("ERROR: no obligation was generated")
        return 2
    print("%s: %d obligations, %d discharged, %d undecided, %d known findings, %d violations (%.1f s)" % (prop, n, dis, len(und), len(hits), len(new), time.time() - t0))
    return rc
