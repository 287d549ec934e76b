"""Effect rules: sources of nondeterminism and effects of logging, over the call graph and the MIR of every body."""
import re
from terms import *
from terms import T_, T
import ctrl
from core import rule, Ob, OK as GOOD, BAD, UNDECIDED
from rules_ops import short, loc

LAUNCH = ("cambrian::process", "cambrian::sync_launch", "cambrian::async_launch", "cambrian::termination")


def types_in(t, out=None):
    if out is None:
        out = set()
    if isinstance(t, T):
        if t in out:
            return out
        out.add(t)
        for x in t.a:
            types_in(x, out)
    elif isinstance(t, (tuple, list)):
        for x in t:
            types_in(x, out)
    return out


def adts_in(t):
    return {x.a[0] for x in types_in(t) if x.tag in ("adt", "fndef", "closure") and x.a and isinstance(x.a[0], str)}


def root_of(b):
    return re.sub(r"(::\{closure#\d+\})+$", "", b)


def is_lib(p, b):
    """bodies of the library crate (the binary's own functions live at the crate root)"""
    return b.startswith("cambrian::") and (root_of(b).count("::") > 1 or b.startswith("cambrian::{impl"))


def regions(ctx):
    """(decision bodies: everything the search itself can run, launcher bodies)"""
    def go():
        p = ctx.p
        es = ctrl.entry_of(p)
        core = p.reach(es + [b for b in p.bodies if b.startswith(("cambrian::spec_util::", "cambrian::value_util::", "cambrian::algorithm::", "cambrian::meta_adapt::"))])
        launch = p.reach([b for b in p.bodies if b.startswith(LAUNCH) or not is_lib(p, b)]) - core
        dec = [b for b in p.bodies if is_lib(p, b) and b not in launch]
        return sorted(dec), sorted(b for b in p.bodies if is_lib(p, b) and b in launch)
    return ctx.once("regions", go)


BANNED = [
    (r"(^|::)thread_rng$|rand::random$|from_entropy$|SeedableRng::from_os_rng$|OsRng|getrandom|ThreadRng|rand::rng$|from_rng$", "operating-system randomness"),
    (r"^std::env::", "the process environment"),
    (r"process::id$|thread::current$|ThreadId|available_parallelism|num_cpus|thread::(spawn|scope)", "the process or thread identity or the machine"),
    (r"SystemTime(::|>::)now$", "the wall clock"),
    (r"^std::fs::|^tokio::fs::|^std::net::|^std::io::stdin", "the file system or other external input"),
]
TIME = r"SystemTime|UNIX_EPOCH|time::Instant$"
RSTATE = "RandomState"
ITERATE = {"iter", "iter_mut", "keys", "values", "values_mut", "drain", "into_iter", "into_keys", "into_values", "retain", "extract_if", "fmt", "serialize", "union", "intersection", "difference", "symmetric_difference", "into_iter_sorted"}
CELLS = re.compile(r"(::|^)(Atomic([A-Z]\w*)?|Mutex|RwLock|RefCell|Cell|UnsafeCell|OnceCell|OnceLock|LazyCell|Condvar|SyncUnsafeCell)$")


def calls(body):
    for i, bl in enumerate(body.blocks):
        if not bl.cleanup and bl.tm["t"] == "call":
            yield i, bl.tm


def callee(p, tm):
    f = tm["f"]
    d = f.get("rfn") or f.get("fn")
    return d


def cname(p, d):
    df = p.defs.get(d) or {}
    return df.get("name") or d


def where(p, b, tm):
    return "%s (%s)" % (short(b), loc(tm.get("sp", "")) if not re.match(r".*:\d+:\d+", str(tm.get("sp", ""))) else str(tm.get("sp")))


def name_of(p, d):
    return re.sub(r"::<.*?>", "", str(cname(p, d) or d))


def has_type(tys, pat):
    return any(re.search(pat, a) for a in set().union(set(), *[adts_in(t) for t in tys]))


@rule("deterministic", "C09", "effect analysis over the call graph: nothing the search decides on comes from randomness, time, addresses, hash seeds, the environment or state shared between runs")
def _(ctx, prop):
    p = ctx.p
    dec, launch = regions(ctx)
    ctx.stats["decision_functions"] = len(dec)
    ctx.stats["launcher_functions"] = len(launch)
    es = ctrl.entry_of(p)
    creach = p.reach(es)
    ncall = 0
    for b in dec + launch:
        body = p.bodies[b]
        indec = b in set(dec)
        key = short(root_of(b))
        bad = 0
        for i, tm in calls(body):
            d = callee(p, tm)
            if d is None:
                continue
            ncall += 1
            nm = name_of(p, d)
            both = (nm, d)
            for pat, what in BANNED:
                if any(re.search(pat, x) for x in both):
                    if what.startswith("the file system") and not indec:
                        continue
                    bad += 1
                    yield Ob("nondet/%s/%s" % (key, nm.split("::")[-1]), BAD, "%s uses %s: %s" % (key, what, nm), where(p, b, tm))
            targs = list(tm["f"].get("args") or ()) + list(tm.get("aty") or ())
            if has_type(targs[:1], r"(ThreadRng|OsRng|SmallRng)$") or (d.endswith("sample") and has_type(targs, r"(ThreadRng|OsRng)$")):
                bad += 1
                yield Ob("nondet/%s/rng" % key, BAD, "%s draws from a random generator that is not seeded: %s" % (key, nm), where(p, b, tm))
            last = nm.split("::")[-1]
            # randomly seeded hashing
            if indec or b in creach:
                hashed = lambda ts: any(RSTATE in a for t in ts for a in adts_in(t)) and has_type(list(ts), r"(HashMap|HashSet|Drain|Iter|Keys|Values)$")
                aty = list(tm.get("aty") or ())
                if True:
                    if last in ITERATE and hashed(aty[:1]) or last in ("extend", "zip", "chain", "from_iter") and hashed(aty[1:] if last != "from_iter" else aty) or re.search(r"build_hasher$|hash_one$", last) and any(RSTATE in a for t in targs for a in adts_in(t)):
                        bad += 1
                        yield Ob("nondet/%s/hash-order" % key, BAD, "%s depends on the order of a randomly seeded hash table: %s" % (key, nm), where(p, b, tm))
                if re.search(r"fmt::Pointer", d) or "new_pointer" in d:
                    bad += 1
                    yield Ob("nondet/%s/address" % key, BAD, "%s uses an address" % key, where(p, b, tm))
            if b in creach and re.search(r"thread_rng_n$|random::shuffle$", d):
                bad += 1
                yield Ob("nondet/%s/select" % key, BAD, "%s picks a ready branch at random" % key, where(p, b, tm))
        for bl in body.blocks:
            if bl.cleanup:
                continue
            for s in bl.st:
                v = s.get("v")
                if isinstance(v, dict) and v.get("r") == "cast" and "Expose" in str(v.get("ck") or v.get("k") or v.get("ak") or ""):
                    bad += 1
                    yield Ob("nondet/%s/address" % key, BAD, "%s turns an address into a number" % key, str(s.get("sp")))
        # state that outlives a run
        for t, sp in const_types(body):
            if t.tag == "ptr" or any(a.endswith("LocalKey") for a in adts_in(t)):
                bad += 1
                yield Ob("nondet/%s/static" % key, BAD, "%s uses mutable state shared between runs (%s)" % (key, t), sp)
        if not bad and root_of(b) == b:
            yield Ob("nondet/%s" % key, GOOD, "%s uses no source of nondeterminism" % key, key)
    for b, body in p.bodies.items():
        if "Static" in str(body.kind) and b.startswith("cambrian::"):
            t = body.ltys[0]
            cell = sorted(a for a in adts_in(t) if CELLS.search(a))
            k = short(b)
            if cell:
                yield Ob("nondet/static/%s" % k, BAD, "static %s holds state that is shared between runs (%s)" % (k, cell[0]), k)
            else:
                yield Ob("nondet/static/%s" % k, GOOD, "static %s is immutable (or initialised once by a function of nothing)" % k, k)
    for b, what, sp in clock_taint(p, set(dec) | {x for x in creach if x in p.bodies and is_lib(p, x)}):
        yield Ob("nondet/%s/clock" % short(root_of(b)), BAD, "%s %s" % (short(root_of(b)), what), sp)
    yield Ob("nondet/clock", GOOD, "no decision or seed of the search depends on elapsed time")
    ctx.stats["call_sites"] = ncall
    # the generator that decides: seeded by a value no banned source can reach
    seeds = [(b, tm) for b in dec for i, tm in calls(p.bodies[b]) if re.search(r"SeedableRng::(seed_from_u64|from_seed)$", name_of(p, tm["f"].get("fn") or "") + "|" + str(tm["f"].get("fn")).replace("rand_core::", "")) or str(tm["f"].get("fn")).endswith(("::seed_from_u64", "::from_seed"))]
    if seeds:
        yield Ob("nondet/seeded", GOOD, "random generators are created from fixed seeds", "; ".join(where(p, b, tm) for b, tm in seeds))
    else:
        yield Ob("nondet/seeded", UNDECIDED, "no seeded random generator found")


FMT = re.compile(r"::fmt$|::serialize$|::to_csv_row$|::csv_header$")


def clock_taint(p, bodies):
    """values computed from clocks and durations, followed through locals, arguments and results; reports switches on
    them and seeds made from them"""
    params, rets = {}, set()
    res = {}
    def fmtlike(b):
        tr = str((p.defs.get(root_of(b)) or {}).get("trait") or "")
        return bool(re.search(r"::fmt(::\{closure#\d+\})*$|::serialize(::\{closure#\d+\})*$", b))
    work = sorted(bodies)
    for _ in range(12):
        changed = False
        for b in work:
            body = p.bodies.get(b)
            if body is None or fmtlike(b) or (p.defs.get(b) or {}).get("derived"):
                continue
            t = set(params.get(b, ()))
            for _i in range(20):
                n = len(t)
                for bl in body.blocks:
                    if bl.cleanup:
                        continue
                    for s in bl.st:
                        if s["s"] == "=" and any(q[0] in t for q in places(s.get("v"))):
                            t.add(s["p"][0])
                    tm = bl.tm
                    if tm["t"] == "call" and tm.get("dst"):
                        at = list(tm.get("aty") or ())
                        d = callee(p, tm)
                        if d in rets or any(direct_time([x]) for x in at) and not direct_time([tm.get("dty")]):
                            if not unitty(tm.get("dty")) and prim(tm.get("dty")):
                                t.add(tm["dst"][0])
                        elif any(q[0] in t for a in tm["args"] for q in places([a])) and prim(tm.get("dty")):
                            t.add(tm["dst"][0])
                if len(t) == n:
                    break
            if 0 in t and prim(body.ltys[0]) and b not in rets:
                rets.add(b)
                changed = True
            for bl in body.blocks:
                tm = bl.tm
                if bl.cleanup:
                    continue
                if tm["t"] == "call":
                    d = callee(p, tm)
                    if d in p.bodies:
                        for k, a in enumerate(tm["args"]):
                            if any(q[0] in t for q in places([a])):
                                s2 = params.setdefault(d, set())
                                if k + 1 not in s2:
                                    s2.add(k + 1)
                                    changed = True
                    elif re.search(r"seed_from_u64$|from_seed$", str(d)) and any(q[0] in t for a in tm["args"] for q in places([a])):
                        res[(b, "seed")] = (b, "seeds a random generator from the clock", str(tm.get("sp")))
                elif tm["t"] == "switch" and any(q[0] in t for q in places(tm)):
                    res[(b, "switch")] = (b, "decides on elapsed time", str(tm.get("sp")))
        if not changed:
            break
    return [res[k] for k in sorted(res)]


def prim(t):
    """numbers, booleans, orderings and options of them"""
    if not isinstance(t, T):
        return False
    if t.tag in ("bool", "int", "uint", "float", "char"):
        return True
    if t.tag == "ref":
        return prim(t.a[0])
    if t.tag == "adt":
        return bool(re.search(r"(Ordering|Option|Wrapping|FiniteF64)$", t.a[0])) and not any(re.search(r"(Duration|Instant)$", a) for a in adts_in(t))
    return False


def direct_time(ts):
    for t in ts:
        while isinstance(t, T) and t.tag == "ref":
            t = t.a[0]
        if isinstance(t, T) and t.tag == "adt" and re.search(r"(time::Duration|time::Instant)$", t.a[0]):
            return True
    return False


def const_types(body):
    for bl in body.blocks:
        if bl.cleanup:
            continue
        for s in bl.st:
            v = s.get("v")
            for o in operands(v):
                if o.get("o") == "const" and isinstance(o.get("v"), dict) and "static" in o["v"]:
                    yield o["ty"], str(s.get("sp"))
        if bl.tm["t"] == "call":
            for o in bl.tm["args"]:
                if o.get("o") == "const" and isinstance(o.get("ty"), T) and any(a.endswith("LocalKey") for a in adts_in(o["ty"])):
                    yield o["ty"], str(bl.tm.get("sp"))
        for s in bl.st:
            for o in operands(s.get("v")):
                if o.get("o") == "const" and isinstance(o.get("ty"), T) and o["ty"].tag in ("adt", "ref") and any(a.endswith("LocalKey") for a in adts_in(o["ty"])):
                    yield o["ty"], str(s.get("sp"))


def operands(v):
    if isinstance(v, dict):
        if "o" in v:
            yield v
        for k, x in v.items():
            if isinstance(x, (dict, list)):
                yield from operands(x)
    elif isinstance(v, list):
        for x in v:
            yield from operands(x)


# ---- logging ---------------------------------------------------------------------------------------
def dominators(body):
    n = len(body.blocks)
    rpo = list(body.rpo)
    pos = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in body.succ[b]:
            if s in preds:
                preds[s].append(b)
    idom = {rpo[0]: rpo[0]}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [q for q in preds[b] if q in idom]
            if not ps:
                continue
            x = ps[0]
            for q in ps[1:]:
                y = q
                while x != y:
                    while pos[x] > pos[y]:
                        x = idom[x]
                    while pos[y] > pos[x]:
                        y = idom[y]
            if idom.get(b) != x:
                idom[b] = x
                ch = True
    return idom, preds


def dom_set(idom, root, b):
    x = b
    while True:
        if x == root:
            return True
        if idom.get(x, x) == x:
            return False
        x = idom[x]


def log_regions(p, body):
    """block sets executed only when a log level is enabled"""
    idom, preds = dominators(body)
    out = []
    for i, tm in calls(body):
        if str(tm["f"].get("fn")) != "log::max_level":
            continue
        # follow the level to the comparison and the switch on it
        j = tm["to"]
        hops = 0
        while j is not None and hops < 6:
            t = body.blocks[j].tm
            if t["t"] == "switch":
                for v, tgt in t["tgts"] if "tgts" in t else []:
                    pass
                break
            j = t.get("to")
            hops += 1
        if j is None or body.blocks[j].tm["t"] != "switch":
            continue
        for tgt in set(body.succ[j]):
            if len(preds.get(tgt, ())) == 1:
                reg = {b for b in body.rpo if dom_set(idom, tgt, b)}
                # the enabled side is the one that calls into the log crate
                if any(str(body.blocks[b].tm["f"].get("fn", "")).startswith("log::__private_api") or "log" in str(body.blocks[b].tm["f"].get("fn", "")).split("::")[0] for b in reg if body.blocks[b].tm["t"] == "call"):
                    out.append((i, reg, tm))
                else:
                    out.append((i, reg, tm))
    return out


def places(x):
    if isinstance(x, dict):
        if "p" in x and isinstance(x["p"], tuple):
            yield x["p"]
        for k, v in x.items():
            if k == "dst" and isinstance(v, tuple):
                yield v
            if isinstance(v, (dict, list)):
                yield from places(v)
    elif isinstance(x, list):
        for v in x:
            yield from places(v)


def region_effects(p, body, reg):
    """mutations of anything that exists outside the region"""
    outside = set(range(0, body.argc + 1))
    for b in body.rpo:
        if b in reg:
            continue
        bl = body.blocks[b]
        for s in bl.st:
            if s["s"] != "dead":
                outside |= {q[0] for q in places(s)}
        outside |= {q[0] for q in places(bl.tm)}
    for b in reg:
        bl = body.blocks[b]
        for s in bl.st:
            if s["s"] != "=":
                continue
            dst = s["p"]
            if dst[0] in outside and not (body.ltys[dst[0]].tag == "tuple" and not body.ltys[dst[0]].a[0]):
                yield "assigns %s" % (body.lnames[dst[0]] or "a value used outside"), s.get("sp")
            v = s.get("v")
            if isinstance(v, dict) and v.get("r") == "ref" and v.get("mut"):
                q = v["p"]
                if q[0] in outside:
                    yield "mutably borrows %s" % (body.lnames[q[0]] or "a value that exists outside"), s.get("sp")
        tm = bl.tm
        if tm["t"] == "call":
            q = tm.get("dst")
            if q and q[0] in outside and not unitty(tm.get("dty")):
                yield "assigns %s" % (body.lnames[q[0]] or "a value used outside"), tm.get("sp")
        elif tm["t"] == "yield":
            yield "suspends", tm.get("sp")


def unitty(t):
    return isinstance(t, T) and t.tag in ("tuple", "tup") and not t.a[0]


@rule("log-effects", "C15 C09", "dominator analysis: code that only runs when a log level is enabled changes nothing that exists outside it")
def _(ctx, prop):
    p = ctx.p
    n = 0
    for b, body in p.bodies.items():
        if not is_lib(p, b):
            continue
        rs = log_regions(p, body)
        key = short(root_of(b))
        bad = False
        for i, reg, tm in rs:
            n += 1
            # the side of the switch that is not logging joins the rest: effects there are ordinary code
            if not any(str(body.blocks[x].tm["f"].get("fn", "")).startswith("log::") for x in reg if body.blocks[x].tm["t"] == "call"):
                continue
            for what, sp in region_effects(p, body, reg):
                bad = True
                yield Ob("log/%s/%s" % (key, what), BAD, "%s %s only when logging is enabled" % (key, what), str(sp))
        if rs and not bad:
            yield Ob("log/%s" % key, GOOD, "logging in %s has no effect on the search" % key, key)
    ctx.stats["log_statements"] = n
