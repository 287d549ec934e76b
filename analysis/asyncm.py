"""Models of the asynchronous world: futures, channels, the set of in-flight evaluations.

A coroutine is run from its start to its end when it is polled; suspension points inside it only
matter through the ghost state (what was polled, signalled, started since), kept in ghost cells.
`Pending` results that leave the state unchanged lead back to the same poll and are dropped."""
from terms import *
from terms import T_, T
import engine as E
from engine import *
import models as M
from models import D, ppx, MODELS

OVR = {}
READYV = 0


def ovr(*keys):
    def deco(f):
        for k in keys:
            OVR[k] = f
        return f
    return deco


def gcell(n):
    return T_("g", n)


def G(st, n, d=None):
    return st.cells.get(gcell(n), d)


def setg(st, n, v):
    st.cells[gcell(n)] = v
    st._k = None


def FUT(kind, *fs):
    return T_("V", "fut:" + kind, 0, tuple(fs))


def CH(kind, *fs):
    return T_("V", "chan:" + kind, 0, tuple(fs))


def PENDING():
    return T_("V", POLL, 1, ())


def peel(eng, st, v):
    """the value behind references, pins and options of pins"""
    v = eng.deref_all(st, v)
    return v


ident_keys = ("FutureExt::fuse", "StreamExt::fuse", "FutureExt::boxed", "FutureExt::boxed_local", "FutureExt::poll_unpin_")


@ovr("FutureExt::fuse", "StreamExt::fuse", "FutureExt::boxed", "FutureExt::boxed_local", "StreamExt::by_ref", "FusedFuture::into", "TryFutureExt::into_future")
def _(eng, st, a, info):
    return [(st, a[0])]


@ovr("future::poll_fn", "poll_fn::poll_fn")
def _(eng, st, a, info):
    return [(st, FUT("pollfn", a[0]))]


@ovr("future::get_context", "task::Context::from_waker")
def _(eng, st, a, info):
    return [(st, T_("vol", "ctx"))]


@ovr("support::poll_budget_available", "support::poll_proceed", "coop::poll_budget_available")
def _(eng, st, a, info):
    return [(st, READY(UNIT))]


@ovr("support::thread_rng_n")
def _(eng, st, a, info):
    n = lin_of(D(eng, st, a[0]))
    y = eng.sym(ppx(info, "rngn"), "u", ("rngn",))
    eng.add_ge(st, lin_of(y))
    eng.add_ge(st, ladd(lsub(n, lin_of(y)), I(-1)))
    if isconst(n) and cval(n) <= 4:
        out = []
        for i in range(cval(n)):
            s = st.copy()
            out.append((s, I(i)))
        return out
    return [(st, lin_of(y))]


@ovr("random::shuffle", "async_await::shuffle")
def _(eng, st, a, info):
    """the order in which the branches of a select are polled: any"""
    import itertools
    import proc
    v = eng.deref_all(st, a[0])
    if v.tag != "coll" or a[0].tag != "ref" or len(v.a[1]) > 4 or any(x.tag != "one" for x in v.a[1]):
        return None
    out = []
    for q in itertools.permutations(v.a[1]):
        s = st.copy()
        proc.setref(eng, s, a[0], COLL(v.a[0], tuple(q), v.a[2]))
        out.append((s, UNIT))
    return out


@ovr("Poll::map")
def _(eng, st, a, info):
    out = []
    for s, d in eng.split_disc(st, a[0], POLL):
        if d == 1:
            out.append((s, PENDING()))
        else:
            out += [(s2, READY(r)) for s2, r in M.call(eng, s, a[1], (fld(a[0], 0, 0) if a[0].tag != "V" else a[0].a[2][0],), info.pp + ("pm",))]
    return out


@ovr("future::ready", "ready::ready")
def _(eng, st, a, info):
    return [(st, FUT("ready", a[0]))]


@ovr("future::pending", "pending::pending")
def _(eng, st, a, info):
    return [(st, FUT("never"))]


def run_cor(eng, st, c, pp):
    """run a coroutine value to completion: [(state, result)]"""
    body = eng.p.bodies.get(c.a[0])
    if body is None:
        raise EngineLimit("coroutine without body: %s" % c.a[0])
    fid = T_("fr", pp[0], pp[1:] + (c.a[0],))
    ty = body.ltys[1]
    args = (c, T_("vol", "ctx"))[:body.argc]
    if ty.tag in ("ref",) or (ty.tag == "adt" and ty.a[0].endswith("Pin")):
        tmp = T_("tmpc", fid)
        st.cells[tmp] = c
        args = (T_("ref", tmp, ()),) + args[1:]
    return eng.run_fn(st, c.a[0], c.a[1], args, fid)


def poll_value(eng, st, v, pp):
    """[(state, None | value)] : pending or ready"""
    v0 = v
    v = eng.deref_all(st, v)
    if v.tag == "cor":
        return [(s, r) for s, r in run_cor(eng, st, v, pp + ("poll",))]
    if v.tag == "V" and v.a[0] == "fut:pollfn":
        out = []
        h = getattr(eng, "poll_start_hook", None)
        if h is not None:
            h(st)
        k0 = frozenset((c, x) for c, x in st.cells.items() if c.tag != "tmpc")
        u = getattr(eng, "unroll", None)
        f = v.a[2][0]
        if u is not None:
            fv = eng.deref_all(st, f)
            if fv.tag == "clo":
                u.add(fv.a[0])
        for s, r in eng.call_closure(st, f, (T_("vol", "ctx"),), pp + ("pf",)):
            r = eng.deref_all(s, r)
            if r.tag == "V" and r.a[0] == POLL:
                if r.a[1] == 0:
                    out.append((s, r.a[2][0]))
                else:
                    h = getattr(eng, "poll_pending_hook", None)
                    if h is not None:
                        h(s)
                    k1 = frozenset((c, x) for c, x in s.cells.items() if c.tag != "tmpc")
                    if not eng.same_pending(k0, k1):
                        out.append((s, None))
                continue
            for s2, d in eng.split_disc(s, r, POLL):
                out.append((s2, fld(r, 0, 0) if d == 0 else None))
        return out
    if v.tag == "V" and v.a[0] == "fut:ready":
        return [(st, v.a[2][0])]
    if v.tag == "V" and v.a[0] == "fut:never":
        return []
    h = eng.futs.get(v.a[0]) if v.tag == "V" else None
    if h is not None:
        return h(eng, st, v, pp)
    eng.unknown["poll of " + show(v)[:60]] = 1
    return [(st, eng.sym(pp + ("poll",), ("unk", "poll")))]


@ovr("Future::poll", "FutureExt::poll_unpin")
def _(eng, st, a, info):
    out = []
    for s, r in poll_value(eng, st, a[0], info.pp):
        out.append((s, PENDING() if r is None else READY(r)))
    return out


def map_fut(kind):
    def h(eng, st, a, info):
        return [(st, FUT(kind, *a))]
    return h


OVR["StreamExt::next"] = map_fut("next")
OVR["TryStreamExt::try_next"] = map_fut("try_next")
OVR["StreamExt::select_next_some"] = map_fut("next_some")
OVR["SinkExt::send"] = map_fut("send")
OVR["SinkExt::feed"] = map_fut("send")
OVR["FutureExt::map"] = map_fut("map")


def fut_map(eng, st, v, pp):
    out = []
    for s, r in poll_value(eng, st, v.a[2][0], pp + ("m",)):
        if r is None:
            out.append((s, None))
        else:
            out += M.call(eng, s, v.a[2][1], (r,), pp + ("mf",))
    return out


FUTS = {"fut:map": fut_map}


def base_engine(prog, dom=None):
    e = Engine(prog, dom)
    e.unroll = set()
    e.futs = dict(FUTS)
    e.overrides = dict(OVR)
    e.same_pending = lambda k0, k1: k0 == k1
    e.yields = 0
    return e
