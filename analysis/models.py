"""Models of the library functions the analysed crate calls (standard collections, iterators,
options/results, strings, random distributions, JSON/YAML values)."""
import math, re
from terms import *
from terms import T_, T
import engine as E
from engine import (NOT, GE0, EQ0, V, NONE, SOME, OK, ERR, OPT, RES, CF, POLL, LEN, COLL, ONE, ALL, ALT, NOKEY, FC, fcv, SKIP, INF, FMAX,
                    EngineLimit, INTR, BV, bound_level, _meet, _peel)

MODELS = {}
CONSTS = {
    "f64::INFINITY": FC(math.inf), "f64::NEG_INFINITY": FC(-math.inf), "f64::NAN": FC(math.nan), "f64::MAX": FC(FMAX), "f64::MIN": FC(-FMAX),
    "f64::EPSILON": FC(2.0 ** -52), "f64::MIN_POSITIVE": FC(2.2250738585072014e-308), "consts::PI": FC(math.pi), "consts::E": FC(math.e),
}
for _n, (_a, _b) in INTR.items():
    CONSTS[_n + "::MAX"] = I(_b)
    CONSTS[_n + "::MIN"] = I(_a)
FINT = {}
ATOM_FACTS = {}
LEN_FACTS = {}
INJECTIVE = {"dec", "jsonstr", "i2f_exact", "string_of"}
ON_ASSUME = {}


def model(*keys):
    def deco(f):
        for k in keys:
            MODELS[k] = f
        return f
    return deco


def ident(*keys):
    for k in keys:
        MODELS[k] = lambda eng, st, a, info: [(st, a[0])]


def D(eng, st, t):
    return eng.deref_all(st, t)


def ppx(info, *k):
    return info.pp + k


def call(eng, st, f, args, pp):
    """call a function value with the given arguments"""
    g = D(eng, st, f) if f.tag == "ref" else f
    if g.tag == "clo":
        return eng.call_closure(st, f, tuple(args), pp)
    if g.tag == "fn":
        return eng.call(st, g, tuple(args), pp, fn_ret(eng, g))
    return eng.havoc(st, "call of " + show(g)[:60], args, T_("other", "?"), pp)


def fn_ret(eng, f):
    b = eng.p.bodies.get(f.a[0])
    if b is not None:
        return eng.p.subst(b.ltys[0], f.a[1])
    return T_("other", "?")


# ---- generic case splits -----------------------------------------------------------------------

def opt_cases(eng, st, t):
    """[(state, payload or None)]"""
    t = D(eng, st, t)
    if t.tag == "V":
        return [(st, t.a[2][0] if t.a[1] == 1 else None)]
    return [(s, fld(t, 1, 0) if v == 1 else None) for s, v in eng.split_disc(st, t, OPT)]


def res_cases(eng, st, t):
    """[(state, is ok, payload)]"""
    t = D(eng, st, t)
    if t.tag == "V":
        return [(st, t.a[1] == 0, t.a[2][0])]
    return [(s, v == 0, fld(t, v, 0)) for s, v in eng.split_disc(st, t, RES)]


def is_opt(eng, t, info):
    """is the receiver an Option (otherwise a Result)?"""
    return None


def pred_cases(eng, st, p):
    """[(state, truth)]"""
    p = D(eng, st, p)
    if not eng.is_pred(p):
        return [(st, True), (st.copy(), False)]
    a, b = eng.split(st, p)
    return [(s, True) for s in a] + [(s, False) for s in b]


# ---- identities --------------------------------------------------------------------------------

ident("Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "BorrowMut::borrow_mut", "Box::new", "Box::pin", "Arc::new", "Rc::new", "Pin::new",
      "Pin::new_unchecked", "Pin::as_mut", "Pin::get_mut", "Pin::as_ref", "IntoFuture::into_future", "hint::must_use", "convert::identity", "String::as_str", "String::as_bytes",
      "str::as_bytes", "Vec::as_slice", "Vec::as_mut_slice", "String::into_bytes", "Option::as_deref_mut", "Option::as_mut", "Box::into_inner", "String::into_boxed_str",
      "Vec::into_boxed_slice", "Cow::into_owned", "OsString::as_os_str", "Box::leak", "hint::black_box", "Arc::clone", "Rc::clone", "PathBuf::as_path", "Pin::into_inner",
      "Iterator::by_ref", "Option::as_slice", "str::to_string", "Box::from", "boxed::into_vec", "[T]::into_vec", "Result::as_mut", "Rc::as_ref", "[T]::as_ref", "str::as_str", "Box::as_mut", "Box::as_ref")


@model("Clone::clone", "ToOwned::to_owned", "Option::cloned", "Option::copied", "Result::cloned", "Result::copied", "Option::as_ref", "Option::as_deref", "Result::as_ref", "Result::as_deref",
       "[T]::to_vec", "str::to_owned", "Clone::clone_from_", "str::into_owned", "Cow::into_owned", "[T]::into_vec")
def _(eng, st, a, info):
    return [(st, D(eng, st, a[0]))]


@model("Clone::clone_from")
def _(eng, st, a, info):
    eng.write(st, a[0].a[0], a[0].a[1], D(eng, st, a[1]))
    return [(st, UNIT)]


@model("Into::into", "From::from")
def _(eng, st, a, info):
    x = D(eng, st, a[0])
    dty = info.dty
    src = info.atys[0] if info.atys else None
    if src is not None:
        src = _peel(src)
    im = None
    if dty.tag == "adt":
        for imp in eng.p.impls:
            if (imp.get("trait") or "").split("::")[-1] == "From" and imp["self"].tag == "adt" and imp["self"].a[0] == dty.a[0] and src is not None:
                import prog
                if imp["targs"] and imp["targs"][-1] is src or (imp["targs"] and prog._match(imp["targs"][-1], src, {})):
                    im = imp["items"].get("from")
        if im is not None and im != info.fn and im in eng.p.bodies:
            return eng.run_fn(st, im, (), (x,), T_("fr", info.pp[0], info.pp[1:] + (im,)))
        if dty.a[0] == OPT and not (src is not None and src.tag == "adt" and src.a[0] == OPT):
            return [(st, SOME(x))]
    if src is dty:
        return [(st, x)]
    if dty.tag == "float" and src is not None and src.tag == "int":
        return [(st, FC(float(cval(x))) if x.tag == "i" and isconst(x) else T_("app", S("i2f"), x))]
    if dty.tag == "int" and src is not None and src.tag == "bool":
        return [(s, I(1 if v else 0)) for s, v in pred_cases(eng, st, x)]
    if dty.tag == "int":
        return [(st, lin_of(x))]
    if dty.tag == "adt" and dty.a[0] == "serde_json::number::Number" and src is not None and src.tag == "int":
        return [(st, T_("app", S("num_i"), lin_of(x)))]
    if dty.tag == "adt" and dty.a[0] == "alloc::string::String":
        return [(st, x)]
    if dty.tag == "adt" and dty.a[0] in ("alloc::boxed::Box", "alloc::vec::Vec", "alloc::sync::Arc", "alloc::rc::Rc"):
        return [(st, x)]
    if dty.tag == "adt" and dty.a[0] == "serde_json::value::Value":
        if src is not None and src.tag == "float":
            J = dty.a[0]
            g, b = eng.split(st, T_("fin", x))
            return [(s, V(J, eng.p.vidx(J, "Number"), T_("app", S("num_f"), x))) for s in g] + [(s, V(J, eng.p.vidx(J, "Null"))) for s in b]
        return [(st, jsonval(eng, x, src))]
    if dty.tag == "adt" and dty.a[0].startswith("std::collections") or dty.tag == "adt" and "Map" in dty.a[0]:
        return [(st, x)]
    return [(st, T_("app", S("into"), dty, x))]


def jsonval(eng, x, src):
    J = "serde_json::value::Value"
    if src is None:
        return T_("app", S("into_json"), x)
    if src.tag == "bool":
        return V(J, eng.p.vidx(J, "Bool"), x)
    if src.tag == "int":
        return V(J, eng.p.vidx(J, "Number"), T_("app", S("num_i"), lin_of(x)))
    if src.tag == "str" or (src.tag == "adt" and src.a[0].endswith("String")):
        return V(J, eng.p.vidx(J, "String"), x)
    if src.tag == "adt" and src.a[0].endswith("Vec"):
        return V(J, eng.p.vidx(J, "Array"), x)
    if src.tag == "adt" and src.a[0].endswith("Map"):
        return V(J, eng.p.vidx(J, "Object"), x)
    if src.tag == "float":
        return T_("app", S("json_f64"), x)
    return T_("app", S("into_json"), x)


@model("TryFrom::try_from", "TryInto::try_into")
def _(eng, st, a, info):
    x = D(eng, st, a[0])
    ty = info.dty.a[1][0] if info.dty.tag == "adt" and info.dty.a[1] else None
    if ty is not None and ty.tag == "int" and info.atys and _peel(info.atys[0]).tag == "int":
        lo, hi = INTR[ty.a[0]]
        x = lin_of(x)
        ft = _peel(info.atys[0]).a[0]
        flo, fhi = INTR[ft]
        p = []
        if flo < lo:
            p.append(GE0(lsub(x, I(lo))))
        if fhi > hi:
            p.append(GE0(lsub(I(hi), x)))
        if not p:
            return [(st, OK(x))]
        q = p[0] if len(p) == 1 else T_("and", *p)
        g, b = eng.split(st, q)
        return [(s, OK(x)) for s in g] + [(s, ERR(eng.sym(ppx(info, "e")))) for s in b]
    return [(st, eng.sym(info.pp))]


# ---- Default -----------------------------------------------------------------------------------

@model("Default::default")
def _(eng, st, a, info):
    t = info.dty
    r = default_of(eng, t)
    if r is not None:
        return [(st, r)]
    if t.tag == "adt":
        im = eng.p.find_impl("Default", t, "default")
        if im and im[0] in eng.p.bodies and im[0] != info.fn and not im[2].get("derived"):
            return eng.run_fn(st, im[0], tuple(im[1]), (), T_("fr", info.pp[0], info.pp[1:] + (im[0],)))
        if info.fn in eng.p.bodies:
            return None
    return [(st, eng.fresh(t, info.pp))]


def default_of(eng, t, depth=0):
    k = t.tag
    if k == "int":
        return I(0)
    if k == "bool":
        return FALSE
    if k == "float":
        return FC(0.0)
    if k == "tuple":
        fs = [default_of(eng, x) for x in t.a[0]]
        return T_("tup", tuple(fs)) if None not in fs else None
    if k == "adt":
        n = t.a[0]
        if n == OPT:
            return NONE
        if n in eng.volatile:
            return T_("vol", n)
        s = n.split("::")[-1]
        if s == "String":
            return S("")
        if s == "Vec":
            return COLL("vec", (), I(0))
        if s in ("HashMap", "BTreeMap"):
            return COLL("map" if s == "HashMap" else "bmap", (), I(0))
        if s in ("HashSet", "BTreeSet"):
            return COLL("set", (), I(0))
        if s == "PhantomData" or s == "FxHasher" or s.startswith("BuildHasher"):
            return V(n, 0)
        if n.startswith("cambrian") and depth < 4:
            im = eng.p.find_impl("Default", t, "default")
            if im and im[2].get("derived") and n in eng.p.adts and len(eng.p.adts[n]["variants"]) == 1:
                fs = [default_of(eng, eng.p._subst(ft, t.a[1]), depth + 1) for _, ft in eng.p.adts[n]["variants"][0]["fields"]]
                if None not in fs:
                    return V(n, 0, *fs)
    return None


# ---- Option / Result ---------------------------------------------------------------------------

def adt_kind(eng, st, t, info):
    t = D(eng, st, t)
    if t.tag == "V":
        return t.a[0]
    for ty in info.atys[:1]:
        ty = _peel(ty)
        if ty.tag == "adt":
            return ty.a[0]
    return OPT


@model("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err")
def _(eng, st, a, info):
    t = D(eng, st, a[0])
    adt = OPT if info.key.startswith("Option") else RES
    v = {"is_some": 1, "is_none": 0, "is_ok": 0, "is_err": 1}[info.key.split("::")[1]]
    d = eng.disc_of(st, t)
    if d is not None:
        return [(st, B(d == v))]
    eng.adt_hint[t] = adt
    return [(st, T_("isd", t, v, 2))]


@model("Option::is_some_and", "Option::is_none_or")
def _(eng, st, a, info):
    out = []
    for s, x in opt_cases(eng, st, a[0]):
        if x is None:
            out.append((s, FALSE if info.key.endswith("and") else TRUE))
        else:
            out += call(eng, s, a[1], (x,), ppx(info, "c"))
    return out


@model("Result::is_ok_and", "Result::is_err_and")
def _(eng, st, a, info):
    out = []
    for s, ok, x in res_cases(eng, st, a[0]):
        if ok != info.key.endswith("ok_and"):
            out.append((s, FALSE))
        else:
            out += call(eng, s, a[1], (x,), ppx(info, "c"))
    return out


@model("Option::unwrap", "Option::expect", "Option::unwrap_unchecked")
def _(eng, st, a, info):
    out = []
    for s, x in opt_cases(eng, st, a[0]):
        if x is None:
            eng.panic(s, info.key, None, D(eng, s, a[0]))
        else:
            out.append((s, x))
    return out


@model("Result::unwrap", "Result::expect")
def _(eng, st, a, info):
    out = []
    for s, ok, x in res_cases(eng, st, a[0]):
        if ok:
            out.append((s, x))
        else:
            eng.panic(s, info.key, None, D(eng, s, a[0]))
    return out


@model("Result::unwrap_err", "Result::expect_err")
def _(eng, st, a, info):
    out = []
    for s, ok, x in res_cases(eng, st, a[0]):
        if not ok:
            out.append((s, x))
        else:
            eng.panic(s, info.key)
    return out


@model("Option::unwrap_or", "Result::unwrap_or")
def _(eng, st, a, info):
    if info.key[0] == "O":
        return [(s, a[1] if x is None else x) for s, x in opt_cases(eng, st, a[0])]
    return [(s, x if ok else a[1]) for s, ok, x in res_cases(eng, st, a[0])]


@model("Option::unwrap_or_default", "Result::unwrap_or_default")
def _(eng, st, a, info):
    d = default_of(eng, info.dty) or eng.fresh(info.dty, info.pp)
    if info.key[0] == "O":
        return [(s, d if x is None else x) for s, x in opt_cases(eng, st, a[0])]
    return [(s, x if ok else d) for s, ok, x in res_cases(eng, st, a[0])]


@model("Option::unwrap_or_else", "Result::unwrap_or_else")
def _(eng, st, a, info):
    out = []
    if info.key[0] == "O":
        for s, x in opt_cases(eng, st, a[0]):
            out += [(s, x)] if x is not None else call(eng, s, a[1], (), ppx(info, "c"))
    else:
        for s, ok, x in res_cases(eng, st, a[0]):
            out += [(s, x)] if ok else call(eng, s, a[1], (x,), ppx(info, "c"))
    return out


def wrap(out, f):
    return [(s, f(x)) for s, x in out]


@model("Option::map")
def _(eng, st, a, info):
    out = []
    for s, x in opt_cases(eng, st, a[0]):
        out += [(s, NONE)] if x is None else wrap(call(eng, s, a[1], (x,), ppx(info, "c")), SOME)
    return out


@model("Option::inspect")
def _(eng, st, a, info):
    out = []
    for s, x in opt_cases(eng, st, a[0]):
        out += [(s, NONE)] if x is None else [(s2, SOME(x)) for s2, _ in call(eng, s, a[1], (x,), ppx(info, "c"))]
    return out


@model("Result::map")
def _(eng, st, a, info):
    out = []
    for s, ok, x in res_cases(eng, st, a[0]):
        out += [(s, ERR(x))] if not ok else wrap(call(eng, s, a[1], (x,), ppx(info, "c")), OK)
    return out


@model("Result::map_err")
def _(eng, st, a, info):
    out = []
    for s, ok, x in res_cases(eng, st, a[0]):
        out += [(s, OK(x))] if ok else wrap(call(eng, s, a[1], (x,), ppx(info, "c")), ERR)
    return out


@model("Result::inspect_err", "Result::inspect")
def _(eng, st, a, info):
    out = []
    for s, ok, x in res_cases(eng, st, a[0]):
        if ok == info.key.endswith("err"):
            out.append((s, OK(x) if ok else ERR(x)))
        else:
            out += [(s2, OK(x) if ok else ERR(x)) for s2, _ in call(eng, s, a[1], (x,), ppx(info, "c"))]
    return out


@model("Option::map_or", "Option::map_or_else")
def _(eng, st, a, info):
    out = []
    for s, x in opt_cases(eng, st, a[0]):
        if x is None:
            out += [(s, a[1])] if info.key.endswith("map_or") else call(eng, s, a[1], (), ppx(info, "d"))
        else:
            out += call(eng, s, a[2], (x,), ppx(info, "c"))
    return out


@model("Result::map_or", "Result::map_or_else")
def _(eng, st, a, info):
    out = []
    for s, ok, x in res_cases(eng, st, a[0]):
        if not ok:
            out += [(s, a[1])] if info.key.endswith("map_or") else call(eng, s, a[1], (x,), ppx(info, "d"))
        else:
            out += call(eng, s, a[2], (x,), ppx(info, "c"))
    return out


@model("Option::and_then")
def _(eng, st, a, info):
    out = []
    for s, x in opt_cases(eng, st, a[0]):
        out += [(s, NONE)] if x is None else call(eng, s, a[1], (x,), ppx(info, "c"))
    return out


@model("Result::and_then")
def _(eng, st, a, info):
    out = []
    for s, ok, x in res_cases(eng, st, a[0]):
        out += [(s, ERR(x))] if not ok else call(eng, s, a[1], (x,), ppx(info, "c"))
    return out


@model("Option::and")
def _(eng, st, a, info):
    return [(s, NONE if x is None else a[1]) for s, x in opt_cases(eng, st, a[0])]


@model("Result::and")
def _(eng, st, a, info):
    return [(s, a[1] if ok else ERR(x)) for s, ok, x in res_cases(eng, st, a[0])]


@model("Option::or")
def _(eng, st, a, info):
    return [(s, a[1] if x is None else SOME(x)) for s, x in opt_cases(eng, st, a[0])]


@model("Option::or_else")
def _(eng, st, a, info):
    out = []
    for s, x in opt_cases(eng, st, a[0]):
        out += [(s, SOME(x))] if x is not None else call(eng, s, a[1], (), ppx(info, "c"))
    return out


@model("Result::or_else", "Result::or")
def _(eng, st, a, info):
    out = []
    for s, ok, x in res_cases(eng, st, a[0]):
        out += [(s, OK(x))] if ok else ([(s, a[1])] if info.key.endswith("::or") else call(eng, s, a[1], (x,), ppx(info, "c")))
    return out


@model("Option::xor")
def _(eng, st, a, info):
    out = []
    for s, x in opt_cases(eng, st, a[0]):
        for s2, y in opt_cases(eng, s, a[1]):
            out.append((s2, SOME(x if x is not None else y) if (x is None) != (y is None) else NONE))
    return out


@model("Option::zip")
def _(eng, st, a, info):
    out = []
    for s, x in opt_cases(eng, st, a[0]):
        for s2, y in opt_cases(eng, s, a[1]):
            out.append((s2, SOME(T_("tup", (x, y))) if x is not None and y is not None else NONE))
    return out


@model("Option::filter")
def _(eng, st, a, info):
    out = []
    for s, x in opt_cases(eng, st, a[0]):
        if x is None:
            out.append((s, NONE))
        else:
            for s2, p in call(eng, s, a[1], (x,), ppx(info, "c")):
                out += [(s3, SOME(x) if b else NONE) for s3, b in pred_cases(eng, s2, p)]
    return out


@model("Option::ok_or", "Option::ok_or_else")
def _(eng, st, a, info):
    out = []
    for s, x in opt_cases(eng, st, a[0]):
        if x is not None:
            out.append((s, OK(x)))
        elif info.key.endswith("else"):
            out += wrap(call(eng, s, a[1], (), ppx(info, "c")), ERR)
        else:
            out.append((s, ERR(a[1])))
    return out


@model("Result::ok")
def _(eng, st, a, info):
    return [(s, SOME(x) if ok else NONE) for s, ok, x in res_cases(eng, st, a[0])]


@model("Result::err")
def _(eng, st, a, info):
    return [(s, NONE if ok else SOME(x)) for s, ok, x in res_cases(eng, st, a[0])]


@model("Option::transpose")
def _(eng, st, a, info):
    out = []
    for s, x in opt_cases(eng, st, a[0]):
        if x is None:
            out.append((s, OK(NONE)))
        else:
            out += [(s2, OK(SOME(y)) if ok else ERR(y)) for s2, ok, y in res_cases(eng, s, x)]
    return out


@model("Result::transpose")
def _(eng, st, a, info):
    out = []
    for s, ok, x in res_cases(eng, st, a[0]):
        if not ok:
            out.append((s, SOME(ERR(x))))
        else:
            out += [(s2, NONE if y is None else SOME(OK(y))) for s2, y in opt_cases(eng, s, x)]
    return out


@model("Option::flatten")
def _(eng, st, a, info):
    return [(s, NONE if x is None else x) for s, x in opt_cases(eng, st, a[0])]


@model("Option::take")
def _(eng, st, a, info):
    r = a[0]
    if r.tag != "ref":
        return [(st, D(eng, st, r))]
    v = D(eng, st, r)
    if v.tag == "ref":
        v = D(eng, st, v)
    c, p = final_ref(eng, st, r)
    eng.write(st, c, p, NONE)
    return [(st, v)]


def final_ref(eng, st, r):
    """follow references of references"""
    while True:
        v = eng.read(st, r.a[0], r.a[1])
        if v.tag != "ref":
            return r.a[0], r.a[1]
        r = v


def set_ref(eng, st, r, v):
    if r.tag == "ref":
        c, p = final_ref(eng, st, r)
        eng.write(st, c, p, v)


@model("Option::replace", "mem::replace")
def _(eng, st, a, info):
    v = D(eng, st, a[0])
    set_ref(eng, st, a[0], SOME(a[1]) if info.key[0] == "O" else a[1])
    return [(st, v)]


@model("mem::take")
def _(eng, st, a, info):
    v = D(eng, st, a[0])
    d = default_of(eng, info.dty) or eng.fresh(info.dty, info.pp)
    set_ref(eng, st, a[0], d)
    return [(st, v)]


@model("mem::swap")
def _(eng, st, a, info):
    x, y = D(eng, st, a[0]), D(eng, st, a[1])
    set_ref(eng, st, a[0], y)
    set_ref(eng, st, a[1], x)
    return [(st, UNIT)]


@model("mem::drop")
def _(eng, st, a, info):
    rs = eng.drop_value(st, a[0], info.atys[0] if info.atys else T_("other", "?"), info.pp)
    return [(s, UNIT) for s in rs]


@model("mem::forget")
def _(eng, st, a, info):
    return [(st, UNIT)]


@model("Option::insert", "Option::get_or_insert")
def _(eng, st, a, info):
    out = []
    c, p = final_ref(eng, st, a[0])
    for s, x in opt_cases(eng, st, a[0]):
        if x is None or info.key.endswith("::insert"):
            x = a[1]
        eng.write(s, c, p, SOME(x))
        out.append((s, T_("ref", c, p + ((".", 1, 0, ("adt", OPT, 1)),))))
    return out


@model("Option::get_or_insert_with")
def _(eng, st, a, info):
    out = []
    c, p = final_ref(eng, st, a[0])
    for s, x in opt_cases(eng, st, a[0]):
        for s2, y in ([(s, x)] if x is not None else call(eng, s, a[1], (), ppx(info, "c"))):
            eng.write(s2, c, p, SOME(y))
            out.append((s2, T_("ref", c, p + ((".", 1, 0, ("adt", OPT, 1)),))))
    return out


@model("bool::then", "bool::then_some")
def _(eng, st, a, info):
    out = []
    for s, b in pred_cases(eng, st, a[0]):
        if not b:
            out.append((s, NONE))
        elif info.key.endswith("some"):
            out.append((s, SOME(a[1])))
        else:
            out += wrap(call(eng, s, a[1], (), ppx(info, "c")), SOME)
    return out


@model("Try::branch")
def _(eng, st, a, info):
    t = D(eng, st, a[0])
    adt = adt_kind(eng, st, t, info)
    out = []
    if adt == OPT:
        for s, x in opt_cases(eng, st, t):
            out.append((s, V(CF, 1, NONE) if x is None else V(CF, 0, x)))
        return out
    if adt == RES:
        for s, ok, x in res_cases(eng, st, t):
            out.append((s, V(CF, 0, x) if ok else V(CF, 1, ERR(x))))
        return out
    if adt == POLL:
        inner = info.atys[0].a[1][0] if info.atys and info.atys[0].tag == "adt" else None
        for s, v in eng.split_disc(st, t, POLL):
            if v == 1:
                out.append((s, V(CF, 0, E.PENDING)))
                continue
            y = fld(t, 0, 0)
            for s2, ok, x in res_cases(eng, s, y):
                out.append((s2, V(CF, 0, E.READY(x)) if ok else V(CF, 1, ERR(x))))
        return out
    raise EngineLimit("? on " + str(adt))


@model("Try::from_output")
def _(eng, st, a, info):
    if info.dty.tag == "adt" and info.dty.a[0] == OPT:
        return [(st, SOME(a[0]))]
    return [(st, OK(a[0]))]


@model("FromResidual::from_residual")
def _(eng, st, a, info):
    x = D(eng, st, a[0])
    dty = info.dty
    if dty.tag == "adt" and dty.a[0] == OPT:
        return [(st, NONE)]
    if dty.tag == "adt" and dty.a[0] == RES:
        e = x.a[2][0] if x.tag == "V" else fld(x, 1, 0)
        et = dty.a[1][1]
        src = info.atys[0].a[1][1] if info.atys and info.atys[0].tag == "adt" and len(info.atys[0].a[1]) > 1 else None
        if src is et or src is None:
            return [(st, ERR(e))]
        import prog
        for imp in eng.p.impls:
            if (imp.get("trait") or "").split("::")[-1] == "From" and imp["self"].tag == "adt" and et.tag == "adt" and imp["self"].a[0] == et.a[0] and imp["targs"]:
                if prog._match(imp["targs"][-1], src, {}) and imp["items"].get("from") in eng.p.bodies:
                    im = imp["items"]["from"]
                    return wrap(eng.run_fn(st, im, (), (e,), T_("fr", info.pp[0], info.pp[1:] + (im,))), ERR)
        return [(st, ERR(T_("app", S("from"), et, e)))]
    return [(st, eng.fresh(dty, info.pp))]


# ---- closures ----------------------------------------------------------------------------------

@model("Fn::call", "FnMut::call_mut", "FnOnce::call_once")
def _(eng, st, a, info):
    tup = D(eng, st, a[1]) if len(a) > 1 else UNIT
    args = tup.a[0] if tup.tag == "tup" else (tup,)
    f = a[0]
    g = D(eng, st, f)
    if g.tag == "ref":
        f, g = g, D(eng, st, g)
    if g.tag == "clo":
        return eng.call_closure(st, f if f.tag == "ref" else g, tuple(args), info.pp)
    if g.tag == "fn":
        return eng.call(st, g, tuple(args), info.pp, info.dty)
    return eng.havoc(st, "call of unknown function", a, info.dty, info.pp)


# ---- integers ----------------------------------------------------------------------------------

def int_ty(info, i=0):
    t = _peel(info.atys[i]) if len(info.atys) > i else None
    return t.a[0] if t is not None and t.tag == "int" else None


@model("Ord::max", "Ord::min", "cmp::max", "cmp::min")
def _(eng, st, a, info):
    x, y = D(eng, st, a[0]), D(eng, st, a[1])
    mx = info.key.endswith("max")
    if x.tag == "i" or y.tag == "i":
        ge, lt = eng.split(st, GE0(lsub(x, y)))
        return [(s, x if mx else y) for s in ge] + [(s, y if mx else x) for s in lt]
    return [(st, x), (st.copy(), y)]


@model("Ord::clamp")
def _(eng, st, a, info):
    x, lo, hi = [D(eng, st, t) for t in a]
    if x.tag != "i":
        return [(st, eng.fresh(info.dty, info.pp))]
    ok, bad = eng.split(st, GE0(lsub(hi, lo)))
    for s in bad:
        eng.panic(s, "clamp bounds")
    out = []
    for s in ok:
        ge, lt = eng.split(s, GE0(lsub(x, lo)))
        out += [(s2, lo) for s2 in lt]
        for s2 in ge:
            le, gt = eng.split(s2, GE0(lsub(hi, x)))
            out += [(s3, x) for s3 in le] + [(s3, hi) for s3 in gt]
    return out


ORD = "core::cmp::Ordering"


def ordering(eng, st, lt, eq):
    """[(state, ordering value)] for predicates lt / eq"""
    out = []
    a, b = eng.split(st, lt)
    out += [(s, V(ORD, 0)) for s in a]
    for s in b:
        c, d = eng.split(s, eq)
        out += [(x, V(ORD, 1)) for x in c] + [(x, V(ORD, 2)) for x in d]
    return out


def unref(eng, st, x, ty=None):
    return D(eng, st, x)


@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def _(eng, st, a, info):
    x, y = D(eng, st, a[0]), D(eng, st, a[1])
    op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[info.key[-2:]]
    t = _peel(info.atys[0]) if info.atys else None
    if x.tag == "i" or y.tag == "i":
        return eng.binop(st, op, x, y, T_("int", "i64"), info.pp)
    if t is not None and t.tag == "float":
        return eng.fbin(st, op, x, y)
    if t is not None and t.tag == "adt" and t.a[0].endswith("Finite"):
        return eng.fbin(st, op, x, y)
    r = adt_cmp(eng, st, x, y, t)
    if r is not None:
        return [(st, {"Lt": r[0], "Le": T_("or", r[0], r[1]), "Gt": T_("and", NOT(r[0]), NOT(r[1])), "Ge": NOT(r[0])}[op])]
    if nondet_cmp(t):
        return [(st, T_("nondet", info.pp, eng.idx))]
    return [(st, T_("pred", S(op), x, y))]


def nondet_cmp(t):
    """comparisons of log levels: either outcome, no information"""
    return t is not None and t.tag == "adt" and t.a[0].split("::")[0] == "log"


def adt_cmp(eng, st, x, y, t):
    if t is not None and t.tag == "float":
        return T_("flt", x, y), T_("feq", x, y)
    return None


@model("PartialOrd::partial_cmp", "Ord::cmp", "f64::total_cmp")
def _(eng, st, a, info):
    x, y = D(eng, st, a[0]), D(eng, st, a[1])
    t = _peel(info.atys[0]) if info.atys else None
    pc = info.key.endswith("partial_cmp")
    w = SOME if pc else (lambda z: z)
    if x.tag == "i" or y.tag == "i":
        return wrap(ordering(eng, st, GE0(ladd(lsub(y, x), I(-1))), EQ0(lsub(x, y))), w)
    if info.key.endswith("total_cmp") or (t is not None and (t.tag == "float" or t.tag == "adt" and t.a[0].endswith("Finite"))):
        if pc and t.tag == "float":
            n1, n2 = T_("nan", x), T_("nan", y)
            p = T_("or", n1, n2)
            b, g = eng.split(st, p)
            out = [(s, NONE) for s in b]
            for s in g:
                out += wrap(ordering(eng, s, T_("flt", x, y), T_("feq", x, y)), SOME)
            return out
        return wrap(ordering(eng, st, T_("flt", x, y), T_("feq", x, y)), w)
    lt, eq = T_("pred", S("Lt"), x, y), eng.VEQ(st, x, y)
    return wrap(ordering(eng, st, lt, eq), w)


@model("Ordering::is_lt", "Ordering::is_le", "Ordering::is_gt", "Ordering::is_ge", "Ordering::is_eq", "Ordering::is_ne")
def _(eng, st, a, info):
    k = info.key[-2:]
    return [(s, B({"lt": v == 0, "le": v <= 1, "gt": v == 2, "ge": v >= 1, "eq": v == 1, "ne": v != 1}[k])) for s, v in eng.split_disc(st, a[0], ORD)]


@model("Ordering::reverse")
def _(eng, st, a, info):
    return [(s, V(ORD, 2 - v)) for s, v in eng.split_disc(st, a[0], ORD)]


@model("Ordering::then", "Ordering::then_with")
def _(eng, st, a, info):
    out = []
    for s, v in eng.split_disc(st, a[0], ORD):
        if v != 1:
            out.append((s, V(ORD, v)))
        elif info.key.endswith("with"):
            out += call(eng, s, a[1], (), ppx(info, "c"))
        else:
            out.append((s, a[1]))
    return out


@model("PartialEq::eq", "PartialEq::ne")
def _(eng, st, a, info):
    x, y = D(eng, st, a[0]), D(eng, st, a[1])
    t = _peel(info.atys[0]) if info.atys else None
    if t is not None and (t.tag == "float" or t.tag == "adt" and t.a[0].endswith("Finite")):
        p = T_("feq", x, y)
    elif t is not None and t.tag == "adt" and x.tag == "V" and not x.a[2] and y.tag != "V":
        n = eng.p.nvariants(t.a[0])
        eng.adt_hint[y] = t.a[0]
        p = T_("isd", y, x.a[1], n)
    elif t is not None and t.tag == "adt" and y.tag == "V" and not y.a[2] and x.tag != "V":
        n = eng.p.nvariants(t.a[0])
        eng.adt_hint[x] = t.a[0]
        p = T_("isd", x, y.a[1], n)
    else:
        p = eng.VEQ(st, x, y)
    return [(st, p if info.key.endswith("eq") else NOT(p))]


def _arith(op):
    def f(eng, st, a, info):
        x, y = D(eng, st, a[0]), D(eng, st, a[1])
        t = _peel(info.atys[0]) if info.atys else T_("int", "usize")
        return eng.binop(st, op, x, y, t, info.pp)
    return f


for _m, _o in (("add", "Add"), ("sub", "Sub"), ("mul", "Mul"), ("div", "Div"), ("rem", "Rem")):
    def _f(eng, st, a, info, o=_o):
        t = _peel(info.atys[0]) if info.atys else None
        if t is None or t.tag not in ("int", "float"):
            if t is not None and t.tag == "adt" and t.a[0].endswith("Finite"):
                return eng.fbin(st, o, D(eng, st, a[0]), D(eng, st, a[1]))
            return [(st, eng.fresh(info.dty, info.pp))]
        return eng.binop(st, o, D(eng, st, a[0]), D(eng, st, a[1]), t, info.pp)
    MODELS[_o + "::" + _m] = _f


@model("Neg::neg")
def _(eng, st, a, info):
    x = D(eng, st, a[0])
    if x.tag == "i":
        return [(st, lmul(x, -1))]
    return [(st, FC(-fcv(x)) if x.tag == "fc" else T_("app", S("fneg"), x))]


@model("Not::not")
def _(eng, st, a, info):
    return [(st, NOT(D(eng, st, a[0])))]


@model("AddAssign::add_assign", "SubAssign::sub_assign", "MulAssign::mul_assign")
def _(eng, st, a, info):
    op = {"A": "Add", "S": "Sub", "M": "Mul"}[info.key[0]]
    x, y = D(eng, st, a[0]), D(eng, st, a[1])
    t = _peel(info.atys[0])
    if t.tag not in ("int", "float"):
        set_ref(eng, st, a[0], eng.fresh(t, info.pp))
        return [(st, UNIT)]
    out = []
    for s, r in eng.binop(st, op, x, y, t, info.pp):
        set_ref(eng, s, a[0], r)
        out.append((s, UNIT))
    return out


def _wrapping(eng, st, a, info, op):
    ty = int_ty(info) or "usize"
    x, y = lin_of(D(eng, st, a[0])), lin_of(D(eng, st, a[1]))
    if op == "mul":
        r = lmul(y, cval(x)) if isconst(x) else lmul(x, cval(y)) if isconst(y) else lin_of(T_("app", S("imul"), x, y))
    else:
        r = ladd(x, y) if op == "add" else lsub(x, y)
    lo, hi = INTR[ty]
    return r, lo, hi, ty, x, y


for _ty in INTR:
    for _op in ("add", "sub", "mul"):
        def _w(eng, st, a, info, op=_op):
            r, lo, hi, ty, x, y = _wrapping(eng, st, a, info, op)
            if eng.ent_ge(st, lsub(r, I(lo))) and eng.ent_ge(st, lsub(I(hi), r)):
                return [(st, r)]
            w = lin_of(T_("app", S("w" + op), S(ty), x, y))
            if ty[0] == "u":
                eng.unsigned.add(w.a[1][0][0])
            return [(st, w)]
        MODELS[_ty + "::wrapping_" + _op] = _w

        def _c(eng, st, a, info, op=_op):
            r, lo, hi, ty, x, y = _wrapping(eng, st, a, info, op)
            p = T_("and", GE0(lsub(r, I(lo))), GE0(lsub(I(hi), r))) if not eng.bounded(st, r) or op == "sub" else TRUE
            if op == "sub" and lo == 0:
                p = GE0(r)
            g, b = eng.split(st, p)
            return [(s, SOME(r)) for s in g] + [(s, NONE) for s in b]
        MODELS[_ty + "::checked_" + _op] = _c

        def _s(eng, st, a, info, op=_op):
            r, lo, hi, ty, x, y = _wrapping(eng, st, a, info, op)
            if op == "add" and eng.bounded(st, r):
                return [(st, r)]
            out = []
            if op == "sub" and lo == 0:
                g, b = eng.split(st, GE0(r))
                return [(s, r) for s in g] + [(s, I(0)) for s in b]
            g, b = eng.split(st, GE0(lsub(I(hi), r)))
            out += [(s, I(hi)) for s in b]
            for s in g:
                g2, b2 = eng.split(s, GE0(lsub(r, I(lo))))
                out += [(s2, r) for s2 in g2] + [(s2, I(lo)) for s2 in b2]
            return out
        MODELS[_ty + "::saturating_" + _op] = _s

    def _abs(eng, st, a, info):
        x = lin_of(D(eng, st, a[0]))
        g, b = eng.split(st, GE0(x))
        return [(s, x) for s in g] + [(s, lmul(x, -1)) for s in b]
    MODELS[_ty + "::abs"] = _abs

    def _ad(eng, st, a, info):
        x, y = lin_of(D(eng, st, a[0])), lin_of(D(eng, st, a[1]))
        g, b = eng.split(st, GE0(lsub(x, y)))
        return [(s, lsub(x, y)) for s in g] + [(s, lsub(y, x)) for s in b]
    MODELS[_ty + "::abs_diff"] = _ad


# ---- floats ------------------------------------------------------------------------------------

def _fi_fb(eng, st, t, d):
    op, a, b = t.a
    x, y = eng.fint(st, a, d), eng.fint(st, b, d)
    if x[0] > x[1] or y[0] > y[1]:
        return (INF, -INF, True)
    nan = x[2] or y[2]

    def combos(f):
        vs = []
        bad = False
        for p in (x[0], x[1]):
            for q in (y[0], y[1]):
                try:
                    v = f(p, q)
                except (ZeroDivisionError, OverflowError):
                    v = math.nan
                if v != v:
                    bad = True
                else:
                    vs.append(v)
        return vs, bad
    if op in ("Add", "Sub"):
        vs, bad = combos((lambda p, q: p + q) if op == "Add" else (lambda p, q: p - q))
        if bad:
            return (-INF, INF, True)
        return (min(vs), max(vs), nan)
    if op == "Mul":
        vs, bad = combos(lambda p, q: p * q)
        if bad:
            # inf * 0
            lo = 0.0 if x[0] >= 0 and y[0] >= 0 else -INF
            return (lo, INF, True)
        if a is b and not nan:
            return (max(0.0, min(vs)), max(vs), False)
        return (min(vs), max(vs), nan)
    if op == "Div":
        if y[0] > 0 or y[1] < 0:
            vs, bad = combos(lambda p, q: p / q)
            if bad:
                return (0.0 if x[0] >= 0 and y[0] > 0 else -INF, INF, True)
            return (min(vs), max(vs), nan)
        return (-INF, INF, True)
    return (-INF, INF, True)


FINT["fb"] = _fi_fb


def fint_app(name):
    def deco(f):
        FINT[S(name)] = f
        return f
    return deco


@fint_app("i2f")
def _(eng, st, t, d):
    lo, hi = -2.0 ** 64, 2.0 ** 64
    e = lin_of(t.a[1])
    if eng.ent_ge(st, e):
        lo = 0.0
        if eng.ent_ge(st, ladd(e, I(-1))):
            lo = 1.0
    return (lo, hi, False)


@fint_app("fneg")
def _(eng, st, t, d):
    lo, hi, n = eng.fint(st, t.a[1], d)
    return (-hi, -lo, n)


@fint_app("fabs")
def _(eng, st, t, d):
    lo, hi, n = eng.fint(st, t.a[1], d)
    if lo > hi:
        return (lo, hi, n)
    if lo >= 0:
        return (lo, hi, n)
    return (0.0 if hi >= 0 else -hi, max(abs(lo), abs(hi)), n)


@fint_app("round")
def _(eng, st, t, d):
    lo, hi, n = eng.fint(st, t.a[1], d)

    def r(x):
        if x in (INF, -INF):
            return x
        return math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1) * 1.0
    return (r(lo), r(hi), n) if lo <= hi else (lo, hi, n)


@fint_app("fsum")
def _(eng, st, t, d):
    return (-INF, INF, True)


@fint_app("pow")
def _(eng, st, t, d):
    a, b = eng.fint(st, t.a[1], d), eng.fint(st, t.a[2], d)
    if a[0] <= a[1] and b[0] <= b[1] and a[0] > 0 and not a[2]:
        # positive base
        vs = []
        bad = b[2]
        for p in (a[0], a[1]):
            for q in (b[0], b[1]):
                try:
                    v = math.pow(p, q)
                except OverflowError:
                    v = INF
                except ValueError:
                    v = math.nan
                if v != v:
                    bad = True
                else:
                    vs.append(v)
        if a[0] <= 1 <= a[1]:
            vs.append(1.0)
        if b[0] <= 0 <= b[1]:
            vs.append(1.0)
        lo, hi = min(vs), max(vs)
        lo = lo * (1 - 1e-12)
        hi = hi * (1 + 1e-12)
        if b[2] and a[0] == a[1] == 1.0:
            return (1.0, 1.0, False)
        return (lo, hi, bad)
    return (-INF, INF, True)


@fint_app("exp")
def _(eng, st, t, d):
    a = eng.fint(st, t.a[1], d)

    def e(x):
        try:
            return math.exp(x)
        except OverflowError:
            return INF
    if a[0] > a[1]:
        return a
    return (e(a[0]) * (1 - 1e-12), e(a[1]) * (1 + 1e-12), a[2])


@fint_app("sqrt")
def _(eng, st, t, d):
    a = eng.fint(st, t.a[1], d)
    if a[0] > a[1]:
        return a
    return (math.sqrt(max(a[0], 0.0)) if a[0] < INF else INF, math.sqrt(a[1]) if 0 <= a[1] < INF else INF, a[2] or a[0] < 0)


@model("f64::is_finite", "f32::is_finite")
def _(eng, st, a, info):
    x = D(eng, st, a[0])
    if x.tag == "fc":
        return [(st, B(math.isfinite(fcv(x))))]
    return [(st, T_("fin", x))]


@model("f64::is_nan")
def _(eng, st, a, info):
    x = D(eng, st, a[0])
    if x.tag == "fc":
        return [(st, B(fcv(x) != fcv(x)))]
    return [(st, T_("nan", x))]


@model("f64::is_infinite")
def _(eng, st, a, info):
    x = D(eng, st, a[0])
    lo, hi, n = eng.fint(st, x)
    if lo > -INF and hi < INF:
        return [(st, FALSE)]
    return [(st, T_("and", NOT(T_("fin", x)), NOT(T_("nan", x))))]


@model("f64::is_sign_negative", "f64::is_sign_positive")
def _(eng, st, a, info):
    return [(st, T_("pred", S(info.key), D(eng, st, a[0])))]


def _fcase(eng, st, x, y, mx):
    """f64::max / min"""
    out = []
    for s, nx in pred_cases(eng, st, T_("nan", x)):
        if nx:
            out.append((s, y))
            continue
        for s2, ny in pred_cases(eng, s, T_("nan", y)):
            if ny:
                out.append((s2, x))
                continue
            ge, lt = eng.split(s2, T_("fle", y, x))
            out += [(z, x if mx else y) for z in ge] + [(z, y if mx else x) for z in lt]
    return out


@model("f64::max", "f64::min", "f64::maximum", "f64::minimum")
def _(eng, st, a, info):
    return _fcase(eng, st, D(eng, st, a[0]), D(eng, st, a[1]), info.key.endswith("max") or info.key.endswith("maximum"))


@model("f64::clamp")
def _(eng, st, a, info):
    x, lo, hi = [D(eng, st, t) for t in a]
    ok, bad = eng.split(st, T_("fle", lo, hi))
    for s in bad:
        eng.panic(s, "f64::clamp bounds")
    out = []
    for s in ok:
        for s1, n in pred_cases(eng, s, T_("nan", x)):
            if n:
                out.append((s1, x))
                continue
            lt, ge = eng.split(s1, T_("flt", x, lo))
            out += [(z, lo) for z in lt]
            for z in ge:
                gt, le = eng.split(z, T_("flt", hi, x))
                out += [(q, hi) for q in gt] + [(q, x) for q in le]
    return out


def _f1(name):
    def f(eng, st, a, info):
        x = D(eng, st, a[0])
        if x.tag == "fc":
            v = fcv(x)
            try:
                r = {"round": lambda: math.floor(abs(v) + 0.5) * (1.0 if v >= 0 else -1.0), "fabs": lambda: abs(v), "floor": lambda: math.floor(v) * 1.0,
                     "ceil": lambda: math.ceil(v) * 1.0, "trunc": lambda: math.trunc(v) * 1.0, "sqrt": lambda: math.sqrt(v), "exp": lambda: math.exp(v), "ln": lambda: math.log(v)}[name]()
                return [(st, FC(r))]
            except (OverflowError, ValueError, KeyError):
                pass
        return [(st, T_("app", S(name), x))]
    return f


for _n, _k in (("round", "round"), ("abs", "fabs"), ("floor", "floor"), ("ceil", "ceil"), ("trunc", "trunc"), ("sqrt", "sqrt"), ("exp", "exp"), ("ln", "ln"), ("signum", "signum"),
               ("log10", "log10"), ("log2", "log2"), ("tan", "tan"), ("sin", "sin"), ("cos", "cos"), ("recip", "recip"), ("to_bits", "to_bits")):
    MODELS["f64::" + _n] = _f1(_k)


@fint_app("floor")
def _(eng, st, t, d):
    lo, hi, n = eng.fint(st, t.a[1], d)
    return (math.floor(lo) * 1.0 if abs(lo) < INF else lo, math.floor(hi) * 1.0 if abs(hi) < INF else hi, n)


@fint_app("ceil")
def _(eng, st, t, d):
    lo, hi, n = eng.fint(st, t.a[1], d)
    return (math.ceil(lo) * 1.0 if abs(lo) < INF else lo, math.ceil(hi) * 1.0 if abs(hi) < INF else hi, n)


@fint_app("trunc")
def _(eng, st, t, d):
    lo, hi, n = eng.fint(st, t.a[1], d)
    return (math.trunc(lo) * 1.0 if abs(lo) < INF else lo, math.trunc(hi) * 1.0 if abs(hi) < INF else hi, n)


@model("f64::powf", "f64::powi")
def _(eng, st, a, info):
    x, y = D(eng, st, a[0]), D(eng, st, a[1])
    if y.tag == "i":
        y = FC(float(cval(y))) if isconst(y) else T_("app", S("i2f"), y)
    if x.tag == "fc" and y.tag == "fc":
        try:
            return [(st, FC(math.pow(fcv(x), fcv(y))))]
        except (ValueError, OverflowError, ZeroDivisionError):
            pass
    return [(st, T_("app", S("pow"), x, y))]


@model("f64::mul_add")
def _(eng, st, a, info):
    x, y, z = [D(eng, st, t) for t in a]
    return [(st, eng.farith("Add", eng.farith("Mul", x, y), z))]


@model("ToPrimitive::to_f64")
def _(eng, st, a, info):
    x = D(eng, st, a[0])
    t = _peel(info.atys[0]) if info.atys else None
    if x.tag == "i" or (t is not None and t.tag == "int"):
        x = lin_of(x)
        return [(st, SOME(FC(float(cval(x))) if isconst(x) else T_("app", S("i2f"), x)))]
    return [(st, SOME(x))]


@model("ToPrimitive::to_i64", "ToPrimitive::to_u64", "ToPrimitive::to_usize", "ToPrimitive::to_i32", "ToPrimitive::to_u32")
def _(eng, st, a, info):
    x = D(eng, st, a[0])
    t = _peel(info.atys[0]) if info.atys else None
    to = info.key.split("_")[1]
    lo, hi = INTR[to]
    if x.tag == "i" or (t is not None and t.tag == "int"):
        x = lin_of(x)
        g, b = eng.split(st, T_("and", GE0(lsub(x, I(lo))), GE0(lsub(I(hi), x))))
        return [(s, SOME(x)) for s in g] + [(s, NONE) for s in b]
    fl, fh, n = eng.fint(st, x)
    r = SOME(lin_of(T_("app", S("f2i"), S(to), x)))
    out = []
    s2 = st.copy()
    if fl <= fh and fl < hi and fh > lo - 1:
        a1 = eng.assume(s2, T_("fin", x), True)
        out += [(s, r) for s in a1]
    if n or fl <= lo - 1 or fh >= hi:
        out.append((st, NONE))
    return out


# ---- random ------------------------------------------------------------------------------------

@model("Bernoulli::new")
def _(eng, st, a, info):
    p = D(eng, st, a[0])
    eng.event("bern", st, (p,))
    g, b = eng.split(st, T_("and", T_("fle", FC(0.0), p), T_("fle", p, FC(1.0))))
    return [(s, OK(T_("bern", p))) for s in g] + [(s, ERR(eng.sym(ppx(info, "e")))) for s in b]


@model("Cauchy::new")
def _(eng, st, a, info):
    m, sc = D(eng, st, a[0]), D(eng, st, a[1])
    eng.event("cauchy", st, (m, sc))
    g, b = eng.split(st, T_("flt", FC(0.0), sc))
    return [(s, OK(T_("cauchy", m, sc))) for s in g] + [(s, ERR(eng.sym(ppx(info, "e")))) for s in b]


@model("Normal::new", "Exp::new", "Uniform::new", "Gamma::new")
def _(eng, st, a, info):
    return [(st, eng.fresh(info.dty, info.pp))]


def bern(eng, st, p, info):
    lo, hi, n = eng.fint(st, p)
    r = eng.sym(info.pp, "rnd")
    eng.event("coin", st, (p, r))
    if hi <= 0.0 and not n:
        return [(st, FALSE)]
    if lo >= 1.0 and not n:
        return [(st, TRUE)]
    out = []
    for s, v in pred_cases(eng, st, r):
        # a draw at probability exactly 0 (1) is always false (true)
        q = T_("fle", p, FC(0.0)) if v else T_("fle", FC(1.0), p)
        out += [(z, B(v)) for z in eng.assume(s, NOT(q), True)]
    return out


@model("Distribution::sample", "Rng::sample")
def _(eng, st, a, info):
    d = D(eng, st, a[0] if info.key[0] == "D" else a[1])
    if d.tag == "bern":
        return bern(eng, st, d.a[0], info)
    return [(st, eng.fresh(info.dty, info.pp + ("rnd",)))]


@model("Rng::gen_bool", "Rng::random_bool")
def _(eng, st, a, info):
    p = D(eng, st, a[1])
    eng.event("bern", st, (p,))
    g, b = eng.split(st, T_("and", T_("fle", FC(0.0), p), T_("fle", p, FC(1.0))))
    for s in b:
        eng.panic(s, "gen_bool probability", None, p)
    return [x for s in g for x in bern(eng, s, p, info)]


@model("Rng::gen", "Rng::random")
def _(eng, st, a, info):
    x = eng.fresh(info.dty, info.pp + ("rnd",))
    if info.dty.tag == "float":
        st.fi[x] = (0.0, math.nextafter(1.0, 0.0), False)
        st._k = None
    return [(st, x)]


RANGE = {"Range": 0, "RangeInclusive": 1}


@model("Rng::gen_range", "Rng::random_range")
def _(eng, st, a, info):
    r = D(eng, st, a[1])
    x = eng.fresh(info.dty, info.pp + ("rnd",))
    if r.tag == "V" and info.dty.tag == "int":
        incl = r.a[0].endswith("RangeInclusive")
        lo, hi = r.a[2][0], r.a[2][1]
        if not incl:
            hi = ladd(hi, I(-1))
        g, b = eng.split(st, GE0(lsub(hi, lo)))
        for s in b:
            eng.panic(s, "gen_range on an empty range")
        out = []
        for s in g:
            if eng.add_ge(s, lsub(x, lo)) and eng.add_ge(s, lsub(hi, x)):
                out.append((s, x))
        return out
    if r.tag == "V" and info.dty.tag == "float":
        lo, hi = r.a[2][0], r.a[2][1]
        il, ih = eng.fint(st, lo), eng.fint(st, hi)
        g, b = eng.split(st, T_("flt", lo, hi))
        for s in b:
            eng.panic(s, "gen_range on an empty range")
        for s in g:
            s.fi[x] = (il[0], ih[1], False)
            s._k = None
        return [(s, x) for s in g]
    return [(st, x)]


@model("SeedableRng::seed_from_u64", "SeedableRng::from_seed")
def _(eng, st, a, info):
    eng.event("rngseed", st, (D(eng, st, a[0]),))
    return [(st, T_("vol", "rand::rngs::std::StdRng"))]


# ---- collections -------------------------------------------------------------------------------

def new_coll(kind):
    def f(eng, st, a, info):
        return [(st, COLL(kind, (), I(0)))]
    return f


for _k in ("Vec::new", "Vec::with_capacity", "VecDeque::new", "VecDeque::with_capacity"):
    MODELS[_k] = new_coll("vec")
for _k in ("HashMap::new", "HashMap::with_capacity", "HashMap::with_hasher", "HashMap::with_capacity_and_hasher", "Map::new", "Map::with_capacity"):
    MODELS[_k] = new_coll("map")
MODELS["BTreeMap::new"] = new_coll("bmap")
for _k in ("HashSet::new", "HashSet::with_capacity", "BTreeSet::new", "HashSet::with_hasher", "HashSet::with_capacity_and_hasher"):
    MODELS[_k] = new_coll("set")


@model("String::new", "String::with_capacity")
def _(eng, st, a, info):
    return [(st, S(""))]


def kind_of_ty(ty):
    """collection kind of a type"""
    ty = _peel(ty)
    if ty.tag in ("slice", "array"):
        return "vec"
    if ty.tag == "str":
        return "str"
    if ty.tag == "adt":
        s = ty.a[0].split("::")[-1]
        if s in ("Vec", "VecDeque"):
            return "vec"
        if s == "HashMap" or s == "Map" or s == "IndexMap":
            return "map"
        if s == "BTreeMap":
            return "bmap"
        if s in ("HashSet", "BTreeSet"):
            return "set"
        if s == "Mapping":
            return "map"
        if s == "String":
            return "str"
        if s == "Box" and ty.a[1]:
            return kind_of_ty(ty.a[1][0])
        if s == "Option":
            return "opt"
    return None


def coll_of(eng, st, r):
    return D(eng, st, r)


BASE = lambda m: T_("base", m)
DEL = lambda k: T_("del", k)


@norm_rule("kat")
def _kat(m, j):
    j = lin_of(j)
    if len(j.a[1]) == 1 and j.a[0] == 0 and j.a[1][0][1] == 1:
        x = j.a[1][0][0]
        if x.tag == "idx" and x.a[0] is m:
            return x.a[1]
    return T_("kat", m, j)


def KAT(m, j):
    return _kat(m, j)


def as_map_segs(c):
    """segments of a map-like collection"""
    if c.tag == "coll":
        return list(c.a[1]), c.a[2], c.a[3]
    return [BASE(c)], LEN(c), frozenset()


@model("Vec::len", "[T]::len", "HashMap::len", "BTreeMap::len", "HashSet::len", "Map::len", "str::len", "String::len", "BTreeSet::len", "VecDeque::len", "Mapping::len", "ExactSizeIterator::len")
def _(eng, st, a, info):
    c = D(eng, st, a[0])
    if c.tag.startswith("it_"):
        n = it_size(eng, st, c)
        if n is None:
            return [(st, lin_of(eng.sym(info.pp, "u", "cnt")))]
        return [(st, n)]
    return [(st, LEN(c))]


@model("Vec::is_empty", "[T]::is_empty", "HashMap::is_empty", "BTreeMap::is_empty", "HashSet::is_empty", "Map::is_empty", "str::is_empty", "String::is_empty", "BTreeSet::is_empty", "VecDeque::is_empty", "Mapping::is_empty")
def _(eng, st, a, info):
    c = D(eng, st, a[0])
    ne, em = nonempty(eng, st, c)
    return [(s, FALSE) for s in ne] + [(s, TRUE) for s in em]


def nonempty(eng, st, c):
    """split on len(c) >= 1; the empty states also learn what emptiness implies about comprehension elements"""
    ne, em = eng.split(st, GE0(ladd(LEN(c), I(-1))))
    out = []
    for s in em:
        out += assume_empty(eng, s, c)
    return ne, out


def assume_empty(eng, st, c, depth=0):
    """states in which the comprehension c has no element; refuted through witness positions"""
    if c.tag in ("keys", "values", "shuf"):
        return assume_empty(eng, st, c.a[0], depth)
    if c.tag == "uniq":
        return assume_empty(eng, st, c.a[0], depth)
    if c.tag != "coll":
        return [st]
    cur = [st]
    for sg in c.a[1]:
        if sg.tag == "one":
            return []
        if sg.tag == "all":
            P, lo, hi, alts = sg.a
            wits = [I(0), I(1)]
            wh = getattr(eng.dom, "wit_for", None)
            if wh is not None:
                wits += wh(st, c, sg)
            for w in wits:
                nxt = []
                for s in cur:
                    inr, out = eng.split(s, GE0(ladd(lsub(lsub(hi, lo), w), I(-1))))
                    nxt += out
                    for x in inr:
                        pos = ladd(lo, w)
                        for al in alts:
                            if al.a[1]:
                                if all(i.tag in ("one", "base") for i in al.a[1]) and any(i.tag == "one" for i in al.a[1]):
                                    continue
                            y = apply_facts(eng, x.copy(), al.a[0], {P: pos})
                            if y is None:
                                continue
                            ys = [y]
                            for i in al.a[1]:
                                if i.tag == "base":
                                    b = tsub(i.a[0], {P: pos})
                                    ys = [z for q in ys for z in eng.assume(q, GE0(lmul(LEN(b), -1)), True)]
                            nxt += ys
                cur = eng.dedupe(nxt)
        if sg.tag == "base":
            cur = [z for s in cur for z in eng.assume(s, GE0(lmul(LEN(sg.a[0]), -1)), True)]
    return cur


def apply_facts(eng, st, facts, m):
    """assume a list of facts under a substitution; None when contradictory"""
    memo = {}
    cur = [st]
    for f in facts:
        f = E.fact_sub(f, m, memo)
        k = f[0]
        nxt = []
        for s in cur:
            s._k = None
            if k == "ge":
                if eng.add_ge(s, lin_of(f[1])):
                    nxt.append(s)
            elif k == "disc":
                adt = eng.adt_hint.get(f[1])
                if eng.set_disc(s, f[1], f[2]):
                    nxt.append(s)
            elif k == "nd":
                d = eng.disc_of(s, f[1])
                if d is not None:
                    if d not in f[2]:
                        nxt.append(s)
                else:
                    s.nd[f[1]] = frozenset(f[2]) | s.nd.get(f[1], frozenset())
                    nxt.append(s)
            elif k == "pr":
                if f[1].tag in ("T", "F"):
                    if (f[1] is TRUE) == f[2]:
                        nxt.append(s)
                else:
                    nxt += eng.assume(s, f[1], f[2])[:1]
            elif k == "fi":
                cur_i = eng.fint(s, f[1])
                j = _meet(cur_i, f[2])
                if j[0] <= j[1] or j[2]:
                    if f[1].tag != "fc":
                        s.fi[f[1]] = j
                    nxt.append(s)
            else:
                s.fo = s.fo | {f[1:]}
                nxt.append(s)
        cur = nxt
        if not cur:
            return None
    return cur[0]


def index(eng, st, c, i):
    """element i of a sequence: [(state, value)]; no bounds check"""
    return [(s, v) for s, k, v in item(eng, st, c, i)]


def item(eng, st, c, i):
    """entry i of a collection: [(state, key, value)]"""
    i = lin_of(i)
    c = D(eng, st, c)
    k = c.tag
    if k == "keys":
        return [(s, NOKEY, kk) for s, kk, v in item(eng, st, c.a[0], i)]
    if k == "values":
        return [(s, NOKEY, v) for s, kk, v in item(eng, st, c.a[0], i)]
    if k == "shuf":
        j = T_("perm", c, i)
        jl = lin_of(j)
        eng.unsigned.add(j)
        if not eng.add_ge(st, ladd(lsub(LEN(c), jl), I(-1))):
            return []
        return item(eng, st, c.a[0], jl)
    if k == "sub":
        return item(eng, st, c.a[0], ladd(c.a[1], i))
    if k == "rev":
        return item(eng, st, c.a[0], ladd(lsub(LEN(c.a[0]), i), I(-1)))
    if k == "uniq":
        c0 = c.a[0]
        if i is I(0) and c0.tag == "coll" and c0.a[1] and all(sg.tag == "all" and all(x.tag == "one" and x.a[1].tag in ("T", "F") for al in sg.a[3] for x in al.a[1]) for sg in c0.a[1]):
            # the first occurrence comes first
            return item(eng, st, c0, i)
        return [(st, NOKEY, T_("at", c, i))]
    if k == "coll":
        pos = I(0)
        cur = [st]
        out = []
        segs = c.a[1]
        exact = True
        for n, sg in enumerate(segs):
            if not cur:
                break
            if sg.tag == "one":
                nxt = []
                for s in cur:
                    eq, ne = eng.split(s, EQ0(lsub(i, pos)))
                    out += [(x, sg.a[0], sg.a[1]) for x in eq]
                    nxt += ne
                cur = nxt
                pos = ladd(pos, I(1))
            elif sg.tag == "all":
                P, lo, hi, alts = sg.a
                one = all(len(al.a[1]) == 1 and al.a[1][0].tag == "one" for al in alts)
                if one:
                    cnt = lsub(hi, lo)
                    nxt = []
                    for s in cur:
                        # pos <= i < pos + cnt
                        a, b = eng.split(s, GE0(ladd(lsub(ladd(pos, cnt), i), I(-1))))
                        nxt += b
                        for x in a:
                            m = {P: ladd(lo, lsub(i, pos))}
                            for al in alts:
                                y = apply_facts(eng, x.copy(), al.a[0], m)
                                if y is not None:
                                    memo = {}
                                    out.append((y, tsub(al.a[1][0].a[0], m, memo), tsub(al.a[1][0].a[1], m, memo)))
                    cur = nxt
                    pos = ladd(pos, cnt)
                else:
                    # an element produced at some unknown position of the comprehension
                    exact = False
                    w = lin_of(T_("pos", c, I(n), i))
                    eng.unsigned.add(w.a[1][0][0])
                    for s in cur:
                        for al in alts:
                            for q, itm in enumerate(al.a[1]):
                                x = s.copy()
                                if not (eng.add_ge(x, lsub(w, lo)) and eng.add_ge(x, ladd(lsub(hi, w), I(-1)))):
                                    continue
                                m = {P: w}
                                x = apply_facts(eng, x, al.a[0], m)
                                if x is None:
                                    continue
                                memo = {}
                                if itm.tag == "one":
                                    out.append((x, tsub(itm.a[0], m, memo), tsub(itm.a[1], m, memo)))
                                elif itm.tag == "base":
                                    b = tsub(itm.a[0], m, memo)
                                    w2 = lin_of(T_("pos2", c, I(n), i))
                                    eng.unsigned.add(w2.a[1][0][0])
                                    if eng.add_ge(x, ladd(lsub(LEN(b), w2), I(-1))):
                                        out += item(eng, x, b, w2)
                    if n == len(segs) - 1:
                        cur = []
            elif sg.tag == "base":
                b = sg.a[0]
                dels = [x.a[0] for x in segs[n + 1:] if x.tag == "del"]
                over = [x.a[0] for x in segs[n + 1:] if x.tag == "one" and x.a[0] is not NOKEY]
                cnt = LEN(b)
                nxt = []
                if not dels and not over:
                    for s in cur:
                        a, o = eng.split(s, GE0(ladd(lsub(ladd(pos, cnt), i), I(-1))))
                        nxt += o
                        for x in a:
                            out += item(eng, x, b, lsub(i, pos))
                    cur = nxt
                    pos = ladd(pos, cnt)
                else:
                    exact = False
                    w = lin_of(T_("pos", c, I(n), i))
                    eng.unsigned.add(w.a[1][0][0])
                    for s in cur:
                        x = s.copy()
                        if eng.add_ge(x, ladd(lsub(cnt, w), I(-1))):
                            for y, kk, v in item(eng, x, b, w):
                                ys = [y]
                                for d in dels + over:
                                    ys = [z for q in ys for z in eng.assume(q, eng.VEQ(q, kk, d), False)]
                                out += [(z, kk, v) for z in ys]
                    pos = ladd(pos, cnt)
            elif sg.tag == "del":
                pass
            else:
                raise EngineLimit("segment " + sg.tag)
            if not exact:
                # positions are no longer meaningful: later segments may hold the element, too
                rest = [x for x in segs[n + 1:] if x.tag == "one"]
                for s in cur:
                    for x in rest:
                        out.append((s.copy(), x.a[0], x.a[1]))
                if any(x.tag not in ("one", "del") for x in segs[n + 1:]):
                    raise EngineLimit("index into a mixed collection")
                cur = []
        return out
    if c.tag == "rep":
        return [(st, NOKEY, c.a[0])]
    if c.tag == "s":
        return [(st, NOKEY, eng.sym(("ch", i)))]
    kd = map_kind(eng, c)
    if kd:
        kk = KAT(c, i)
        v = T_("at", c, kk)
        return [(st, kk, v)]
    return [(st, NOKEY, T_("at", c, i))]


def map_kind(eng, c):
    """is this opaque collection a map?  (recorded when it is first used as one)"""
    return c in MAPS or (eng.dom.is_map(c) if hasattr(eng.dom, "is_map") else False)


MAPS = set()


def note(eng, c, ty):
    if c.tag in ("y", "fld", "at", "app", "idx") and ty is not None and kind_of_ty(ty) in ("map", "bmap", "set"):
        MAPS.add(c)


def distinct(c):
    """are all elements of this sequence distinct?"""
    if c.tag == "uniq":
        return True
    if c.tag == "keys":
        return True
    if c.tag in ("shuf", "sub", "rev"):
        return distinct(c.a[0])
    if c.tag == "coll" and c.a[0] == "vec" and c.a[1] and c.a[1][0].tag == "all" and all(x.tag == "one" for x in c.a[1][1:]):
        # a filtered subsequence of a sequence of distinct elements
        P, lo, hi, alts = c.a[1][0].a
        src = set()
        for al in alts:
            if len(al.a[1]) > 1 or any(x.tag != "one" for x in al.a[1]):
                return False
            for x in al.a[1]:
                r = inj_index(x.a[1], P)
                if r is None:
                    return False
                d = lsub(r[1], lin_of(P))
                if not isconst(d):
                    return False
                src.add((r[0], d))
        if len(src) > 1:
            return False
        last = None
        for x in c.a[1][1:]:
            # later elements come from later positions
            r = inj_index(x.a[1], P)
            if r is None or not src:
                return False
            path, d = list(src)[0]
            if r[0] != path:
                return False
            g = lsub(r[1], ladd(hi, d))
            if not isconst(g) or cval(g) < 0 or (last is not None and cval(g) <= last):
                return False
            last = cval(g)
        return len(src) == 1
    return False


def inj_index(x, P):
    r = inj_path(x)
    if r is None or P in syms_of_path(r[0]):
        return None
    q = r[1]
    for _ in range(3):
        z = inj_path(q)
        if z is None or z[0] == ("i",):
            break
        if P in syms_of_path(z[0]):
            return None
        r, q = (r[0] + z[0], z[1]), z[1]
    return r[0], q


def has_struct(eng, st, c, key):
    """does map/set c contain key?  None if unknown"""
    c = D(eng, st, c)
    if c.tag == "keys":
        return eng.ev(st, T_("has", c.a[0], key))
    if c.tag == "coll":
        unk = False
        for sg in reversed(c.a[1]):
            if sg.tag == "one":
                r = eng.keq(st, sg.a[0] if sg.a[0] is not NOKEY else sg.a[1], key)
                if r is True:
                    return True
                if r is None:
                    unk = True
            elif sg.tag == "del":
                r = eng.keq(st, sg.a[0], key)
                if r is True:
                    return None if unk else False
                if r is None:
                    unk = True
            elif sg.tag == "base":
                r = eng.ev(st, T_("has", sg.a[0], key))
                if r is True and not unk:
                    return True
                if r is None or (r is True and unk):
                    # a deletion with undecided key may have removed it; an undecided insertion would only add
                    if r is True and not any(x.tag == "del" and eng.keq(st, x.a[0], key) is None for x in c.a[1]):
                        return True
                    unk = True
            elif sg.tag == "all":
                r = all_has(eng, st, sg, key)
                if r is True and not any(x.tag == "del" and eng.keq(st, x.a[0], key) is None for x in c.a[1]):
                    return True
                if r is not False:
                    unk = True
        return None if unk else False
    key = unlin(key)
    if key.tag == "kat" and key.a[0] is c:
        return True if eng.ent_ge(st, lin_of(key.a[1])) and eng.ent_ge(st, ladd(lsub(LEN(c), key.a[1]), I(-1))) else None
    return None


def unlin(k):
    """the atom of an integer term that is just that atom"""
    if k.tag == "i" and k.a[0] == 0 and len(k.a[1]) == 1 and k.a[1][0][1] == 1:
        return k.a[1][0][0]
    return k


def all_has(eng, st, sg, key):
    r = all_has1(eng, st, sg, key)
    if r is None:
        P, lo, hi, alts = sg.a
        for al in alts:
            for x in al.a[1]:
                if x.tag != "one":
                    return None
                if not pos_lt(eng, st, x.a[0] if x.a[0] is not NOKEY else x.a[1], key, P, lo, hi):
                    return None
        return False
    return r


def all_has1(eng, st, sg, key):
    P, lo, hi, alts = sg.a
    m = None
    key0 = key
    for al in alts:
        if len(al.a[1]) != 1 or al.a[1][0].tag != "one":
            return None
        k = al.a[1][0].a[0]
        if k is NOKEY:
            k = al.a[1][0].a[1]
        k, key1 = strip_inj(k, key0)
        k = unlin(k)
        if key1 is not key0:
            if key is not key0 and key is not key1:
                return None
            key = key1
        elif key is not key0:
            return None
        if k.tag == "kat" and lin_of(k.a[1]) is lin_of(P):
            if m is None:
                m = k.a[0]
            elif m is not k.a[0]:
                return None
        else:
            return None
    if m is None:
        return None
    full = lo is I(0) and eng.ent_ge(st, lsub(hi, LEN(m)))
    r = eng.ev(st, T_("has", m, key))
    if r is False:
        return False
    if r is True and full:
        return True
    return None


def _on_has(eng, st, p, val):
    """learning membership in a collection"""
    c, key = p.a
    return [st]


@model("HashMap::contains_key", "BTreeMap::contains_key", "HashSet::contains", "BTreeSet::contains", "Map::contains_key", "Mapping::contains_key")
def _(eng, st, a, info):
    c, k = D(eng, st, a[0]), D(eng, st, a[1])
    note(eng, c, info.atys[0] if info.atys else None)
    return [(st, T_("has", c, k))]


@model("HashMap::get", "BTreeMap::get", "Map::get", "Mapping::get", "HashSet::get", "HashMap::get_mut", "BTreeMap::get_mut", "Map::get_mut")
def _(eng, st, a, info):
    c, k = D(eng, st, a[0]), D(eng, st, a[1])
    if c.tag == "vol":
        # lookup in unobservable state
        ty = info.dty.a[1][0] if info.dty.tag == "adt" and info.dty.a[1] else None
        s2 = st.copy()
        return [(st, NONE), (s2, SOME(eng.fresh(_peel(ty), info.pp)))]
    note(eng, c, info.atys[0] if info.atys else None)
    if info.key.endswith("get_mut") and a[0].tag == "ref":
        return get_mut(eng, st, a[0], c, k, info)
    return [(s, NONE if v is None else SOME(v)) for s, v in lookup(eng, st, c, k)]


def get_mut(eng, st, ref, c, k, info):
    """a mutable reference to a map entry: only for maps whose matching entry is a single segment"""
    out = []
    for s, v in lookup(eng, st, c, k):
        if v is None:
            out.append((s, NONE))
            continue
        # isolate the entry as the last segment
        segs, ln, fl = as_map_segs(c)
        segs = [x for x in segs if not (x.tag == "one" and x.a[0] is k)]
        nc = COLL("map", segs + [DEL(k), ONE(k, v)] if c.tag != "coll" or len(segs) == len(c.a[1]) else segs + [ONE(k, v)], ln, fl)
        cc, pp = final_ref(eng, s, ref)
        eng.write(s, cc, pp, nc)
        out.append((s, SOME(T_("ref", cc, pp + (("e", len(nc.a[1]) - 1),)))))
    return out


def lookup(eng, st, c, k):
    """[(state, value or None)]"""
    c = D(eng, st, c)
    if c.tag == "coll" and st.pr.get(T_("has", c, k)) is False:
        return [(st, None)]
    if c.tag == "coll":
        cur = [st]
        out = []
        for n in range(len(c.a[1]) - 1, -1, -1):
            sg = c.a[1][n]
            nxt = []
            for s in cur:
                if sg.tag == "one":
                    y, no = eng.split(s, eng.VEQ(s, sg.a[0], k))
                    out += [(x, sg.a[1]) for x in y]
                    nxt += no
                elif sg.tag == "del":
                    y, no = eng.split(s, eng.VEQ(s, sg.a[0], k))
                    out += [(x, None) for x in y]
                    nxt += no
                elif sg.tag == "base":
                    for x, v in lookup(eng, s, sg.a[0], k):
                        if v is None:
                            nxt.append(x)
                        else:
                            out.append((x, v))
                elif sg.tag == "all":
                    y, no = all_lookup(eng, s, c, n, sg, k)
                    out += y
                    nxt += no
                else:
                    raise EngineLimit("lookup in " + sg.tag)
            cur = nxt
        res = out + [(s, None) for s in cur]
        if len(res) > 1:
            # remember what was found, when nothing else tells
            h = T_("has", c, k)
            known = st.pr.get(h)
            for s, v in res:
                if known is None and eng.ev(s, h) is None:
                    s.pr[h] = v is not None
                    s._k = None
            if known is True:
                res = [(s, v) for s, v in res if v is not None]
        return res
    h, no = eng.split(st, T_("has", c, k))
    out = []
    for s in h:
        out.append((s, T_("at", c, k)))
    return out + [(s, None) for s in no]


def strip_inj(kk, k):
    """two keys made by the same one-to-one function are equal exactly if its arguments are"""
    while kk.tag == k.tag == "app" and kk.a[0] is k.a[0] and len(kk.a) == len(k.a) == 2 and kk.a[0].tag == "s" and kk.a[0].a[0] in INJECTIVE:
        kk, k = kk.a[1], k.a[1]
    if kk.tag == k.tag == "fld" and kk.a[1] == k.a[1]:
        x, y = inj_key(kk), inj_key(k)
        if x is not None and y is not None and x.a[0] is y.a[0]:
            return x, y
    return kk, k


def all_lookup(eng, st, c, n, sg, k):
    P, lo, hi, alts = sg.a
    k0 = k
    alone = [al for al in alts if al.a[1]]
    if alone and all(len(al.a[1]) == 1 and al.a[1][0].tag == "one" for al in alone):
        ks = [strip_inj(al.a[1][0].a[0], k)[1] for al in alone]
        if all(x is ks[0] for x in ks):
            k = ks[0]
    m = None
    ok = True
    for al in alone:
        if len(al.a[1]) == 1 and al.a[1][0].tag == "one":
            kk = unlin(strip_inj(al.a[1][0].a[0], k0)[0])
            if kk.tag == "kat" and lin_of(kk.a[1]) is lin_of(P):
                if m is None or m is kk.a[0]:
                    m = kk.a[0]
                    continue
        ok = False
    out = []
    if ok and m is not None:
        h, no = eng.split(st, T_("has", m, k))
        full = lo is I(0) and eng.ent_ge(st, lsub(hi, LEN(m)))
        miss = list(no)
        for s in h:
            uk = unlin(k)
            isk = uk.tag == "kat" and uk.a[0] is m
            j = lin_of(uk.a[1]) if isk else lin_of(T_("idx", m, k))
            if not isk:
                eng.unsigned.add(j.a[1][0][0])
                if not eng.add_ge(s, ladd(lsub(LEN(m), j), I(-1))):
                    continue
            if not full:
                a, b = eng.split(s, T_("and", GE0(lsub(j, lo)), GE0(ladd(lsub(hi, j), I(-1)))))
                miss += b
            else:
                a = [s]
            for x in a:
                mp = {P: j}
                for al in alts:
                    y = apply_facts(eng, x.copy(), al.a[0], mp)
                    if y is None:
                        continue
                    if not al.a[1]:
                        miss.append(y)      # (nothing is stored in this round)
                    else:
                        out.append((y, tsub(al.a[1][0].a[1], mp, {})))
        return out, miss
    # unknown keys: may or may not be there
    k = k0
    s2 = st.copy()
    w = lin_of(T_("pos", c, I(n), k))
    eng.unsigned.add(w.a[1][0][0])
    for al in alts:
        for itm in al.a[1]:
            if itm.tag != "one":
                continue
            x = st.copy()
            if not (eng.add_ge(x, lsub(w, lo)) and eng.add_ge(x, ladd(lsub(hi, w), I(-1)))):
                continue
            x = apply_facts(eng, x, al.a[0], {P: w})
            if x is None:
                continue
            kk = tsub(itm.a[0], {P: w}, {})
            for y in eng.assume(x, eng.VEQ(x, kk, k), True):
                out.append((y, tsub(itm.a[1], {P: w}, {})))
    return out, [s2]


@model("HashMap::insert", "BTreeMap::insert", "Map::insert", "HashSet::insert", "BTreeSet::insert")
def _(eng, st, a, info):
    c = D(eng, st, a[0])
    isset = "Set" in info.key
    k = D(eng, st, a[1])
    v = UNIT if isset else a[2]
    if c.tag == "vol":
        return [(st, eng.fresh(info.dty, info.pp))]
    note(eng, c, info.atys[0] if info.atys else None)
    eng.event("insert", st, (c, k, v))
    out = []
    for s, old in lookup(eng, st, c, k):
        segs, ln, fl = as_map_segs(c)
        kd = c.a[0] if c.tag == "coll" else "bmap" if info.key[0] == "B" else "map"
        if old is None:
            nc = COLL(kd, segs + [ONE(k, v)], ladd(ln, I(1)), fl)
        else:
            if any(x.tag == "one" and x.a[0] is k for x in segs):
                segs = [ONE(k, v) if x.tag == "one" and x.a[0] is k else x for x in segs]
            else:
                segs = segs + [DEL(k), ONE(k, v)]
            nc = COLL(kd, segs, ln, fl)
        set_ref(eng, s, a[0], nc)
        if isset:
            out.append((s, B(old is None)))
        else:
            out.append((s, NONE if old is None else SOME(old)))
    return out


@model("HashMap::remove", "BTreeMap::remove", "Map::remove", "HashSet::remove", "BTreeSet::remove", "HashMap::remove_entry", "HashSet::take")
def _(eng, st, a, info):
    c = D(eng, st, a[0])
    k = D(eng, st, a[1])
    isset = "Set" in info.key
    if c.tag == "vol":
        return [(st, eng.fresh(info.dty, info.pp))]
    note(eng, c, info.atys[0] if info.atys else None)
    out = []
    for s, old in lookup(eng, st, c, k):
        if old is None:
            out.append((s, FALSE if isset else NONE))
            continue
        segs, ln, fl = as_map_segs(c)
        kd = c.a[0] if c.tag == "coll" else "map"
        hit = [x for x in segs if x.tag == "one" and x.a[0] is k]
        if hit and all(eng.keq(s, x.a[0], k) is False for x in segs if x.tag == "one" and x.a[0] is not k) and not any(x.tag in ("all", "base") for x in segs):
            segs = [x for x in segs if x not in hit]
        else:
            segs = segs + [DEL(k)]
        set_ref(eng, s, a[0], COLL(kd, segs, ladd(ln, I(-1)), fl))
        out.append((s, TRUE if isset else SOME(T_("tup", (k, old)) if info.key.endswith("entry") else old)))
    return out


@model("Vec::push", "VecDeque::push_back")
def _(eng, st, a, info):
    c = D(eng, st, a[0])
    if c.tag == "coll":
        nc = COLL(c.a[0], c.a[1] + (ONE(NOKEY, a[1]),), ladd(c.a[2], I(1)), c.a[3])
    elif c.tag in ("moved", "uninit"):
        raise EngineLimit("push into moved vec")
    else:
        nc = COLL("vec", (BASE(c), ONE(NOKEY, a[1])), ladd(LEN(c), I(1)))
    set_ref(eng, st, a[0], nc)
    return [(st, UNIT)]


@model("Vec::insert")
def _(eng, st, a, info):
    c = D(eng, st, a[0])
    i = lin_of(D(eng, st, a[1]))
    ok, bad = eng.split(st, GE0(lsub(LEN(c), i)))
    for s in bad:
        eng.panic(s, "Vec::insert index")
    out = []
    for s in ok:
        if isconst(i) and cval(i) == 0:
            segs = (c.a[1] if c.tag == "coll" else (BASE(c),))
            set_ref(eng, s, a[0], COLL("vec", (ONE(NOKEY, a[2]),) + tuple(segs), ladd(LEN(c), I(1))))
        elif eng.ent_ge(s, lsub(i, LEN(c))):
            segs = (c.a[1] if c.tag == "coll" else (BASE(c),))
            set_ref(eng, s, a[0], COLL("vec", tuple(segs) + (ONE(NOKEY, a[2]),), ladd(LEN(c), I(1))))
        else:
            set_ref(eng, s, a[0], COLL("vec", (BASE(T_("sub", c, I(0), i)), ONE(NOKEY, a[2]), BASE(T_("sub", c, i, LEN(c)))), ladd(LEN(c), I(1))))
        out.append((s, UNIT))
    return out


@model("Vec::pop", "VecDeque::pop_back")
def _(eng, st, a, info):
    c = D(eng, st, a[0])
    ne, em = nonempty(eng, st, c)
    out = [(s, NONE) for s in em]
    for s in ne:
        if c.tag == "coll" and c.a[1] and c.a[1][-1].tag == "one":
            set_ref(eng, s, a[0], COLL(c.a[0], c.a[1][:-1], ladd(c.a[2], I(-1)), c.a[3]))
            out.append((s, SOME(c.a[1][-1].a[1])))
        else:
            l1 = ladd(LEN(c), I(-1))
            for s2, v in index(eng, s, c, l1):
                set_ref(eng, s2, a[0], T_("sub", c, I(0), l1))
                out.append((s2, SOME(v)))
    return out


@model("Vec::truncate")
def _(eng, st, a, info):
    c = D(eng, st, a[0])
    n = lin_of(D(eng, st, a[1]))
    keep, cut = eng.split(st, GE0(lsub(n, LEN(c))))
    for s in cut:
        set_ref(eng, s, a[0], T_("sub", c, I(0), n))
    return [(s, UNIT) for s in keep + cut]


@model("Vec::clear", "HashMap::clear", "HashSet::clear", "BTreeMap::clear", "String::clear", "VecDeque::clear")
def _(eng, st, a, info):
    set_ref(eng, st, a[0], S("") if info.key[:2] == "St" else COLL("vec" if info.key[0] == "V" else "map", (), I(0)))
    return [(st, UNIT)]


@model("Vec::swap_remove", "Vec::remove")
def _(eng, st, a, info):
    c = D(eng, st, a[0])
    i = lin_of(D(eng, st, a[1]))
    ok, bad = eng.split(st, GE0(ladd(lsub(LEN(c), i), I(-1))))
    for s in bad:
        eng.panic(s, info.key + " index")
    out = []
    for s in ok:
        for s2, v in index(eng, s, c, i):
            if info.key.endswith("::remove"):
                set_ref(eng, s2, a[0], COLL("vec", (BASE(T_("sub", c, I(0), i)), BASE(T_("sub", c, ladd(i, I(1)), LEN(c)))), ladd(LEN(c), I(-1))))
            else:
                set_ref(eng, s2, a[0], COLL("vec", (T_("sel", T_("shuf", c)),), ladd(LEN(c), I(-1))))
            out.append((s2, v))
    return out


@model("Vec::reserve", "HashMap::reserve", "Vec::shrink_to_fit", "String::reserve", "HashSet::reserve")
def _(eng, st, a, info):
    return [(st, UNIT)]


@model("[T]::reverse")
def _(eng, st, a, info):
    set_ref(eng, st, a[0], T_("rev", D(eng, st, a[0])))
    return [(st, UNIT)]


@model("[T]::sort", "[T]::sort_unstable", "[T]::sort_by", "[T]::sort_by_key", "[T]::sort_unstable_by", "[T]::sort_unstable_by_key", "[T]::sort_by_cached_key", "SliceRandom::shuffle", "random::shuffle")
def _(eng, st, a, info):
    c = D(eng, st, a[0])
    eng.event("sort" if "sort" in info.key else "shuffle", st, (c,))
    set_ref(eng, st, a[0], T_("shuf", c))
    return [(st, UNIT)]


@model("Index::index", "IndexMut::index_mut")
def _(eng, st, a, info):
    c, i = D(eng, st, a[0]), D(eng, st, a[1])
    kd = kind_of_ty(info.atys[0]) if info.atys else None
    if kd in ("map", "bmap"):
        out = []
        for s, v in lookup(eng, st, c, i):
            if v is None:
                eng.panic(s, "index of a missing key", None, i)
            else:
                out.append((s, v))
        return out
    if c.tag == "vol":
        return [(st, eng.fresh(info.dty, info.pp))]
    if i.tag == "V" and i.a[0].startswith("core::ops::range"):
        nm = i.a[0].split("::")[-1]
        lo, hi = I(0), LEN(c)
        if nm == "Range":
            lo, hi = i.a[2]
        elif nm == "RangeFrom":
            lo = i.a[2][0]
        elif nm == "RangeTo":
            hi = i.a[2][0]
        elif nm == "RangeInclusive":
            lo, hi = i.a[2][0], ladd(i.a[2][1], I(1))
        elif nm == "RangeToInclusive":
            hi = ladd(i.a[2][0], I(1))
        ok, bad = eng.split(st, T_("and", GE0(lsub(hi, lo)), GE0(lsub(LEN(c), hi))))
        for s in bad:
            eng.panic(s, "slice index", None, hi)
        return [(s, T_("sub", c, lin_of(lo), lin_of(hi)) if not (lo is I(0) and hi is LEN(c)) else c) for s in ok]
    i = lin_of(i)
    ok, bad = eng.split(st, GE0(ladd(lsub(LEN(c), i), I(-1))))
    for s in bad:
        eng.panic(s, "index out of bounds", None, i)
    if info.key.startswith("IndexMut"):
        out = []
        for s in ok:
            r = idx_mut(eng, s, a[0], c, i)
            out.append((s, r))
        return out
    return [x for s in ok for x in index(eng, s, c, i)]


def idx_mut(eng, st, ref, c, i):
    if c.tag == "coll" and isconst(i) and all(x.tag == "one" for x in c.a[1]) and ref.tag == "ref":
        cc, p = final_ref(eng, st, ref)
        return T_("ref", cc, p + (("e", cval(i)),))
    raise EngineLimit("mutable element of a collection")


@model("[T]::get", "Vec::get", "[T]::first", "[T]::last", "VecDeque::get", "VecDeque::front", "VecDeque::back")
def _(eng, st, a, info):
    c = D(eng, st, a[0])
    k = info.key.split("::")[1]
    if k in ("first", "last", "front", "back"):
        ne, em = nonempty(eng, st, c)
        i = I(0) if k in ("first", "front") else ladd(LEN(c), I(-1))
    else:
        i = D(eng, st, a[1])
        if i.tag == "V":
            raise EngineLimit("get(range)")
        i = lin_of(i)
        ne, em = eng.split(st, GE0(ladd(lsub(LEN(c), i), I(-1))))
    out = [(s, NONE) for s in em]
    for s in ne:
        out += wrap(index(eng, s, c, i), SOME)
    return out


@model("[T]::split_first", "[T]::split_last")
def _(eng, st, a, info):
    c = D(eng, st, a[0])
    ne, em = nonempty(eng, st, c)
    out = [(s, NONE) for s in em]
    for s in ne:
        n = LEN(c)
        i, lo, hi = (I(0), I(1), n) if info.key.endswith("first") else (ladd(n, I(-1)), I(0), ladd(n, I(-1)))
        for s2, v in index(eng, s, c, i):
            out.append((s2, SOME(T_("tup", (v, T_("sub", c, lo, hi))))))
    return out


@model("[T]::contains", "Vec::contains", "VecDeque::contains")
def _(eng, st, a, info):
    c, x = D(eng, st, a[0]), D(eng, st, a[1])
    return contains(eng, st, c, x, info)


def contains(eng, st, c, x, info):
    if c.tag == "coll" and all(s.tag == "one" for s in c.a[1]):
        if not c.a[1]:
            return [(st, FALSE)]
        ps = [eng.VEQ(st, s.a[1], x) for s in c.a[1]]
        return [(st, ps[0] if len(ps) == 1 else T_("or", *ps))]
    return [(st, T_("has", c, x))]


@model("[T]::concat")
def _(eng, st, a, info):
    c = D(eng, st, a[0])
    segs = []
    n = I(0)
    if c.tag == "coll" and all(s.tag == "one" for s in c.a[1]):
        for s in c.a[1]:
            x = D(eng, st, s.a[1])
            if x.tag == "coll":
                segs += list(x.a[1])
            else:
                segs.append(BASE(x))
            n = ladd(n, LEN(x))
        return [(st, COLL("vec", segs, n))]
    return [(st, eng.fresh(info.dty, info.pp))]


@model("[T]::join", "Itertools::join", "Join::join")
def _(eng, st, a, info):
    return [(st, T_("app", S("join"), D(eng, st, a[0]), *[D(eng, st, x) for x in a[1:]]))]


# vec![..]: the array is written into an uninitialised box, which then becomes the vector
@model("Box::new_uninit")
def _(eng, st, a, info):
    return [(st, T_("V", "box:uninit", 0, (UNIT, T_("V", "box:slot", 0, (UNIT,)))))]


@model("boxed::box_assume_init_into_vec_unsafe")
def _(eng, st, a, info):
    x = D(eng, st, a[0])
    if x.tag == "V" and x.a[0] == "box:uninit":
        y = eng.deref_all(st, x.a[2][1])
        if y.tag == "V" and y.a[0] == "box:slot" and D(eng, st, y.a[2][0]).tag == "coll":
            return [(st, D(eng, st, y.a[2][0]))]
    eng.unknown[info.key] = eng.unknown.get(info.key, 0) + 1
    return [(st, eng.fresh(info.dty, info.pp, info.key))]


@model("Vec::extend_from_slice")
def _(eng, st, a, info):
    c, x = D(eng, st, a[0]), D(eng, st, a[1])
    segs = list(c.a[1]) if c.tag == "coll" else [BASE(c)]
    segs += list(x.a[1]) if x.tag == "coll" else [BASE(x)]
    set_ref(eng, st, a[0], COLL("vec", segs, ladd(LEN(c), LEN(x))))
    return [(st, UNIT)]


@model("Vec::append")
def _(eng, st, a, info):
    c, x = D(eng, st, a[0]), D(eng, st, a[1])
    segs = list(c.a[1]) if c.tag == "coll" else [BASE(c)]
    segs += list(x.a[1]) if x.tag == "coll" else [BASE(x)]
    set_ref(eng, st, a[0], COLL("vec", segs, ladd(LEN(c), LEN(x))))
    set_ref(eng, st, a[1], COLL("vec", (), I(0)))
    return [(st, UNIT)]


# entries
@model("HashMap::entry", "BTreeMap::entry", "Map::entry")
def _(eng, st, a, info):
    c = D(eng, st, a[0])
    if c.tag == "vol":
        return [(st, T_("vol", c.a[0]))]
    note(eng, c, info.atys[0] if info.atys else None)
    return [(st, T_("entry", a[0] if a[0].tag == "ref" else c, D(eng, st, a[1])))]


@model("Entry::or_insert", "Entry::or_insert_with", "Entry::or_default")
def _(eng, st, a, info):
    e = D(eng, st, a[0])
    if e.tag == "vol" or e.tag != "entry":
        return [(st, eng.fresh(_peel(info.dty), info.pp))]
    ref, k = e.a
    if ref.tag != "ref":
        return [(st, eng.fresh(_peel(info.dty), info.pp))]
    c = D(eng, st, ref)
    out = []
    for s, old in lookup(eng, st, c, k):
        if old is not None:
            vs = [(s, old)]
        elif info.key.endswith("insert"):
            vs = [(s, a[1])]
        elif info.key.endswith("with"):
            vs = call(eng, s, a[1], (), ppx(info, "c"))
        else:
            d = default_of(eng, _peel(info.dty))
            vs = [(s, d if d is not None else eng.fresh(_peel(info.dty), info.pp))]
        for s2, v in vs:
            segs, ln, fl = as_map_segs(c)
            if old is None:
                segs = segs + [ONE(k, v)]
                ln = ladd(ln, I(1))
            elif any(x.tag == "one" and x.a[0] is k for x in segs):
                segs = [x for x in segs if not (x.tag == "one" and x.a[0] is k)] + [ONE(k, v)]
            else:
                segs = segs + [DEL(k), ONE(k, v)]
            nc = COLL(c.a[0] if c.tag == "coll" else "map", segs, ln, fl)
            cc, pp = final_ref(eng, s2, ref)
            eng.write(s2, cc, pp, nc)
            out.append((s2, T_("ref", cc, pp + (("e", len(segs) - 1),))))
    return out


# ---- iterators ---------------------------------------------------------------------------------

def IT(c, mode="e", lo=None, hi=None):
    return T_("it_coll", c, lin_of(lo if lo is not None else I(0)), lin_of(hi if hi is not None else LEN(c)), mode)


EMPTY_IT = T_("it_empty")


def into_iter(eng, st, x, ty=None):
    """iterator over a value"""
    r = x
    x = D(eng, st, x)
    if x.tag.startswith("it_"):
        return r if r.tag == "ref" else x
    if x.tag == "V" and x.a[0].startswith("core::ops::range"):
        nm = x.a[0].split("::")[-1]
        if nm == "Range":
            return T_("it_range", lin_of(x.a[2][0]), lin_of(x.a[2][1]))
        if nm == "RangeInclusive":
            return T_("it_range", lin_of(x.a[2][0]), ladd(x.a[2][1], I(1)))
        if nm == "RangeFrom":
            return T_("it_from", lin_of(x.a[2][0]))
    if ty is not None:
        t = _peel(ty)
        if t.tag == "adt" and t.a[0] == OPT or (x.tag == "V" and x.a[0] == OPT):
            return T_("it_opt", x)
        kd = kind_of_ty(t)
        if kd in ("map", "bmap"):
            note(eng, x, t)
            return IT(x, "p")
        if kd == "set":
            note(eng, x, t)
            return IT(x, "k")
        if kd == "vec":
            return IT(x, "e")
        if kd == "opt":
            return T_("it_opt", x)
    if x.tag == "coll":
        return IT(x, "p" if x.a[0] in ("map", "bmap") else "k" if x.a[0] == "set" else "e")
    if x.tag in ("keys", "values", "shuf", "sub", "uniq", "rev"):
        return IT(x)
    if x.tag == "V" and x.a[0] == OPT:
        return T_("it_opt", x)
    return T_("it_opq", x)


@model("IntoIterator::into_iter", "[T]::iter", "Vec::iter", "HashMap::iter", "BTreeMap::iter", "Map::iter", "HashSet::iter", "BTreeSet::iter", "Option::iter", "Mapping::iter", "[T]::into_iter", "Vec::into_iter",
       "VecDeque::iter", "Option::into_iter", "Result::iter", "HashMap::into_iter")
def _(eng, st, a, info):
    x = D(eng, st, a[0])
    if x.tag == "vol":
        return [(st, T_("it_opq", x))]
    ty = info.atys[0] if info.atys else None
    if info.key == "Option::iter":
        return [(st, T_("it_opt", x))]
    return [(st, into_iter(eng, st, a[0] if x.tag.startswith("it_") else x, ty))]


@model("[T]::iter_mut", "Vec::iter_mut", "HashMap::iter_mut", "HashMap::values_mut", "BTreeMap::values_mut")
def _(eng, st, a, info):
    x = D(eng, st, a[0])
    if x.tag == "vol":
        return [(st, T_("it_opq", x))]
    raise EngineLimit("iter_mut")


@model("HashMap::keys", "BTreeMap::keys", "Map::keys", "Mapping::keys", "HashMap::into_keys", "BTreeMap::into_keys")
def _(eng, st, a, info):
    c = D(eng, st, a[0])
    note(eng, c, info.atys[0] if info.atys else None)
    return [(st, IT(c, "k"))]


@model("HashMap::values", "BTreeMap::values", "Map::values", "HashMap::into_values", "BTreeMap::into_values")
def _(eng, st, a, info):
    c = D(eng, st, a[0])
    note(eng, c, info.atys[0] if info.atys else None)
    return [(st, IT(c, "v"))]


@model("Vec::drain", "HashMap::drain")
def _(eng, st, a, info):
    c = D(eng, st, a[0])
    i = D(eng, st, a[1]) if len(a) > 1 else None
    if i is None or (i.tag == "V" and i.a[0].endswith("RangeFull")):
        set_ref(eng, st, a[0], COLL("vec" if info.key[0] == "V" else "map", (), I(0)))
        return [(st, IT(c, "e" if info.key[0] == "V" else "p"))]
    raise EngineLimit("drain(range)")


@model("iter::once")
def _(eng, st, a, info):
    return [(st, T_("it_opt", SOME(a[0])))]


@model("iter::empty")
def _(eng, st, a, info):
    return [(st, EMPTY_IT)]


@model("iter::repeat_with")
def _(eng, st, a, info):
    return [(st, T_("it_rw", a[0]))]


@model("iter::repeat")
def _(eng, st, a, info):
    return [(st, T_("it_rep", a[0]))]


@model("iter::repeat_n")
def _(eng, st, a, info):
    return [(st, T_("it_take", T_("it_rep", a[0]), lin_of(a[1])))]


@model("iter::from_fn")
def _(eng, st, a, info):
    return [(st, T_("it_ff", a[0]))]


@model("iter::zip")
def _(eng, st, a, info):
    return [(st, T_("it_zip", itv(eng, st, a[0]), into_iter(eng, st, a[1], info.atys[1] if len(info.atys) > 1 else None)))]


def itv(eng, st, x, ty=None):
    """iterator value (adapters own their source)"""
    return into_iter(eng, st, x, ty)


def adapter(tag, n=1):
    def f(eng, st, a, info):
        src = itv(eng, st, a[0], info.atys[0] if info.atys else None)
        return [(st, T_(tag, src, *a[1:1 + n]))]
    return f


MODELS["Iterator::map"] = adapter("it_map")
MODELS["Iterator::filter"] = adapter("it_filter")
MODELS["Iterator::filter_map"] = adapter("it_fm")
MODELS["Iterator::inspect"] = adapter("it_insp")
MODELS["Iterator::take_while"] = adapter("it_tw")
MODELS["Iterator::map_while"] = adapter("it_mw")
MODELS["Iterator::skip_while"] = adapter("it_sw")


@model("Iterator::copied", "Iterator::cloned", "Iterator::fuse", "Itertools::dedup_")
def _(eng, st, a, info):
    return [(st, itv(eng, st, a[0], info.atys[0] if info.atys else None))]


@model("Iterator::enumerate")
def _(eng, st, a, info):
    return [(st, T_("it_enum", itv(eng, st, a[0], info.atys[0] if info.atys else None), I(0)))]


@model("Iterator::take")
def _(eng, st, a, info):
    it = itv(eng, st, a[0], info.atys[0] if info.atys else None)
    n = lin_of(D(eng, st, a[1]))
    if it.tag == "it_coll" and it.a[1] is I(0):
        c, lo, hi, m = it.a
        ge, lt = eng.split(st, GE0(lsub(n, lsub(hi, lo))))
        return [(s, it) for s in ge] + [(s, T_("it_coll", c, lo, ladd(lo, n), m)) for s in lt]
    return [(st, T_("it_take", it, n))]


@model("Iterator::step_by")
def _(eng, st, a, info):
    it = itv(eng, st, a[0], info.atys[0] if info.atys else None)
    n = lin_of(D(eng, st, a[1]))
    if it.tag == "it_range" and all(isconst(x) for x in it.a) and isconst(n) and cval(n) > 0 and cval(it.a[1]) - cval(it.a[0]) < 1000:
        xs = [I(x) for x in range(cval(it.a[0]), cval(it.a[1]), cval(n))]
        return [(st, IT(E.COLL("vec", tuple(T_("one", NOKEY, x) for x in xs), I(len(xs)))))]
    if it.tag == "it_coll" and isconst(it.a[1]) and isconst(it.a[2]) and isconst(n) and cval(n) > 0 and cval(it.a[2]) - cval(it.a[1]) < 1000:
        c, lo, hi, m = it.a
        out = [(st, [])]
        for j in range(cval(lo), cval(hi), cval(n)):
            out = [(s2, xs + [v]) for s, xs in out for s2, v in index(eng, s, c, I(j))]
        return [(s, T_("it_coll", E.COLL("vec", tuple(T_("one", NOKEY, x) for x in xs), I(len(xs))), I(0), I(len(xs)), m)) for s, xs in out]
    return eng.havoc(st, "step_by", a, info.dty, info.pp)


@model("Iterator::skip")
def _(eng, st, a, info):
    it = itv(eng, st, a[0], info.atys[0] if info.atys else None)
    n = lin_of(D(eng, st, a[1]))
    if it.tag == "it_coll":
        c, lo, hi, m = it.a
        ge, lt = eng.split(st, GE0(lsub(lsub(hi, lo), n)))
        return [(s, T_("it_coll", c, ladd(lo, n), hi, m)) for s in ge] + [(s, T_("it_coll", c, hi, hi, m)) for s in lt]
    if it.tag == "it_range":
        lo, hi = it.a
        ge, lt = eng.split(st, GE0(lsub(lsub(hi, lo), n)))
        return [(s, T_("it_range", ladd(lo, n), hi)) for s in ge] + [(s, T_("it_range", hi, hi)) for s in lt]
    return [(st, T_("it_skip", it, n))]


@model("Iterator::chain")
def _(eng, st, a, info):
    return [(st, T_("it_chain", itv(eng, st, a[0], info.atys[0] if info.atys else None), into_iter(eng, st, a[1], info.atys[1] if len(info.atys) > 1 else None)))]


@model("Iterator::zip")
def _(eng, st, a, info):
    return [(st, T_("it_zip", itv(eng, st, a[0], info.atys[0] if info.atys else None), into_iter(eng, st, a[1], info.atys[1] if len(info.atys) > 1 else None)))]


@model("Iterator::rev")
def _(eng, st, a, info):
    return [(st, T_("it_rev", itv(eng, st, a[0], info.atys[0] if info.atys else None)))]


@model("Iterator::flat_map")
def _(eng, st, a, info):
    return [(st, T_("it_flat", itv(eng, st, a[0], info.atys[0] if info.atys else None), a[1], EMPTY_IT, clo_ret(eng, a[1])))]


@model("Iterator::flatten", "Itertools::concat_")
def _(eng, st, a, info):
    src = itv(eng, st, a[0], info.atys[0] if info.atys else None)
    ty = None
    if info.dty.tag == "adt" and info.dty.a[1]:
        ty = None
    return [(st, T_("it_flat", src, T_("idf"), EMPTY_IT, T_("lt")))]


def clo_ret(eng, f):
    if f.tag == "clo" and f.a[0] in eng.p.bodies:
        return eng.p.subst(eng.p.bodies[f.a[0]].ltys[0], f.a[1])
    if f.tag == "fn" and f.a[0] in eng.p.bodies:
        return eng.p.subst(eng.p.bodies[f.a[0]].ltys[0], f.a[1])
    return T_("lt")


@model("Iterator::peekable")
def _(eng, st, a, info):
    return [(st, T_("it_peek", itv(eng, st, a[0], info.atys[0] if info.atys else None), NONE))]


@model("Itertools::unique")
def _(eng, st, a, info):
    it = itv(eng, st, a[0], info.atys[0] if info.atys else None)
    out = []
    for s, c in collect(eng, st, it, "vec", info.pp):
        for s2, c2 in const_coll(eng, s, c):
            out.append((s2, IT(uniq(eng, s2, c2))))
    return out


def const_coll(eng, st, c):
    """a non-empty sequence that repeats one element (or one inner sequence) counts as that element for
    deduplication"""
    if c.tag != "coll" or len(c.a[1]) != 1 or c.a[1][0].tag != "all":
        return [(st, c)]
    P, lo, hi, alts = c.a[1][0].a
    if not alts or any(len(al.a[1]) != 1 or al.a[1][0].tag not in ("one", "base") or P in syms(al.a[1][0]) for al in alts):
        return [(st, c)]
    if not eng.ent_ge(st, ladd(lsub(hi, lo), I(-1))):
        return [(st, c)]
    items = set(al.a[1][0] for al in alts)
    if len(items) == 1:
        x = list(items)[0]
        return [(st, COLL(c.a[0], (x,), I(1) if x.tag == "one" else LEN(x.a[0]), c.a[3]) if x.tag == "one" else x.a[0])]
    out = []
    for al in alts:
        if al.a[1][0].tag != "one":
            return [(st, c)]
        # facts that do not depend on the position decide the alternative for every position alike
        fs = [f for f in al.a[0] if P not in E.fact_syms(f)]
        if not fs:
            return [(st, c)]
        s = apply_facts(eng, st.copy(), fs, {})
        if s is not None:
            out.append((s, COLL(c.a[0], (al.a[1][0],), I(1), c.a[3])))
    # the alternatives must exclude each other, otherwise a sequence may contain several of them
    for i, a in enumerate(alts):
        for b in alts[i + 1:]:
            fs = [f for f in tuple(a.a[0]) + tuple(b.a[0]) if P not in E.fact_syms(f)]
            if apply_facts(eng, st.copy(), fs, {}) is not None:
                return [(st, c)]
    return out


def written(c):
    """the elements of a sequence written out one by one, or None"""
    if c.tag in ("keys", "values") and c.a[0].tag == "coll" and all(x.tag == "one" for x in c.a[0].a[1]):
        return [x.a[0 if c.tag == "keys" else 1] for x in c.a[0].a[1]]
    if c.tag == "coll" and c.a[0] != "map":
        out = []
        for x in c.a[1]:
            if x.tag == "one":
                out.append(x.a[1])
            elif x.tag == "base":
                l = written(x.a[0])
                if l is None:
                    return None
                out += l
            else:
                return None
        return out
    return None


def uniq(eng, st, c):
    if c.tag == "keys" or distinct(c):
        return c
    if c.tag == "coll" and not c.a[1]:
        return c
    if c.tag == "coll" and len(c.a[1]) == 1 and c.a[1][0].tag == "one":
        return c
    if c.tag == "coll" and c.a[0] != "map":
        xs = written(c)
        vs = [eng.deref_all(st, x) for x in xs or ()]
        if xs is not None and all(x.tag in ("s", "T", "F") or x.tag == "i" and isconst(x) for x in vs):
            seen, keep = set(), []
            for x, y in zip(vs, xs):
                if x not in seen:
                    seen.add(x)
                    keep.append(T_("one", NOKEY, y))
            return COLL(c.a[0], tuple(keep), I(len(keep)))
    u = T_("uniq", c)
    # the length of the deduplicated sequence
    return u


def _len_uniq(eng, st, a, u):
    c = u.a[0]
    out = [lsub(LEN(c), lin_of(a))]
    if eng.ent_ge(st, ladd(LEN(c), I(-1))):
        out.append(ladd(lin_of(a), I(-1)))
    if c.tag == "coll":
        for sg in c.a[1]:
            if sg.tag == "all":
                P, lo, hi, alts = sg.a
                if eng.ent_ge(st, ladd(lsub(hi, lo), I(-1))):
                    # one inner sequence of distinct elements is contained as a whole
                    for w in (lo,):
                        for al in alts:
                            if len(alts) == 1 and len(al.a[1]) == 1 and al.a[1][0].tag == "base":
                                b = tsub(al.a[1][0].a[0], {P: w}, {})
                                if distinct(b):
                                    out.append(lsub(lin_of(a), LEN(b)))
            elif sg.tag == "base" and distinct(sg.a[0]):
                out.append(lsub(lin_of(a), LEN(sg.a[0])))
    return out


LEN_FACTS["uniq"] = _len_uniq


def _perm_range(eng, st, a):
    c, j = a.a
    if eng.ent_ge(st, ladd(lsub(LEN(c), lin_of(j)), I(-1))):
        return [ladd(lsub(LEN(c), lin_of(a)), I(-1)), lin_of(a)]
    return []


ATOM_FACTS["perm"] = _perm_range


def _app_range(eng, st, a):
    n = a.a[0].a[0] if a.a[0].tag == "s" else None
    if n in ("iRem", "iDiv") and len(a.a) == 3:
        x, y = a.a[1], a.a[2]
        if eng.ent_ge(st, lin_of(x)) and eng.ent_ge(st, ladd(lin_of(y), I(-1))):
            out = [lin_of(a), lsub(lin_of(x), lin_of(a))]
            if n == "iRem":
                out.append(ladd(lsub(lin_of(y), lin_of(a)), I(-1)))
            return out
    return []


ATOM_FACTS["app"] = _app_range


def it_next(eng, st, it, pp):
    """[(state, iterator', item | None | SKIP)]"""
    k = it.tag
    if k == "ref":
        out = []
        c, p = final_ref(eng, st, it)
        for s, i2, x in it_next(eng, st, D(eng, st, it), pp):
            eng.write(s, c, p, i2)
            out.append((s, it, x))
        return out
    if k == "it_empty":
        return [(st, it, None)]
    if k == "it_coll":
        c, lo, hi, mode = it.a
        g, b = eng.split(st, GE0(ladd(lsub(hi, lo), I(-1))))
        out = []
        n2 = T_("it_coll", c, ladd(lo, I(1)), hi, mode)
        for s in g:
            for s2, kk, v in item(eng, s, c, lo):
                out.append((s2, n2, v if mode in ("e", "v") else kk if mode == "k" else T_("tup", (kk, v))))
        for s in b:
            for s2 in (assume_empty(eng, s, c) if lo is I(0) else [s]):
                out.append((s2, it, None))
        return out
    if k == "it_range":
        lo, hi = it.a
        g, b = eng.split(st, GE0(ladd(lsub(hi, lo), I(-1))))
        return [(s, T_("it_range", ladd(lo, I(1)), hi), lo) for s in g] + [(s, it, None) for s in b]
    if k == "it_from":
        return [(st, T_("it_from", ladd(it.a[0], I(1))), it.a[0])]
    if k == "it_opt":
        return [(s, EMPTY_IT, x) for s, x in opt_cases(eng, st, it.a[0])]
    if k == "it_rep":
        return [(st, it, it.a[0])]
    if k == "it_rw":
        return [(s, it, x) for s, x in call(eng, st, it.a[0], (), pp + ("rw",))]
    if k == "it_ff":
        out = []
        for s, x in call(eng, st, it.a[0], (), pp + ("ff",)):
            out += [(s2, it, y) for s2, y in opt_cases(eng, s, x)]
        return out
    if k in ("it_map", "it_filter", "it_fm", "it_insp", "it_tw", "it_mw", "it_sw"):
        out = []
        f = it.a[1]
        for s, i2, x in it_next(eng, st, it.a[0], pp + ("i",)):
            n2 = T_(k, i2, f)
            if x is None or x is SKIP:
                out.append((s, n2, x))
                continue
            for s2, r in call(eng, s, f, (x,), pp + ("c",)):
                if k == "it_map":
                    out.append((s2, n2, r))
                elif k == "it_insp":
                    out.append((s2, n2, x))
                elif k == "it_filter":
                    out += [(s3, n2, x if b else SKIP) for s3, b in pred_cases(eng, s2, r)]
                elif k == "it_tw":
                    out += [(s3, n2 if b else EMPTY_IT, x if b else None) for s3, b in pred_cases(eng, s2, r)]
                elif k == "it_sw":
                    out += [(s3, n2 if b else i2, SKIP if b else x) for s3, b in pred_cases(eng, s2, r)]
                elif k == "it_mw":
                    out += [(s3, n2 if y is not None else EMPTY_IT, y) for s3, y in opt_cases(eng, s2, r)]
                else:
                    out += [(s3, n2, SKIP if y is None else y) for s3, y in opt_cases(eng, s2, r)]
        return out
    if k == "it_enum":
        out = []
        for s, i2, x in it_next(eng, st, it.a[0], pp + ("i",)):
            if x is None or x is SKIP:
                out.append((s, T_("it_enum", i2, it.a[1]), x))
            else:
                out.append((s, T_("it_enum", i2, ladd(it.a[1], I(1))), T_("tup", (it.a[1], x))))
        return out
    if k == "it_take":
        g, b = eng.split(st, GE0(ladd(it.a[1], I(-1))))
        out = [(s, it, None) for s in b]
        for s in g:
            for s2, i2, x in it_next(eng, s, it.a[0], pp + ("i",)):
                out.append((s2, T_("it_take", i2, it.a[1] if x is None or x is SKIP else ladd(it.a[1], I(-1))), x))
        return out
    if k == "it_skip":
        g, b = eng.split(st, GE0(ladd(it.a[1], I(-1))))
        out = []
        for s in b:
            out += it_next(eng, s, it.a[0], pp + ("i",))
        for s in g:
            for s2, i2, x in it_next(eng, s, it.a[0], pp + ("i",)):
                if x is None:
                    out.append((s2, EMPTY_IT, None))
                else:
                    out.append((s2, T_("it_skip", i2, it.a[1] if x is SKIP else ladd(it.a[1], I(-1))), SKIP))
        return out
    if k == "it_zip":
        out = []
        for s, i2, x in it_next(eng, st, it.a[0], pp + ("i",)):
            if x is None or x is SKIP:
                out.append((s, T_("it_zip", i2, it.a[1]), x))
                continue
            for s2, j2, y in it_next(eng, s, it.a[1], pp + ("j",)):
                if y is SKIP:
                    raise EngineLimit("zip with filtered iterator")
                out.append((s2, T_("it_zip", i2, j2), None if y is None else T_("tup", (x, y))))
        return out
    if k == "it_chain":
        out = []
        for s, i2, x in it_next(eng, st, it.a[0], pp + ("i",)):
            if x is None:
                for s2, j2, y in it_next(eng, s, it.a[1], pp + ("j",)):
                    out.append((s2, T_("it_chain", EMPTY_IT, j2), y))
            else:
                out.append((s, T_("it_chain", i2, it.a[1]), x))
        return out
    if k == "it_flat":
        out = []
        src, f, cur, rty = it.a
        for s, c2, y in it_next(eng, st, cur, pp + ("f",)):
            if y is not None:
                out.append((s, T_("it_flat", src, f, c2, rty), y))
                continue
            for s2, i2, x in it_next(eng, s, src, pp + ("i",)):
                if x is None or x is SKIP:
                    out.append((s2, T_("it_flat", i2, f, EMPTY_IT, rty), x))
                    continue
                rs = [(s2, x)] if f.tag == "idf" else call(eng, s2, f, (x,), pp + ("c",))
                for s3, r in rs:
                    out.append((s3, T_("it_flat", i2, f, into_iter(eng, s3, r, rty if rty.tag != "lt" else None), rty), SKIP))
        return out
    if k == "it_peek":
        out = []
        if it.a[1].tag == "V" and it.a[1].a[1] == 1:
            y = it.a[1].a[2][0]
            return [(st, T_("it_peek", it.a[0], NONE), None if y.tag == "V" and y.a[0] == OPT and y.a[1] == 0 else y.a[2][0])]
        return [(s, T_("it_peek", i2, NONE), x) for s, i2, x in it_next(eng, st, it.a[0], pp + ("i",))]
    if k == "it_rev":
        return [(s, T_("it_rev", i2), x) for s, i2, x in it_next_back(eng, st, it.a[0], pp)]
    if k == "it_opq":
        # foreign iterator: some element or the end
        s2 = st.copy()
        x = eng.sym(pp + ("opq",), ("unk", "iterator"))
        return [(s2, it, x), (st, EMPTY_IT, None)]
    raise EngineLimit("iterator " + k)


def it_next_back(eng, st, it, pp):
    k = it.tag
    if k == "ref":
        out = []
        c, p = final_ref(eng, st, it)
        for s, i2, x in it_next_back(eng, st, D(eng, st, it), pp):
            eng.write(s, c, p, i2)
            out.append((s, it, x))
        return out
    if k == "it_coll":
        c, lo, hi, mode = it.a
        g, b = eng.split(st, GE0(ladd(lsub(hi, lo), I(-1))))
        out = []
        last = ladd(hi, I(-1))
        n2 = T_("it_coll", c, lo, last, mode)
        for s in g:
            for s2, kk, v in item(eng, s, c, last):
                out.append((s2, n2, v if mode in ("e", "v") else kk if mode == "k" else T_("tup", (kk, v))))
        return out + [(s, it, None) for s in b]
    if k == "it_range":
        lo, hi = it.a
        g, b = eng.split(st, GE0(ladd(lsub(hi, lo), I(-1))))
        return [(s, T_("it_range", lo, ladd(hi, I(-1))), ladd(hi, I(-1))) for s in g] + [(s, it, None) for s in b]
    if k in ("it_map", "it_filter", "it_fm"):
        out = []
        f = it.a[1]
        for s, i2, x in it_next_back(eng, st, it.a[0], pp + ("i",)):
            n2 = T_(k, i2, f)
            if x is None or x is SKIP:
                out.append((s, n2, x))
                continue
            for s2, r in call(eng, s, f, (x,), pp + ("c",)):
                if k == "it_map":
                    out.append((s2, n2, r))
                elif k == "it_filter":
                    out += [(s3, n2, x if b else SKIP) for s3, b in pred_cases(eng, s2, r)]
                else:
                    out += [(s3, n2, SKIP if y is None else y) for s3, y in opt_cases(eng, s2, r)]
        return out
    if k == "it_enum":
        n = it_size(eng, st, it.a[0])
        if n is None:
            raise EngineLimit("reverse enumerate")
        out = []
        for s, i2, x in it_next_back(eng, st, it.a[0], pp + ("i",)):
            out.append((s, T_("it_enum", i2, it.a[1]), x if x is None else T_("tup", (ladd(it.a[1], ladd(n, I(-1))), x))))
        return out
    if k == "it_rev":
        return [(s, T_("it_rev", i2), x) for s, i2, x in it_next(eng, st, it.a[0], pp)]
    if k == "it_empty":
        return [(st, it, None)]
    if k == "it_opt":
        return [(s, EMPTY_IT, x) for s, x in opt_cases(eng, st, it.a[0])]
    raise EngineLimit("next_back of " + k)


def it_size(eng, st, it):
    """exact number of remaining items, if known"""
    k = it.tag
    if k == "it_coll":
        return lsub(it.a[2], it.a[1])
    if k == "it_range":
        if eng.ent_ge(st, lsub(it.a[1], it.a[0])):
            return lsub(it.a[1], it.a[0])
        return None
    if k in ("it_map", "it_enum", "it_insp", "it_rev"):
        return it_size(eng, st, it.a[0])
    if k == "it_empty":
        return I(0)
    if k == "it_opt":
        d = eng.disc_of(st, it.a[0])
        return None if d is None else I(d)
    return None


def pure_whole(it):
    """the collection behind an iterator that passes over all of it unchanged"""
    if it.tag == "it_coll" and it.a[1] is I(0):
        c, lo, hi, mode = it.a
        if hi is LEN(c):
            if mode == "e":
                return c
            if mode == "k":
                return T_("keys", c)
            if mode == "v":
                return T_("values", c)
            if mode == "p":
                return c
    return None


def drive(eng, st, it, pp, accs, step, tag="d"):
    """run an iterator to its end: step(state, accs, item) -> [(state, accs, exit tag | None, exit value)];
    returns [(state, exit tag or 'end', value, accs)]"""
    import loops
    fid = pp[0]
    C = T_("g", "it", fid, pp[1:], tag)
    AC = [T_("g", "acc", fid, pp[1:], tag, i) for i in range(len(accs))]
    X = T_("g", "x", fid, pp[1:], tag)
    st.cells[C] = it
    for c, v in zip(AC, accs):
        st.cells[c] = v
    st._k = None

    def body(ss):
        backs, exits = [], []
        for s0 in ss:
            for s, i2, x in it_next(eng, s0, s0.cells[C], pp + (tag,)):
                s.cells[C] = i2
                s._k = None
                if x is SKIP:
                    backs.append(s)
                elif x is None:
                    s.cells[X] = UNIT
                    exits.append(("end", s))
                else:
                    av = [s.cells[c] for c in AC]
                    for s2, av2, t, v in step(s, av, x):
                        s2._k = None
                        for c, q in zip(AC, av2):
                            s2.cells[c] = q
                        if t is None:
                            backs.append(s2)
                        else:
                            s2.cells[X] = v
                            exits.append((t, s2))
        return backs, exits

    out = []
    for t, s in loops.fix(eng, ("L", fid, pp[1:] + (tag,)), [st], body):
        av = [s.cells.pop(c) for c in AC]
        v = s.cells.pop(X)
        i2 = s.cells.pop(C)
        s._k = None
        out.append((s, t, v, av + [i2]))
    return out


def next_item(eng, st, it, pp):
    """next() with filtered elements skipped: [(state, iterator', item or None)]"""
    rs = it_next(eng, st.copy(), it, pp)
    if not any(x is SKIP for _, _, x in rs):
        return rs
    out = []
    for s, t, v, av in drive(eng, st, it, pp, [], lambda s, av, x: [(s, av, "got", x)], "nx"):
        out.append((s, av[-1], v if t == "got" else None))
    return out


@model("Iterator::next", "DoubleEndedIterator::next_back")
def _(eng, st, a, info):
    r = a[0]
    it = D(eng, st, r)
    if it.tag in ("vol", "y", "fld", "at"):
        s2 = st.copy()
        ty = info.dty.a[1][0]
        return [(st, NONE), (s2, SOME(eng.fresh(ty, info.pp, "iterator")))]
    if it.tag == "V" and it.a[0].startswith("core::ops::range"):
        it = into_iter(eng, st, it)
    if info.key.endswith("next_back"):
        rs = it_next_back(eng, st, it, info.pp)
        if any(x is SKIP for _, _, x in rs):
            raise EngineLimit("next_back over filter")
    else:
        rs = None
        if r.tag == "ref" and len(info.pp) == 3 and info.pp[2] == "t" and eng.can_redo(info.fr, info.pp[1]) is not None:
            rs = it_next(eng, st.copy(), it, info.pp)
            if any(x is SKIP for _, _, x in rs) and len(rs) > 64:
                rs = None
        if rs is None:
            rs = next_item(eng, st, it, info.pp)
    out = []
    for s, i2, x in rs:
        if r.tag == "ref":
            set_ref(eng, s, r, i2)
        out.append((s, SKIP if x is SKIP else NONE if x is None else SOME(x)))
    return out


@model("Peekable::peek")
def _(eng, st, a, info):
    it = D(eng, st, a[0])
    if it.tag != "it_peek":
        raise EngineLimit("peek")
    if it.a[1].tag == "V" and it.a[1].a[1] == 1:
        return [(st, it.a[1].a[2][0])]
    out = []
    for s, i2, x in next_item(eng, st, it.a[0], info.pp):
        o = NONE if x is None else SOME(x)
        set_ref(eng, s, a[0], T_("it_peek", i2, SOME(o)))
        out.append((s, o))
    return out


def arg_it(eng, st, a, info):
    x = D(eng, st, a[0])
    if x.tag.startswith("it_"):
        return a[0] if a[0].tag == "ref" else x
    if x.tag in ("vol", "y", "fld", "at") and not (info.atys and kind_of_ty(info.atys[0])):
        return T_("it_opq", x)
    return into_iter(eng, st, x, info.atys[0] if info.atys else None)


def collect(eng, st, it, kind, pp):
    """[(state, collection)]"""
    v = D(eng, st, it) if it.tag == "ref" else it
    w = pure_whole(v)
    if w is not None:
        mode = v.a[3]
        if kind == "vec" and mode in ("e", "k", "v") and not (w.tag == "coll" and w.a[0] in ("map", "set", "bmap")):
            return [(st, w)]
        if kind in ("map", "bmap") and mode == "p":
            return [(st, w)]
        if kind == "set" and mode in ("k",) and w.tag == "keys":
            return [(st, w)]
    acc = COLL(kind, (), I(0))

    def step(s, av, x):
        c = av[0]
        if kind in ("map", "bmap"):
            x = D(eng, s, x)
            k, vv = (x.a[0] if x.tag == "tup" else (fld(x, 0, 0), fld(x, 0, 1)))
            return [(s2, [c2], None, None) for s2, c2 in map_put(eng, s, c, k, vv)]
        if kind == "set":
            return [(s2, [c2], None, None) for s2, c2 in map_put(eng, s, c, x, UNIT)]
        return [(s, [COLL(c.a[0], c.a[1] + (ONE(NOKEY, x),), ladd(c.a[2], I(1)), c.a[3]) if c.tag == "coll" else COLL("vec", (BASE(c), ONE(NOKEY, x)), ladd(LEN(c), I(1)))], None, None)]

    if w is not None and kind != "vec" and w.tag == "coll" and w.a[0] == "vec" and len(w.a[1]) <= 64 and all(g.tag == "one" for g in w.a[1]):
        # a list of given elements
        sts = [(st, acc)]
        for g in w.a[1]:
            sts = [(s2, av[0]) for s, c in sts for s2, av, _, _ in step(s, [c], g.a[1])]
        return sts
    if v.tag == "it_flat" and kind == "vec":
        # flattening keeps whole inner sequences
        return collect_flat(eng, st, v, pp)
    out = []
    for s, t, _, av in drive(eng, st, it, pp, [acc], step, "col"):
        out.append((s, av[0]))
    return out


def collect_flat(eng, st, it, pp):
    src, f, cur, rty = it.a
    acc = COLL("vec", (), I(0))

    def step(s, av, x):
        out = []
        rs = [(s, x)] if f.tag == "idf" else call(eng, s, f, (x,), pp + ("fc",))
        for s2, r in rs:
            inner = into_iter(eng, s2, r, rty if rty.tag != "lt" else None)
            c = av[0]
            iv = D(eng, s2, inner)
            if iv.tag == "it_opt":
                for s3, y in opt_cases(eng, s2, iv.a[0]):
                    out.append((s3, [c if y is None else COLL("vec", c.a[1] + (ONE(NOKEY, y),), ladd(c.a[2], I(1)), c.a[3])], None, None))
                continue
            for s3, w in collect(eng, s2, inner, "vec", pp + ("fi",)):
                out.append((s3, [COLL("vec", c.a[1] + (BASE(w),), ladd(c.a[2], LEN(w)), c.a[3])], None, None))
        return out
    if cur is not EMPTY_IT:
        raise EngineLimit("flat_map already started")
    return [(s, av[0]) for s, t, _, av in drive(eng, st, src, pp, [acc], step, "colf")]


def map_put(eng, st, c, k, v):
    """insert for collected maps; an element with a key that is fresh by construction extends the comprehension"""
    k = D(eng, st, k)
    if c.tag != "coll":
        c = COLL("map", (BASE(c),), LEN(c))
    fresh = key_fresh(eng, st, c, k)
    if fresh:
        return [(st, COLL(c.a[0], c.a[1] + (ONE(k, v),), ladd(c.a[2], I(1)), c.a[3]))]
    out = []
    for s, old in lookup(eng, st, c, k):
        if old is None:
            out.append((s, COLL(c.a[0], c.a[1] + (ONE(k, v),), ladd(c.a[2], I(1)), c.a[3])))
        else:
            out.append((s, COLL(c.a[0], c.a[1] + (DEL(k), ONE(k, v)), c.a[2], c.a[3] | {"ovw"})))
    return out


def key_fresh(eng, st, c, k):
    """the key cannot occur among the collected ones: keys taken at increasing positions of one distinct sequence"""
    for sg in c.a[1]:
        if sg.tag == "one":
            if eng.keq(st, sg.a[0], k) is not False:
                return False
        elif sg.tag == "all":
            P, lo, hi, alts = sg.a
            for al in alts:
                for itm in al.a[1]:
                    if itm.tag != "one":
                        return False
                    kk = itm.a[0]
                    if not pos_lt(eng, st, kk, k, P, lo, hi):
                        return False
        else:
            return False
    return True


INJ_FLD = []     # functions that map a component of a key to that key when different keys differ in the component


def inj_key(t):
    for f in INJ_FLD:
        r = f(t)
        if r is not None:
            return r
    return None


def inj_path(t):
    """(sequence, position) when t is the element of a distinct sequence at a position"""
    if t.tag == "fld":
        r = inj_key(t)
        return None if r is None else inj_path(r)
    if t.tag == "kat":
        return ("kat", t.a[0]), lin_of(t.a[1])
    if t.tag == "at" and distinct(t.a[0]):
        return ("at", t.a[0]), lin_of(t.a[1])
    if t.tag == "app" and t.a[0].tag == "s" and t.a[0].a[0] in INJECTIVE and len(t.a) == 2:
        r = inj_path(t.a[1])
        if r is None and t.a[1].tag == "i":
            return (("app", t.a[0]), t.a[1])
        return None if r is None else (("app", t.a[0]) + r[0], r[1])
    if t.tag == "perm":
        return ("perm", t.a[0]), lin_of(t.a[1])
    if t.tag == "pos" and at_most_one(t.a[0], t.a[1]):
        return ("pos", t.a[0]), lin_of(t.a[2])
    if t.tag == "i":
        if len(t.a[1]) == 1 and t.a[0] == 0 and t.a[1][0][1] == 1:
            r = inj_path(t.a[1][0][0])
            if r:
                return r
        return ("i",), t
    return None


def at_most_one(c, n):
    """every position of segment n of this sequence contributes at most one element"""
    n = cval(lin_of(n))
    if c.tag != "coll" or c.a[0] != "vec" or any(sg.tag != "all" for sg in c.a[1]) or len(c.a[1]) != 1:
        return False
    return all(len(al.a[1]) <= 1 and all(x.tag == "one" for x in al.a[1]) for al in c.a[1][n].a[3])


def pos_lt(eng, st, kk, k, P, lo, hi):
    """element key kk(P), lo <= P < hi, can never equal k"""
    a, b = inj_path(kk), inj_path(k)
    if a is None or b is None or a[0] != b[0] or P in syms_of_path(a[0]):
        return False
    # a position  e1(P) == e2  must be impossible
    s = st.copy()
    if not (eng.add_ge(s, lsub(lin_of(P), lo)) and eng.add_ge(s, ladd(lsub(hi, lin_of(P)), I(-1)))):
        return True
    d = lsub(b[1], a[1])
    x, y = a[1], b[1]
    # nested injections (permutations)
    for _ in range(3):
        p1, p2 = inj_path(x), inj_path(y)
        if p1 and p2 and p1[0] == p2[0] and p1[0] != ("i",):
            x, y = p1[1], p2[1]
    return eng.ev(s, EQ0(lsub(x, y))) is False


def syms_of_path(p):
    r = EMPTY
    for x in p:
        if isinstance(x, T):
            r = r | syms(x)
    return r


def coll_target(ty):
    """(kind, wrapper) for collect::<ty>()"""
    ty = _peel(ty)
    if ty.tag == "adt":
        if ty.a[0] == RES:
            return coll_target(ty.a[1][0])[0], "res"
        if ty.a[0] == OPT:
            return coll_target(ty.a[1][0])[0], "opt"
        if ty.a[0].endswith("::String"):
            return "str", None
        if ty.a[0].endswith("Box") or ty.a[0].endswith("Rc") or ty.a[0].endswith("Arc"):
            return coll_target(ty.a[1][0])
    return kind_of_ty(ty), None


@model("Iterator::collect", "Itertools::collect_vec", "FromIterator::from_iter", "Itertools::try_collect", "Itertools::collect_")
def _(eng, st, a, info):
    it = arg_it(eng, st, a, info)
    kind, w = coll_target(info.dty)
    if info.key.endswith("collect_vec"):
        kind, w = "vec", None
    if kind == "str":
        return [(st, T_("app", S("strcol"), D(eng, st, it)))]
    if kind is None:
        return eng.havoc(st, "collect into " + str(info.dty), a, info.dty, info.pp)
    if w is None:
        return collect(eng, st, it, kind, info.pp)
    # Result / Option: stop at the first failure
    acc = COLL(kind, (), I(0))

    def put(s, c, x):
        if kind in ("map", "bmap"):
            x = D(eng, s, x)
            k, vv = (x.a[0] if x.tag == "tup" else (fld(x, 0, 0), fld(x, 0, 1)))
            return map_put(eng, s, c, k, vv)
        if kind == "set":
            return map_put(eng, s, c, x, UNIT)
        return [(s, COLL(c.a[0], c.a[1] + (ONE(NOKEY, x),), ladd(c.a[2], I(1)), c.a[3]))]

    def step(s, av, x):
        out = []
        if w == "res":
            for s2, ok, y in res_cases(eng, s, x):
                if ok:
                    out += [(s3, [c], None, None) for s3, c in put(s2, av[0], y)]
                else:
                    out.append((s2, av, "err", y))
        else:
            for s2, y in opt_cases(eng, s, x):
                if y is not None:
                    out += [(s3, [c], None, None) for s3, c in put(s2, av[0], y)]
                else:
                    out.append((s2, av, "err", None))
        return out
    out = []
    for s, t, v, av in drive(eng, st, it, info.pp, [acc], lambda s, av, x: [(q, w2, t2, UNIT if v2 is None else v2) for q, w2, t2, v2 in step(s, av, x)], "colr"):
        if t == "end":
            out.append((s, OK(av[0]) if w == "res" else SOME(av[0])))
        else:
            out.append((s, ERR(v) if w == "res" else NONE))
    return out


@model("Extend::extend")
def _(eng, st, a, info):
    c = D(eng, st, a[0])
    if c.tag == "vol":
        return [(st, UNIT)]
    it = into_iter(eng, st, a[1], info.atys[1] if len(info.atys) > 1 else None)
    kd = kind_of_ty(info.atys[0]) if info.atys else "vec"
    out = []
    for s, w in collect(eng, st, it, kd if kd != "bmap" else "bmap", info.pp):
        if c.tag == "coll" and not c.a[1]:
            nc = w
        elif kd == "vec":
            segs = list(c.a[1]) if c.tag == "coll" else [BASE(c)]
            segs += list(w.a[1]) if w.tag == "coll" else [BASE(w)]
            nc = COLL("vec", segs, ladd(LEN(c), LEN(w)))
        else:
            raise EngineLimit("extend of a map")
        set_ref(eng, s, a[0], nc)
        out.append((s, UNIT))
    return out


def compares_with(eng, st, w, f, info, pos):
    """the value that the predicate f compares every element of w with (None: it does something else)"""
    q = T_("y", ("any", w), eng.idx, ("u",))
    s = st.copy()
    if not (eng.add_ge(s, lin_of(q)) and eng.add_ge(s, ladd(lsub(LEN(w), q), I(-1)))):
        return None
    its = item(eng, s, w, lin_of(q))
    if len(its) != 1 or its[0][1] is not NOKEY and w.tag != "keys":
        return None
    s, _, x = its[0]
    if w.tag == "keys":
        x = its[0][1] if its[0][1] is not NOKEY else x
    before = dict(s.cells)
    eng.events.append({})
    try:
        r = call(eng, s.copy(), f, (x,), info.pp + ("cmp",))
    except EngineLimit:
        return None
    finally:
        eng.events.pop()
    if len(r) != 1 or any(r[0][0].cells.get(c) is not v for c, v in before.items()):
        return None
    p = D(eng, r[0][0], r[0][1])
    if not pos:
        p = NOT(p)
    if p.tag != "veq":
        return None
    x = D(eng, s, x)
    y = p.a[1] if p.a[0] is x else p.a[0] if p.a[1] is x else None
    return None if y is None or q in syms(y) else y


@model("Iterator::any", "Iterator::all", "Itertools::contains")
def _(eng, st, a, info):
    it = arg_it(eng, st, a, info)
    k = info.key.split("::")[1]
    if k == "contains":
        v = D(eng, st, it)
        x = D(eng, st, a[1])
        w = pure_whole(v) if v.tag == "it_coll" else None
        if w is not None:
            return contains(eng, st, w, x, info)

    def step(s, av, x):
        out = []
        rs = [(s, eng.VEQ(s, x, D(eng, s, a[1])))] if k == "contains" else call(eng, s, a[1], (x,), info.pp + ("p",))
        for s2, p in rs:
            for s3, b in pred_cases(eng, s2, p):
                if b == (k != "all"):
                    out.append((s3, av, "hit", UNIT))
                else:
                    out.append((s3, av, None, None))
        return out
    out = []
    w = D(eng, st, it)
    w = pure_whole(w) if w.tag == "it_coll" else None
    if w is not None and k in ("any", "all"):
        y = compares_with(eng, st, w, a[1], info, k == "any")
        if y is not None:
            return [(s, p if k == "any" else NOT(p)) for s, p in contains(eng, st, w, y, info)]
    for s, t, v, av in drive(eng, st, it, info.pp, [], step, k):
        if t != "hit" and w is not None and eng.ent_ge(s, ladd(LEN(w), I(-1))):
            # what holds (or fails) for every element does so for the first one
            for s2, key, x in item(eng, s, w, I(0)):
                x = x if key is NOKEY else T_("tup", (key, x))
                out += [(s3, B(k == "all")) for s3, av2, h, _ in step(s2, av, x) if h != "hit"]
            continue
        out.append((s, B((t == "hit") == (k != "all"))))
    return out


@model("Iterator::find", "Iterator::find_map", "Iterator::position", "Itertools::find_position")
def _(eng, st, a, info):
    it = arg_it(eng, st, a, info)
    k = info.key.split("::")[1]

    def step(s, av, x):
        out = []
        for s2, p in call(eng, s, a[1], (x,), info.pp + ("p",)):
            if k == "find_map":
                for s3, y in opt_cases(eng, s2, p):
                    out.append((s3, av, "hit", y) if y is not None else (s3, av, None, None))
            else:
                for s3, b in pred_cases(eng, s2, p):
                    if b:
                        out.append((s3, av, "hit", x if k == "find" else av[0] if k == "position" else T_("tup", (av[0], x))))
                    else:
                        out.append((s3, [ladd(av[0], I(1))], None, None))
        return out
    out = []
    for s, t, v, av in drive(eng, st, it, info.pp, [I(0)], step, k):
        if a[0].tag == "ref":
            pass
        out.append((s, SOME(v) if t == "hit" else NONE))
    return out


@model("Iterator::count")
def _(eng, st, a, info):
    it = arg_it(eng, st, a, info)
    v = D(eng, st, it)
    n = it_size(eng, st, v) if not has_closure(v) else None
    if n is not None:
        return [(st, n)]
    return [(s, av[0]) for s, t, _, av in drive(eng, st, it, info.pp, [I(0)], lambda s, av, x: [(s, [ladd(av[0], I(1))], None, None)], "cnt")]


def has_closure(it):
    return it.tag in ("it_map", "it_filter", "it_fm", "it_insp") or any(has_closure(x) for x in it.a if isinstance(x, T) and x.tag.startswith("it_"))


@model("Iterator::sum", "Iterator::product")
def _(eng, st, a, info):
    it = arg_it(eng, st, a, info)
    op = "sum" if info.key.endswith("sum") else "product"
    if info.dty.tag == "int" and op == "sum":
        return [(s, av[0]) for s, t, _, av in drive(eng, st, it, info.pp, [I(0)], lambda s, av, x: [(s, [ladd(av[0], lin_of(D(eng, s, x)))], None, None)], "sum")]
    out = []
    for s, c in collect(eng, st, it, "vec", info.pp):
        out.append((s, T_("app", S("f" + op), c)))
    return out


@model("Iterator::fold", "Iterator::try_fold_")
def _(eng, st, a, info):
    it = arg_it(eng, st, a, info)

    def step(s, av, x):
        return [(s2, [r], None, None) for s2, r in call(eng, s, a[2], (av[0], x), info.pp + ("f",))]
    return [(s, av[0]) for s, t, _, av in drive(eng, st, it, info.pp, [a[1]], step, "fold")]


@model("Iterator::try_for_each", "Iterator::try_fold")
def _(eng, st, a, info):
    it = arg_it(eng, st, a, info)
    tf = info.key.endswith("fold")
    isres = info.dty.tag == "adt" and info.dty.a[0] == RES

    def step(s, av, x):
        out = []
        for s2, r in call(eng, s, a[2 if tf else 1], (av[0], x) if tf else (x,), info.pp + ("f",)):
            if isres:
                for s3, ok, y in res_cases(eng, s2, r):
                    out.append((s3, [y], None, None) if ok else (s3, av, "err", ERR(y)))
            else:
                for s3, y in opt_cases(eng, s2, r):
                    out.append((s3, [y], None, None) if y is not None else (s3, av, "err", NONE))
        return out
    return [(s, v if t == "err" else (OK if isres else SOME)(av[0])) for s, t, v, av in drive(eng, st, it, info.pp, [a[1] if tf else UNIT], step, "tryf")]


@model("Iterator::for_each", "Itertools::foreach")
def _(eng, st, a, info):
    it = arg_it(eng, st, a, info)

    def step(s, av, x):
        return [(s2, [], None, None) for s2, r in call(eng, s, a[1], (x,), info.pp + ("f",))]
    return [(s, UNIT) for s, t, _, av in drive(eng, st, it, info.pp, [], step, "fe")]


@model("Iterator::last")
def _(eng, st, a, info):
    it = arg_it(eng, st, a, info)
    out = []
    for s, c in collect(eng, st, it, "vec", info.pp):
        ne, em = nonempty(eng, s, c)
        out += [(x, NONE) for x in em]
        for x in ne:
            out += wrap(index(eng, x, c, ladd(LEN(c), I(-1))), SOME)
    return out


@model("Iterator::nth")
def _(eng, st, a, info):
    it = arg_it(eng, st, a, info)
    n = lin_of(D(eng, st, a[1]))
    out = []
    for s, c in collect(eng, st, it, "vec", info.pp):
        g, b = eng.split(s, GE0(ladd(lsub(LEN(c), n), I(-1))))
        out += [(x, NONE) for x in b]
        for x in g:
            out += wrap(index(eng, x, c, n), SOME)
    return out


@model("Iterator::max", "Iterator::min", "Iterator::max_by", "Iterator::min_by", "Iterator::max_by_key", "Iterator::min_by_key", "Itertools::sorted_", "SliceRandom::choose", "IteratorRandom::choose", "IndexedRandom::choose",
       "Itertools::minmax_")
def _(eng, st, a, info):
    """some element of a non-empty collection"""
    x = D(eng, st, a[0])
    out = []
    if info.key in ("SliceRandom::choose", "IndexedRandom::choose"):
        cs = [(st, x)]
    else:
        cs = collect(eng, st, arg_it(eng, st, a, info), "vec", info.pp)
    for s, c in cs:
        xs = written(c) if info.key in ("Iterator::max", "Iterator::min") else None
        vs = [eng.deref_all(s, y) for y in xs or ()]
        if vs and (all(y.tag == "s" for y in vs) or all(y.tag == "i" and isconst(y) for y in vs)):
            f = max if info.key == "Iterator::max" else min
            rank = (lambda i: vs[i].a[0].encode() if vs[i].tag == "s" else cval(vs[i]))
            out.append((s, SOME(xs[f(range(len(vs)), key=rank)])))
            continue
        ne, em = nonempty(eng, s, c)
        out += [(q, NONE) for q in em]
        for q in ne:
            j = lin_of(eng.sym(info.pp + ("ix",), "u", "rnd"))
            if eng.add_ge(q, ladd(lsub(LEN(c), j), I(-1))):
                eng.event("choose", q, (c, j))
                for q2, v in index(eng, q, c, j):
                    out.append((q2, SOME(v)))
    return out


@model("Itertools::sorted", "Itertools::sorted_by", "Itertools::sorted_by_key", "Itertools::sorted_unstable")
def _(eng, st, a, info):
    return [(s, IT(T_("shuf", c))) for s, c in collect(eng, st, arg_it(eng, st, a, info), "vec", info.pp)]


@model("Itertools::all_equal", "Itertools::all_unique")
def _(eng, st, a, info):
    return [(st, T_("pred", S(info.key), D(eng, st, a[0])))]


@model("Vec::retain", "HashMap::retain")
def _(eng, st, a, info):
    c = D(eng, st, a[0])
    if c.tag == "vol":
        return [(st, UNIT)]
    ismap = info.key[0] == "H"

    def step(s, av, x):
        out = []
        args = (x,) if not ismap else (x.a[0][0], x.a[0][1])
        for s2, p in call(eng, s, a[1], args, info.pp + ("p",)):
            for s3, b in pred_cases(eng, s2, p):
                if not b:
                    out.append((s3, av, None, None))
                elif ismap:
                    out += [(s4, [c2], None, None) for s4, c2 in map_put(eng, s3, av[0], x.a[0][0], x.a[0][1])]
                else:
                    out.append((s3, [COLL("vec", av[0].a[1] + (ONE(NOKEY, x),), ladd(av[0].a[2], I(1)))], None, None))
        return out
    out = []
    for s, t, _, av in drive(eng, st, IT(c, "p" if ismap else "e"), info.pp, [COLL("map" if ismap else "vec", (), I(0))], step, "ret"):
        set_ref(eng, s, a[0], av[0])
        out.append((s, UNIT))
    return out


# ---- strings, formatting, logging --------------------------------------------------------------

@model("ToString::to_string")
def _(eng, st, a, info):
    x = D(eng, st, a[0])
    t = _peel(info.atys[0]) if info.atys else None
    if x.tag == "i" or t is not None and t.tag == "int":
        x = lin_of(x)
        return [(st, S(str(cval(x))) if isconst(x) else T_("app", S("dec"), x))]
    if t is not None and (t.tag == "str" or (t.tag == "adt" and t.a[0].endswith("::String"))):
        return [(st, x)]
    if t is not None and t.tag == "adt" and t.a[0] == "serde_json::value::Value":
        return [(st, T_("app", S("jsonstr"), x))]
    return [(st, T_("app", S("tostr"), x))]


@model("fmt::format", "Arguments::new", "Arguments::from_str", "Arguments::from_str_nonconst", "Arguments::new_const", "Arguments::new_v1", "Argument::new_display", "Argument::new_debug", "Argument::new_lower_exp")
def _(eng, st, a, info):
    return [(st, T_("app", S(info.key), *[freeze(D(eng, st, x)) for x in a]))]


def freeze(x):
    return x


@model("__private_api::loc")
def _(eng, st, a, info):
    return [(st, UNIT)]


@model("__private_api::log", "io::_print", "io::_eprint", "stdio::_print", "stdio::_eprint")
def _(eng, st, a, info):
    eng.event("print" if "print" in info.key else "log", st, (info.key,) + tuple(D(eng, st, x) for x in a[:1]))
    return [(st, UNIT)]


@model("log::max_level")
def _(eng, st, a, info):
    return [(st, eng.sym(info.pp, "lvl"))]


@model("Write::write_fmt", "Formatter::write_fmt", "Formatter::write_str", "Formatter::write_char", "fmt::Write::write_str")
def _(eng, st, a, info):
    s2 = st.copy()
    return [(st, OK(UNIT)), (s2, ERR(eng.sym(info.pp, "fmterr")))]


@model("str::parse")
def _(eng, st, a, info):
    x = D(eng, st, a[0])
    s2 = st.copy()
    ty = info.dty.a[1][0]
    if ty.tag == "int":
        if x.tag == "app" and x.a[0] is S("dec"):
            return [(st, OK(lin_of(x.a[1])))]
        v = lin_of(T_("app", S("parse"), S(str(ty.a[0])), x))
        if ty.a[0][0] == "u":
            eng.unsigned.add(v.a[1][0][0])
        good = eng.assume(st, T_("pred", S("parses"), S(str(ty.a[0])), x), True)
        bad = eng.assume(s2, T_("pred", S("parses"), S(str(ty.a[0])), x), False)
        return [(s, OK(v)) for s in good] + [(s, ERR(eng.sym(info.pp, "perr"))) for s in bad]
    return [(st, OK(eng.fresh(ty, info.pp))), (s2, ERR(eng.sym(info.pp, "perr")))]


@model("str::starts_with", "str::ends_with", "str::contains")
def _(eng, st, a, info):
    x, y = D(eng, st, a[0]), D(eng, st, a[1])
    if x.tag == "s" and y.tag == "s":
        k = info.key.split("::")[1]
        return [(st, B(x.a[0].startswith(y.a[0]) if k == "starts_with" else x.a[0].endswith(y.a[0]) if k == "ends_with" else y.a[0] in x.a[0]))]
    return [(st, T_("pred", S(info.key), x, y))]


@model("str::strip_prefix", "str::strip_suffix")
def _(eng, st, a, info):
    x, y = D(eng, st, a[0]), D(eng, st, a[1])
    if x.tag == "s" and y.tag == "s":
        r = x.a[0]
        if info.key.endswith("prefix"):
            return [(st, SOME(S(r[len(y.a[0]):])) if r.startswith(y.a[0]) else NONE)]
        return [(st, SOME(S(r[:-len(y.a[0])])) if r.endswith(y.a[0]) else NONE)]
    p = T_("pred", S("str::starts_with" if info.key.endswith("prefix") else "str::ends_with"), x, y)
    g, b = eng.split(st, p)
    return [(s, SOME(T_("app", S(info.key), x, y))) for s in g] + [(s, NONE) for s in b]


@model("str::replace", "str::trim", "str::to_lowercase", "str::to_uppercase", "str::trim_start", "str::trim_end", "str::trim_matches", "str::trim_start_matches", "str::trim_end_matches", "str::to_ascii_lowercase")
def _(eng, st, a, info):
    return [(st, T_("app", S(info.key), *[D(eng, st, x) for x in a]))]


@model("String::push_str", "String::push", "String::insert_str")
def _(eng, st, a, info):
    x, y = D(eng, st, a[0]), D(eng, st, a[-1])
    if y.tag == "ch" and y.a[0].isdigit():
        y = S(chr(int(y.a[0])))
    if info.key == "String::insert_str":
        set_ref(eng, st, a[0], eng.fresh(E._peel(info.atys[0]), info.pp, info.key))
        return [(st, UNIT)]
    set_ref(eng, st, a[0], S(x.a[0] + y.a[0]) if x.tag == "s" and y.tag == "s" else T_("app", S("cat"), x, y))
    return [(st, UNIT)]


@model("u8::is_ascii_whitespace", "char::is_ascii_whitespace", "char::is_whitespace", "char::is_ascii_digit", "u8::is_ascii_digit", "str::eq_ignore_ascii_case")
def _(eng, st, a, info):
    return [(st, T_("pred", S(info.key), *[D(eng, st, x) for x in a]))]


@model("String::from_utf8_lossy")
def _(eng, st, a, info):
    return [(st, T_("app", S("lossy"), D(eng, st, a[0])))]


@model("String::from_utf8", "str::from_utf8")
def _(eng, st, a, info):
    x = D(eng, st, a[0])
    g, b = eng.split(st, T_("pred", S("utf8"), x))
    return [(s, OK(x)) for s in g] + [(s, ERR(eng.sym(info.pp, "u8err"))) for s in b]


# ---- panics ------------------------------------------------------------------------------------

@model("panicking::panic_fmt", "panicking::panic", "panicking::unreachable_display", "rt::begin_panic", "panicking::panic_display", "panicking::assert_failed", "panicking::unreachable_default_msg", "rt::panic_fmt",
       "panicking::panic_explicit", "option::expect_failed", "result::unwrap_failed", "panicking::panic_str_2015", "panicking::panic_nounwind")
def _(eng, st, a, info):
    if info.key == "panicking::unreachable_default_msg":
        return [(st, eng.sym(info.pp))]
    eng.panic(st, info.key)
    return []


@model("panic::resume_unwind")
def _(eng, st, a, info):
    return []


# ---- finite ------------------------------------------------------------------------------------

@model("Finite::new")
def _(eng, st, a, info):
    x = D(eng, st, a[0])
    g, b = eng.split(st, T_("fin", x))
    return [(s, OK(x)) for s in g] + [(s, ERR(eng.sym(info.pp, "nf"))) for s in b]


@model("Finite::get")
def _(eng, st, a, info):
    x = D(eng, st, a[0])
    if x.tag != "fc":
        r = eng.fint(st, x)
        st.fi[x] = _meet(r, (-FMAX, FMAX, False))
        st._k = None
    return [(st, x)]


# ---- sequences selected from others ------------------------------------------------------------

@norm_rule("at")
def _at(c, i):
    return T_("at", c, i)


# ---- JSON values -------------------------------------------------------------------------------

JSON = "serde_json::value::Value"
YAML = "serde_yaml::value::Value"


@model("Value::is_null", "Value::is_string", "Value::is_object", "Value::is_array", "Value::is_bool", "Value::is_boolean", "Value::is_number", "Value::is_mapping", "Value::is_sequence")
def _(eng, st, a, info):
    x = D(eng, st, a[0])
    adt = eng.p.adt_of(info.atys[0]) if info.atys else JSON
    nm = {"null": "Null", "string": "String", "object": "Object", "array": "Array", "bool": "Bool", "boolean": "Bool", "number": "Number", "mapping": "Mapping", "sequence": "Sequence"}[info.key.split("_")[1]]
    v = eng.p.vidx(adt, nm)
    eng.adt_hint[x] = adt
    d = eng.disc_of(st, x)
    return [(st, B(d == v) if d is not None else T_("isd", x, v, eng.p.nvariants(adt)))]


def _asx(nm, fn=None):
    def f(eng, st, a, info):
        x = D(eng, st, a[0])
        adt = eng.p.adt_of(info.atys[0]) if info.atys else JSON
        v = eng.p.vidx(adt, nm)
        out = []
        eng.adt_hint[x] = adt
        for s, d in eng.split_disc(st, x, adt):
            if d != v:
                out.append((s, NONE))
                continue
            y = fld(x, v, 0)
            out += fn(eng, s, y, info) if fn else [(s, SOME(y))]
        return out
    return f


def _num(what):
    def f(eng, st, y, info):
        return num_as(eng, st, y, what)
    return f


def num_as(eng, st, y, what):
    """serde Number::as_f64 / as_i64 / as_u64"""
    if y.tag == "app" and y.a[0] is S("num_i"):
        x = lin_of(y.a[1])
        if what == "f64":
            return [(st, SOME(FC(float(cval(x))) if isconst(x) else T_("app", S("i2f"), x)))]
        lo, hi = INTR[what]
        g, b = eng.split(st, T_("and", GE0(lsub(x, I(lo))), GE0(lsub(I(hi), x))))
        return [(s, SOME(x)) for s in g] + [(s, NONE) for s in b]
    if y.tag == "app" and y.a[0] is S("num_f"):
        return [(st, SOME(y.a[1]) if what == "f64" else NONE)]
    if what == "f64":
        x = T_("app", S("num_f64"), y)
        return [(st, SOME(x))]
    x = T_("app", S("num_" + what), y)
    if what == "u64":
        eng.unsigned.add(x)
    x = lin_of(x)
    lo, hi = INTR[what]
    p = T_("pred", S("num_is"), S(what), y)
    g, b = eng.split(st, p)
    out = []
    for s in g:
        eng.add_ge(s, lsub(x, I(lo)))
        eng.add_ge(s, lsub(I(hi), x))
        out.append((s, SOME(x)))
    return out + [(s, NONE) for s in b]


for _w in ("f64", "i64", "u64"):
    def _na(eng, st, a, info, w=_w):
        return num_as(eng, st, D(eng, st, a[0]), w)
    MODELS["Number::as_" + _w] = _na
    MODELS["Value::as_" + _w] = _asx("Number", _num(_w))
MODELS["Value::as_str"] = _asx("String")
MODELS["Value::as_bool"] = _asx("Bool")
MODELS["Value::as_array"] = _asx("Array")
MODELS["Value::as_object"] = _asx("Object")
MODELS["Value::as_mapping"] = _asx("Mapping")
MODELS["Value::as_sequence"] = _asx("Sequence")


@model("Number::from_f64")
def _(eng, st, a, info):
    x = D(eng, st, a[0])
    g, b = eng.split(st, T_("fin", x))
    return [(s, SOME(T_("app", S("num_f"), x))) for s in g] + [(s, NONE) for s in b]


@model("serde_json::to_string", "serde_json::to_string_pretty", "serde_json::to_vec", "serde_yaml::to_string")
def _(eng, st, a, info):
    x = D(eng, st, a[0])
    if info.key.startswith("serde_json"):
        return [(st, OK(T_("app", S("jsonstr"), x)))]
    s2 = st.copy()
    return [(st, OK(T_("app", S("yamlstr"), x))), (s2, ERR(eng.sym(info.pp, "serr")))]


@model("serde_json::from_str", "serde_json::from_slice", "serde_yaml::from_str", "serde_json::from_value", "serde_json::from_reader")
def _(eng, st, a, info):
    x = D(eng, st, a[0])
    eng.event("parse", st, (info.key, x, info.dty))
    s2 = st.copy()
    v = T_("app", S("parsed"), info.dty.a[1][0], x) if not (x.tag == "app" and x.a[0] is S("jsonstr")) else x.a[1]
    return [(st, OK(v)), (s2, ERR(eng.sym(info.pp, "parse_err")))]
