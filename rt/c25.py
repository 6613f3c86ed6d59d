"""C25: shapes, axes, indices and arrays, checked against NumPy itself."""
import math
import re
import warnings
from random import Random
import numpy as np
from pyvc.runtime import RT
from hypothesis import strategies as st
from hypothesis.errors import InvalidArgument
from hypothesis.extra import numpy as nps
from rt.draw import draw

NO = ("refused", None, None)


def attempt(make, seed, edge, n=3):
    "values of the strategy `make()`, or NO if its arguments are refused"
    try:
        s = make()
        s.validate()
    except InvalidArgument as e:
        return [("refused", e, None)]
    return [draw(s, seed + k, edge) for k in range(n)]


def in_limits(shape, lo, hi, mn, mx):
    return type(shape) is tuple and lo <= len(shape) <= hi and all(type(s) is int and mn <= s <= mx for s in shape)


def pick(rng, default, vals, p=.6):
    return rng.choice(vals) if rng.random() < p else default


# --- array_shapes, valid_tuple_axes
def g_shapes(rng):
    lo = pick(rng, 1, [0, 0, 1, 2, 5, 30, 32])
    hi = pick(rng, None, [lo, lo + 1, lo + 4, 32, 0])
    mn = pick(rng, 1, [0, 1, 2, 5])
    mx = pick(rng, None, [mn, mn + 1, 1, 12])
    return lo, hi, mn, mx, rng.getrandbits(32), rng.random() < .7


def p_shapes(a):
    lo, hi, mn, mx, seed, edge = a
    for st_, v, d in attempt(lambda: nps.array_shapes(min_dims=lo, max_dims=hi, min_side=mn, max_side=mx), seed, edge):
        H, M = (min(lo + 2, 32) if hi is None else hi), (mn + 5 if mx is None else mx)
        valid = 0 <= lo <= H <= 32 and 0 <= mn <= M
        if st_ == "refused":
            return f"array_shapes{a[:4]} was refused: {v}" if valid else None
        if not valid:
            return f"array_shapes{a[:4]} was accepted"
        if st_ == "ok" and not in_limits(v, lo, H, mn, M):
            return f"array_shapes(min_dims={lo}, max_dims={hi}, min_side={mn}, max_side={mx}) gave {v!r}"
    return None


def g_axes(rng):
    n = rng.randint(0, 6)
    return n, pick(rng, 0, range(n + 1), .5), pick(rng, None, range(n + 2), .5), rng.getrandbits(32), rng.random() < .7


def p_axes(a):
    n, mn, mx, seed, edge = a
    M = n if mx is None else mx
    for st_, v, d in attempt(lambda: nps.valid_tuple_axes(n, min_size=mn, max_size=mx), seed, edge):
        if st_ == "refused":
            return None if not 0 <= mn <= M <= n else f"valid_tuple_axes{a[:3]} was refused: {v}"
        if st_ == "ok":
            if type(v) is not tuple or not mn <= len(v) <= M or len({x % n for x in v}) != len(v) or not all(-n <= x < n for x in v):
                return f"valid_tuple_axes({n}, min_size={mn}, max_size={mx}) gave {v!r}"
            np.sum(np.zeros((2,) * n), axis=v)
    return None


# --- broadcasting
def g_bc(rng):
    base = tuple(rng.choice([0, 1, 1, 2, 3, 5]) for _ in range(rng.choice([0, 0, 1, 2, 3, 4])))
    lo = pick(rng, 0, [0, 1, 2, 3, 4])
    hi = pick(rng, None, [lo, lo + 1, lo + 3, len(base), max(0, len(base) - 1)])
    mn = pick(rng, 1, [0, 1, 1, 2, 3])
    mx = pick(rng, None, [mn, mn + 2, 1, 4, 6])
    return rng.choice([0, 1, 2, 3, 4]), base, lo, hi, mn, mx, rng.getrandbits(32), rng.random() < .7


def bshape(shapes):
    n = max((len(s) for s in shapes), default=0)
    out = []
    for k in range(1, n + 1):
        sides = {s[-k] for s in shapes if len(s) >= k} - {1}
        if len(sides) > 1:
            return None
        out.append(sides.pop() if sides else 1)
    return tuple(out[::-1])


def p_bc(a):
    num, base, lo, hi, mn, mx, seed, edge = a
    kw = dict(min_dims=lo, max_dims=hi, min_side=mn, max_side=mx)
    what = f"broadcastable_shapes({base}, **{kw})" if not num else f"mutually_broadcastable_shapes(num_shapes={num}, base_shape={base}, **{kw})"
    make = (lambda: nps.broadcastable_shapes(base, **kw)) if not num else (lambda: nps.mutually_broadcastable_shapes(num_shapes=num, base_shape=base, **kw))
    H = min(max(len(base), lo) + 2, 32) if hi is None else hi
    # the default follows "2 plus the size of the largest aligned dimension"
    M = max(base[-H:] + (mn,)) + 2 if mx is None else mx
    for st_, v, d in attempt(make, seed, edge):
        if st_ == "refused":
            ok = lo <= H and mn <= M and (mn <= 1 <= M) and not [s for s in base if s != 1 and s < mn]
            return f"{what} was refused though {(1,) * lo} fits: {v}" if ok else None
        if st_ != "ok":
            continue
        ins, res = ((v,), None) if not num else v
        if num and len(ins) != num:
            return f"{what} gave {len(ins)} shapes"
        for s in ins:
            if not in_limits(s, lo, H, mn, M):
                return f"{what} gave {v!r}: {s} is outside the limits"
        b = bshape([base, *ins])
        if b is None:
            return f"{what} gave {v!r}, which do not broadcast with {base}"
        if b != np.broadcast_shapes(base, *ins):
            return f"{what}: oracle {b} and NumPy {np.broadcast_shapes(base, *ins)} disagree"
        if res is not None and res != b:
            return f"{what} gave {v!r}; the shapes broadcast to {b}"
    return None


SIGS = ["(),()->()", "(i)->()", "(i),(i)->()", "(m,n),(n,p)->(m,p)", "(n),(n,p)->(p)", "(m,n),(n)->(m)", "(m?,n),(n,p?)->(m?,p?)", "(3),(3)->(3)", "(n?,k),(k)->(n?)", "(a,b,c),(c)->(a,c)", "(n),(n),(n?)->(n?)", "(2,n),(n,2)->(2,2)"]


def g_sig(rng):
    lo = pick(rng, 0, [0, 1, 2], .4)
    return rng.choice(SIGS), tuple(rng.choice([1, 2, 3]) for _ in range(rng.choice([0, 0, 1, 2]))), lo, pick(rng, None, [lo, lo + 1, lo + 2], .4), pick(rng, 1, [0, 1, 2], .4), pick(rng, None, [3, 5], .4), rng.getrandbits(32), rng.random() < .7


def p_sig(a):
    sig, base, lo, hi, mn, mx, seed, edge = a
    kw = dict(min_dims=lo, max_dims=hi, min_side=mn, max_side=mx)
    what = f"mutually_broadcastable_shapes(signature={sig!r}, base_shape={base}, **{kw})"
    H = max(len(base), lo) + 2 if hi is None else hi
    M = max(base[-H:] + (mn,)) + 2 if mx is None else mx
    ins_n, out_n = [[tuple(x for x in s.split(",") if x) for s in re.findall(r"\(([^)]*)\)", half)] for half in sig.split("->")]
    for st_, v, d in attempt(lambda: nps.mutually_broadcastable_shapes(signature=sig, base_shape=base, **kw), seed, edge):
        if st_ != "ok":
            continue
        ins, res = v
        if len(ins) != len(ins_n):
            return f"{what} gave {v!r}"
        # some choice of omitted optional dimensions explains the shapes
        opt = sorted({n.strip("?") for s in ins_n + out_n for n in s if n.endswith("?")})
        good = False
        for mask in range(2 ** len(opt)):
            gone = {o for j, o in enumerate(opt) if mask >> j & 1}
            if gone and lo > 0:
                continue
            dims, loops, ok = {}, [], True
            for s, names in zip(ins, ins_n):
                core = [n.strip("?") for n in names if not (n.endswith("?") and n.strip("?") in gone)]
                short = len(core) < len(names)
                if len(s) < len(core):
                    ok = False
                    break
                cs, loop = s[len(s) - len(core):], s[:len(s) - len(core)]
                for n, x in zip(core, cs):
                    if n.isdigit():
                        ok &= int(n) == x
                    else:
                        ok &= dims.setdefault(n, x) == x and mn <= x <= M
                ok &= not (short and loop) and (short or lo <= len(loop)) and len(loop) <= H and all(mn <= x <= M for x in loop)
                loops.append(loop)
            if not ok:
                continue
            b = bshape([base, *loops])
            if b is None:
                continue
            want = b + tuple(int(n) if n.isdigit() else dims.get(n, -1) for n in [n.strip("?") for n in out_n[0] if not (n.endswith("?") and n.strip("?") in gone)])
            if want == res:
                good = True
                break
        if not good:
            return f"{what} gave {v!r}, which no reading of the signature explains"
    return None


# --- indices
def g_idx(rng):
    shape = tuple(rng.choice([0, 1, 2, 3, 7]) for _ in range(rng.choice([0, 1, 1, 2, 3, 4])))
    new = rng.random() < .5
    n = len(shape)
    lo = rng.randint(0, n + (2 if new else 0)) if rng.random() < .5 else 0
    hi = rng.randint(lo, max(lo, n + (3 if new else 0))) if rng.random() < .5 else None
    return shape, lo, hi, new, rng.random() < .6, rng.getrandbits(32), rng.random() < .7


def p_idx(a):
    shape, lo, hi, new, ell, seed, edge = a
    what = f"basic_indices({shape}, min_dims={lo}, max_dims={hi}, allow_newaxis={new}, allow_ellipsis={ell})"
    H = hi if hi is not None else max(len(shape), lo) + 2 if new else len(shape)
    arr = np.arange(math.prod(shape)).reshape(shape)
    for st_, v, d in attempt(lambda: nps.basic_indices(shape, min_dims=lo, max_dims=hi, allow_newaxis=new, allow_ellipsis=ell), seed, edge, 4):
        if st_ == "refused":
            return f"{what} was refused: {v}"
        if st_ != "ok":
            continue
        t = v if type(v) is tuple else (v,)
        if not all(x is None or x is Ellipsis or type(x) in (int, slice) for x in t):
            return f"{what} gave {v!r}"
        if (not new and None in [x for x in t if x is None]) or (not ell and any(x is Ellipsis for x in t)):
            return f"{what} gave {v!r}"
        try:
            r = arr[v]
        except IndexError as e:
            return f"{what} gave {v!r}: {e}"
        if not lo <= np.ndim(r) <= H:
            return f"{what} gave {v!r}, a result with {np.ndim(r)} dimensions"
        # slices stay within the side they index
        for x, n in zip([x for x in t if x is not None][:1], shape):
            pass
    return None


def g_iidx(rng):
    return tuple(rng.randint(1, 6) for _ in range(rng.randint(1, 3))), rng.choice(["i8", "i1", "u1", "u4", "<i2", ">i4"]), tuple(rng.randint(0, 3) for _ in range(rng.randint(0, 3))), rng.getrandbits(32), rng.random() < .7


def p_iidx(a):
    shape, dt, rs, seed, edge = a
    what = f"integer_array_indices({shape}, result_shape=just({rs}), dtype={dt})"
    arr = np.arange(math.prod(shape)).reshape(shape)
    for st_, v, d in attempt(lambda: nps.integer_array_indices(shape, result_shape=st.just(rs), dtype=np.dtype(dt)), seed, edge):
        if st_ == "refused":
            return f"{what} was refused: {v}"
        if st_ == "ok":
            if type(v) is not tuple or len(v) != len(shape) or any(x.shape != rs or x.dtype != np.dtype(dt) for x in v):
                return f"{what} gave {v!r}"
            try:
                r = arr[v]
            except IndexError as e:
                return f"{what} gave {v!r}: {e}"
            if r.shape != rs:
                return f"{what} gave {v!r}, a result of shape {r.shape}"
    return None


# --- arrays
DT = ["?", "i1", "i8", ">i4", "u1", "u8", "<u2", "f2", "f4", "f8", ">f8", "c8", "c16", "S3", "S", "U2", "U", "M8[s]", "m8[D]", "M8", "m8", "O", "i4,f4", "M8[ns]", "U1"]


def g_arr(rng):
    dt = rng.choice(DT)
    shape = rng.choice([(), (0,), (1,), (3,), 5, (2, 3), (2, 0, 2), (60,), (3, 3, 3), (13, 11)])
    elem = rng.choice([None, None, "kw", "strat", "cast"])
    return dt, shape, elem, rng.choice([None, None, "nothing", "value"]), rng.random() < .3, rng.getrandbits(32), rng.random() < .7


def p_arr(a):
    dt, shape, elem, fill, unique, seed, edge = a
    dtype = np.dtype(dt)
    k = dtype.kind
    if dtype.names or dtype.subdtype:
        if elem is not None or unique:
            return None
    kw, ok, es, fs, cands = {}, (lambda x: True), None, None, None
    lo, hi = 2, 90
    if elem == "kw":
        if k in "iu":
            es, ok = dict(min_value=lo, max_value=hi), lambda x: lo <= x <= hi
        elif k == "f":
            es, ok = dict(min_value=lo, max_value=hi, allow_nan=False), lambda x: lo <= x <= hi
        elif k == "c":
            es, ok = dict(max_magnitude=8, allow_nan=False), lambda x: abs(x) <= 8
        elif k in "US":
            es, ok = dict(min_size=1, max_size=2 if dtype.itemsize == 0 or k == "S" else dtype.itemsize // 4), lambda x: 1 <= len(x) <= 3
        elif k in "mM":
            es, ok = dict(allow_nan=False), lambda x: not np.isnat(x)
        else:
            return None
    elif elem in ("strat", "cast"):
        if k in "iu":
            cands = [0, 1, 5, 100]
        elif k == "f":
            cands = [0.0, 0.5, -2.0, math.inf, math.nan]
            if elem == "cast":
                cands += [0.1, 1e-3]
        elif k == "?" or k == "b":
            cands = [False, True]
        elif k == "S":
            cands = [b"", b"a", b"xyz"]
        elif k == "U":
            cands = ["", "a", "é"]
        elif k == "O":
            cands = [1, "a", None, (1, 2)]
        else:
            return None
        es = st.sampled_from(cands)
        if elem == "cast":
            if k not in "fiu":
                return None
            es = es.map(dtype.type)
            cands = [dtype.type(c) for c in cands]
        if unique and math.prod(shape if type(shape) is tuple else (shape,)) > len(cands):
            return None
        ok = lambda x: any(x == c or (c != c and x != x) for c in cands)
    elif k == "O":
        return None
    if fill == "nothing":
        fs = st.nothing()
    elif fill == "value":
        if cands is None or unique:
            return None
        fs = st.just(cands[1])
    if unique and (k in "?b" or (elem == "kw" and math.prod(shape if type(shape) is tuple else (shape,)) > 60)):
        return None
    what = f"arrays({dt!r}, {shape}, elements={es!r}, fill={fill}, unique={unique})"
    tshape = shape if type(shape) is tuple else (shape,)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for st_, v, d in attempt(lambda: nps.arrays(dtype if dt not in ("M8", "m8") else dt, shape, elements=es, fill=fs, unique=unique), seed, edge, 2):
            if st_ == "refused":
                return f"{what} was refused: {v}"
            if st_ != "ok":
                continue
            if type(v) is not np.ndarray or v.base is not None:
                return f"{what} gave {v!r}"
            if dtype.subdtype:
                if v.shape != tshape + dtype.subdtype[1] or v.dtype != dtype.subdtype[0]:
                    return f"{what} gave {v!r} of {v.dtype}"
                continue
            if v.shape != tshape:
                return f"{what} gave shape {v.shape}"
            if dt in ("M8", "m8"):
                if v.dtype.kind != dtype.kind or (0 not in tshape and "[" not in v.dtype.str):
                    return f"{what} gave dtype {v.dtype}"
            elif dt in ("S", "U"):
                if v.dtype.kind != k:
                    return f"{what} gave dtype {v.dtype}"
            elif v.dtype != dtype:
                return f"{what} gave dtype {v.dtype}"
            flat = list(v.reshape(-1))
            for x in flat:
                if not ok(x):
                    return f"{what} gave {v!r}: {x!r} is not one of its elements"
            if unique:
                u = [x for x in flat if not (x != x)]
                if len(set(u)) != len(u):
                    return f"{what} gave repeated elements: {v!r}"
    return None


# --- dtypes
def g_dt(rng):
    k = rng.choice(["int", "uint", "float", "complex", "bytes", "str", "dt", "td", "bool", "scalar", "array", "nested"])
    return k, rng.choice(["?", "<", ">", "="]), rng.getrandbits(32), rng.random() < .7


RES = ["Y", "M", "D", "h", "m", "s", "ms", "us", "ns"]


def p_dt(a):
    k, en, seed, edge = a
    rng = Random(seed)
    want = lambda d: True
    if k in ("int", "uint"):
        sizes = rng.choice([8, 16, 32, 64, (8, 64), [16, 32]])
        f = nps.integer_dtypes if k == "int" else nps.unsigned_integer_dtypes
        s, want = f(endianness=en, sizes=sizes), lambda d: d.kind == k[0] and d.itemsize * 8 in (sizes if not isinstance(sizes, int) else (sizes,))
    elif k == "float":
        sizes = rng.choice([16, 32, 64, (16, 64)])
        s, want = nps.floating_dtypes(endianness=en, sizes=sizes), lambda d: d.kind == "f" and d.itemsize * 8 in (sizes if not isinstance(sizes, int) else (sizes,))
    elif k == "complex":
        s, want = nps.complex_number_dtypes(endianness=en, sizes=64), lambda d: d.kind == "c" and d.itemsize == 8
    elif k in ("bytes", "str"):
        lo = rng.randint(1, 4)
        hi = lo + rng.randint(0, 3)
        f = nps.byte_string_dtypes if k == "bytes" else nps.unicode_string_dtypes
        s, want = f(endianness=en, min_len=lo, max_len=hi), lambda d: d.kind == ("S" if k == "bytes" else "U") and lo <= d.itemsize // (1 if k == "bytes" else 4) <= hi
    elif k in ("dt", "td"):
        i = rng.randrange(len(RES))
        j = rng.randrange(i, len(RES))
        f = nps.datetime64_dtypes if k == "dt" else nps.timedelta64_dtypes
        s, want = f(endianness=en, max_period=RES[i], min_period=RES[j]), lambda d: d.kind == ("M" if k == "dt" else "m") and np.datetime_data(d)[0] in RES[i:j + 1]
    elif k == "bool":
        s, want = nps.boolean_dtypes(), lambda d: d.kind == "b"
    elif k == "scalar":
        s, want, en = nps.scalar_dtypes(), lambda d: d.kind in "biufcmM", "?"
    elif k == "array":
        lo = rng.randint(0, 3)
        hi = lo + rng.randint(0, 3)
        s, want, en = nps.array_dtypes(min_size=lo, max_size=hi), lambda d: d.names is not None and lo <= len(d.names) <= hi, "?"
    else:
        mi = rng.choice([None, 8, 40])
        s, want, en = nps.nested_dtypes(max_itemsize=mi), lambda d: mi is None or d.itemsize <= mi, "?"
    for t in range(3):
        st_, d, _ = draw(s, seed + t, edge)
        if st_ != "ok":
            continue
        if not isinstance(d, np.dtype) or not want(d):
            return f"{k} dtypes ({s!r}) gave {d!r}"
        if en != "?" and d.itemsize > 1 and k not in ("bytes", "bool") and d.newbyteorder(en) != d:
            return f"{s!r} gave {d!r} of the wrong byte order"
        if k not in ("nested", "array") and d.kind not in "SU":
            st2, v, _ = draw(nps.from_dtype(d), seed + t, edge)
            if st2 == "ok" and not isinstance(v, d.type):
                return f"from_dtype({d!r}) gave {v!r}"
            if st2 == "ok" and d.kind in "iu" and not (np.iinfo(d).min <= int(v) <= np.iinfo(d).max):
                return f"from_dtype({d!r}) gave {v!r}"
    return None


CHECKS = [
    RT("shapes", g_shapes, p_shapes, n=2500, budget=12, rule="array_shapes stays in its limits and is refused only for impossible ones"),
    RT("axes", g_axes, p_axes, n=2000, budget=10, rule="valid_tuple_axes: distinct axes, accepted by NumPy"),
    RT("broadcasting", g_bc, p_bc, n=3000, budget=20, rule="(mutually_)broadcastable_shapes: limits, really broadcast, to the reported result"),
    RT("signatures", g_sig, p_sig, n=2000, budget=15, rule="gufunc signatures: core dimensions agree, loops broadcast, the result shape is the real one"),
    RT("indices", g_idx, p_idx, n=3000, budget=15, rule="basic_indices: NumPy accepts each on an array of the shape; result dimensions in limits"),
    RT("integer_indices", g_iidx, p_iidx, n=1000, budget=10, rule="integer_array_indices: in range, of the requested shape and dtype"),
    RT("arrays", g_arr, p_arr, n=3500, budget=30, rule="arrays: shape, dtype, element restrictions, uniqueness"),
    RT("dtypes", g_dt, p_dt, n=1500, budget=15, rule="dtype strategies honour sizes, units, lengths and byte order"),
]
