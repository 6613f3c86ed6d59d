"""Symbolic values and types."""
import z3

# ---------------------------------------------------------------- types
class Ty:
    def __repr__(self):
        return self.__class__.__name__ + (repr(tuple(self.__dict__.values())) if self.__dict__ else "")
    def __eq__(self, o):
        return type(self) is type(o) and self.__dict__ == o.__dict__
    def __hash__(self):
        return hash(repr(self))


class TInt(Ty): pass
class TBool(Ty): pass
class TFloat(Ty): pass
class TNone(Ty): pass
class TAny(Ty): pass          # opaque, uninterpreted value
class TBV(Ty):
    "a nonnegative int < 2**width, encoded as bit-vector (exact)"
    def __init__(self, width): self.width = width
class TReal(Ty): pass         # ghost only
class TSeq(Ty):
    "immutable sequence value. kind: tuple/str/bytes/list"
    def __init__(self, ety, kind="tuple"): self.ety, self.kind = ety, kind
class TList(Ty):
    "mutable list (or bytearray/array) cell"
    def __init__(self, ety, pykind="list"): self.ety, self.pykind = ety, pykind
class TTuple(Ty):
    def __init__(self, *tys): self.tys = tys
class TOpt(Ty):
    def __init__(self, t): self.t = t
class TRef(Ty):
    "symbolic reference into the heap of class cls"
    def __init__(self, cls): self.cls = cls
class TObj(Ty):
    "meta-level object whose fields are symbolic, shape given by the class spec"
    def __init__(self, cls): self.cls = cls
class TFn(Ty):
    "uninterpreted total function (a callable parameter)"
    def __init__(self, args, ret, ensures=(), requires=()):
        self.args, self.ret, self.ensures, self.requires = tuple(args), ret, tuple(ensures), tuple(requires)
class TOpaque(Ty):
    def __init__(self, sort): self.sort = sort
class TMap(Ty):
    def __init__(self, k, v): self.k, self.v = k, v
class TConst(Ty):
    def __init__(self, v): self.v = v
class TMk(Ty):
    "a value made by a function of the contract file (for shapes no other type has)"
    def __init__(self, f, nm): self.f, self.nm = f, nm
    def __repr__(self): return f"TMk({self.nm})"
class TDict(Ty):
    "dict/record with fixed, known string keys"
    def __init__(self, **fields): self.fields = fields
    def __hash__(self): return hash(repr(self))


def Str(): return TSeq(TInt(), "str")
def Bytes(): return TSeq(TInt(), "bytes")
Int, Bool, Float, NoneT, AnyT, Real = TInt(), TBool(), TFloat(), TNone(), TAny(), TReal()

_sorts = {}
def sort_of(name):
    if name not in _sorts:
        _sorts[name] = z3.DeclareSort(name)
    return _sorts[name]


F64 = z3.Float64()
RNE = z3.RNE()

# ---------------------------------------------------------------- values
class Seq:
    "immutable sequence: n (int or Int term), get(i)->value"
    __slots__ = ("n", "get", "ety", "kind")
    def __init__(self, n, get, ety, kind="list"):
        self.n, self.get, self.ety, self.kind = n, get, ety, kind
    def __repr__(self): return f"Seq({self.n},{self.kind})"


class Cell:
    "reference to a mutable list; contents are in exec.store[key]"
    __slots__ = ("key", "ety", "pykind")
    def __init__(self, key, ety=None, pykind="list"): self.key, self.ety, self.pykind = key, ety, pykind
    def __repr__(self): return f"Cell({self.key})"


class Obj:
    __slots__ = ("key", "cls")
    def __init__(self, key, cls): self.key, self.cls = key, cls
    def __repr__(self): return f"Obj({self.cls},{self.key})"


class SymRef:
    __slots__ = ("id", "cls")
    def __init__(self, id, cls): self.id, self.cls = id, cls
    def __repr__(self): return f"SymRef({self.cls},{self.id})"


class MapV:
    "immutable map value"
    __slots__ = ("dom", "get", "size", "k", "v")
    def __init__(self, dom, get, size, k, v): self.dom, self.get, self.size, self.k, self.v = dom, get, size, k, v


class MapCell:
    __slots__ = ("key", "pykind")
    def __init__(self, key, pykind="dict"): self.key, self.pykind = key, pykind


class RecCell:
    "dict with known string keys (python dict of values in store)"
    __slots__ = ("key", "pykind")
    def __init__(self, key): self.key, self.pykind = key, "dict"


class FloatV:
    __slots__ = ("bv", "_fp")
    def __init__(self, bv, fp=None): self.bv, self._fp = bv, fp
    @property
    def fp(self):
        if self._fp is None:
            self._fp = z3.fpBVToFP(self.bv, F64)
        return self._fp
    def __repr__(self): return f"FloatV({self.bv})"


class BVI:
    "exact signed integer stored as two's complement bit-vector wide enough for its value"
    __slots__ = ("bv",)
    def __init__(self, bv): self.bv = bv
    @property
    def w(self): return self.bv.size()
    def __repr__(self): return f"BVI({self.bv})"


class OptV:
    __slots__ = ("isnone", "v")
    def __init__(self, isnone, v): self.isnone, self.v = isnone, v
    def __repr__(self): return f"OptV({self.isnone},{self.v})"


class Opaque:
    __slots__ = ("t", "sort")
    def __init__(self, t, sort): self.t, self.sort = t, sort
    def __repr__(self): return f"Opaque({self.t})"


class OpaqueStr:
    "text whose contents do not matter (error messages)"
    __slots__ = ()


class RealV:
    __slots__ = ("t",)
    def __init__(self, t): self.t = t


class PyVal:
    "a real python object used as an opaque constant (module, class, function, None-like singletons)"
    __slots__ = ("o",)
    def __init__(self, o): self.o = o
    def __repr__(self): return f"PyVal({self.o!r})"


class FuncV:
    "python function given by AST"
    __slots__ = ("node", "env", "module", "qual", "defaults")
    def __init__(self, node, env, module, qual, defaults=None):
        self.node, self.env, self.module, self.qual, self.defaults = node, env, module, qual, defaults
    def __repr__(self): return f"FuncV({self.qual})"


class BoundV:
    __slots__ = ("self", "f")
    def __init__(self, self_, f): self.self, self.f = self_, f


class Prim:
    "engine primitive: called as fn(exec, args, kwargs)"
    __slots__ = ("fn", "name")
    def __init__(self, fn, name="prim"): self.fn, self.name = fn, name
    def __repr__(self): return f"Prim({self.name})"


class RangeV:
    __slots__ = ("a", "b", "step")
    def __init__(self, a, b, step): self.a, self.b, self.step = a, b, step


# ---------------------------------------------------------------- control exceptions
class Unsupported(Exception): pass
class SpecError(Exception): pass
class PathEnd(Exception): pass
class Restart(Exception): pass
class ReturnX(Exception):
    def __init__(self, v): self.v = v
class BreakX(Exception): pass
class ContinueX(Exception): pass
class PyExc(Exception):
    def __init__(self, name, args=()): self.name, self.pargs = name, args
