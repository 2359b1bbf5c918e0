"""Sorts, types and values of the symbolic executor."""
import z3

Ref = z3.DeclareSort("Ref")
Str = z3.DeclareSort("Str")
Obj = z3.DeclareSort("Obj")      # immutable structured values (lists, records, tuples)
_V = z3.Datatype("V")
_V.declare("none")
_V.declare("b", ("bv", z3.BoolSort()))
_V.declare("i", ("iv", z3.IntSort()))
_V.declare("r", ("rv", z3.RealSort()))
_V.declare("s", ("sv", Str))
_V.declare("ref", ("refv", Ref))
_V.declare("o", ("ov", Obj))
V = _V.create()
olen = z3.Function("olen", Obj, z3.IntSort())
cls_of = z3.Function("cls_of", Ref, z3.IntSort())

SORT = {"int": z3.IntSort(), "real": z3.RealSort(), "bool": z3.BoolSort(), "str": Str, "any": V, "ref": Ref,
        "obj": Obj}


class Ty:
    """kind: int real bool str none any ref(classes) list(T) set(T) dict(K,V) rec(fields) tuple(Ts)"""
    __slots__ = ("k", "a")

    def __init__(self, k, a=()):
        self.k, self.a = k, a

    def __eq__(self, o):
        return isinstance(o, Ty) and (self.k, self.a) == (o.k, o.a)

    def __hash__(self):
        return hash((self.k, self.a))

    def __repr__(self):
        return self.k + (repr(self.a) if self.a else "")


INT, REAL, BOOL, STR, NONE, ANY = [Ty(k) for k in ("int", "real", "bool", "str", "none", "any")]


def ref(*cl):
    return Ty("ref", tuple(sorted(cl)))


def parse_ty(s):
    """'set[Interface|RSVP_LSP]', 'str|rec{interfaces:list[Interface],path_cost:real}' ..."""
    toks, pos = [], 0
    cur = ""
    for c in s:
        if c in "[]{}:,|":
            if cur.strip():
                toks.append(cur.strip())
            toks.append(c)
            cur = ""
        else:
            cur += c
    if cur.strip():
        toks.append(cur.strip())

    def union():
        nonlocal pos
        alts = [atom()]
        while pos < len(toks) and toks[pos] == "|":
            pos += 1
            alts.append(atom())
        if len(alts) == 1:
            return alts[0]
        if all(x.k == "ref" for x in alts):
            return ref(*[c for x in alts for c in x.a])
        return Ty("any", tuple(alts))

    def atom():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t in ("int", "real", "bool", "str", "none", "any"):
            return Ty(t)
        if t in ("list", "set", "dict", "tuple", "opt"):
            pos += 1
            a = [union()]
            while toks[pos] == ",":
                pos += 1
                a.append(union())
            pos += 1
            if t == "opt":
                return Ty("any", (a[0], NONE))
            return Ty(t, tuple(a))
        if t == "rec":
            pos += 1
            f = []
            while toks[pos] != "}":
                n = toks[pos]
                pos += 2
                f.append((n, union()))
                if toks[pos] == ",":
                    pos += 1
            pos += 1
            return Ty("rec", tuple(f))
        return ref(t)
    r = union()
    assert pos == len(toks), s
    return r


def sort_of(ty):
    if ty.k in SORT:
        return SORT[ty.k]
    if ty.k == "set":
        return z3.ArraySort(sort_of(ty.a[0]), z3.BoolSort())
    if ty.k in ("list", "rec", "tuple"):
        return Obj
    if ty.k == "dict":
        return Obj
    if ty.k == "none":
        return V
    raise ValueError(ty)


def at_fn(ty):
    s = sort_of(ty)
    return z3.Function("at_" + s.name() if s.kind() != z3.Z3_ARRAY_SORT else "at_arr", Obj, z3.IntSort(), s)


def dict_fns(ty):
    """(domain, value) functions of interned dicts of type ty"""
    k, v = sort_of(ty.a[0]), sort_of(ty.a[1])
    n = k.name() + "_" + (v.name() if v.kind() != z3.Z3_ARRAY_SORT else "arr")
    return z3.Function("dict_in_" + n, Obj, k, z3.BoolSort()), z3.Function("dict_get_" + n, Obj, k, v)


def fld_fn(name, ty):
    s = sort_of(ty)
    return z3.Function("fld_%s_%s" % (name, s.name()), Obj, s)


class Val:
    __slots__ = ("ty", "t")

    def __init__(self, ty, t):
        self.ty, self.t = ty, t

    def __repr__(self):
        return "Val(%r, %s)" % (self.ty, self.t)


class Tup:
    def __init__(self, items):
        self.items = list(items)


class Part:
    """{val | vars. dom}; one element per vars satisfying dom."""
    __slots__ = ("vars", "dom", "val", "raw")

    def __init__(self, vars, dom, val):
        self.vars, self.dom, self.val = tuple(vars), dom, val


class Coll:
    """An immutable collection value.  kind: list | set | gen."""

    def __init__(self, kind, parts, ety=None, order=None, obj=None, arr=None, src=None):
        self.kind, self.parts, self.ety, self.order, self.obj, self.arr = kind, parts, ety, order, obj, arr
        self.src = src
        self.multi = False
        self.made = None
        self.lazy = ()     # exceptions raised when it is iterated: (condition, name)

    @property
    def conc(self):
        if all(not p.vars and z3.is_true(p.dom) for p in self.parts):
            return [p.val for p in self.parts]
        return None


class DictV:
    """dom: key term -> Bool, get: key term -> Val (or value); kty, vty types."""

    def __init__(self, kty, vty, dom, get):
        self.kty, self.vty, self.dom, self.get = kty, vty, dom, get
        self.obj = None


class Rec:
    def __init__(self, f):
        self.f = dict(f)


class Cell:
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id


class FieldLoc:
    """A container held in a heap field."""

    def __init__(self, key, ref, ty):
        self.key, self.ref, self.ty = key, ref, ty


class SubLoc:
    def __init__(self, parent, key):
        self.parent, self.key = parent, key


class FnV:
    def __init__(self, fn, recv=None):
        self.fn, self.recv = fn, recv


class Meth:
    """A method of a container or string value."""

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class ClsV:
    def __init__(self, name):
        self.name = name


class ModV:
    def __init__(self, name):
        self.name = name


class Builtin:
    def __init__(self, name):
        self.name = name


class Lam:
    def __init__(self, node, env):
        self.node, self.env = node, env


class Opaque:
    """A value the executor does not model; using it is unsupported."""

    def __init__(self, why):
        self.why = why


class Graph:
    """A networkx graph value: the edges (u, v, data) and nodes it was built from."""

    def __init__(self, edges, nodes, multi):
        self.edges, self.nodes, self.multi, self.rep = edges, nodes, multi, None


def simp(f):
    return z3.simplify(f)


def And(*a):
    a = [x for x in a if not z3.is_true(x)]
    if any(z3.is_false(x) for x in a):
        return z3.BoolVal(False)
    return z3.BoolVal(True) if not a else a[0] if len(a) == 1 else z3.And(*a)


def Or(*a):
    a = [x for x in a if not z3.is_false(x)]
    if any(z3.is_true(x) for x in a):
        return z3.BoolVal(True)
    return z3.BoolVal(False) if not a else a[0] if len(a) == 1 else z3.Or(*a)


def Not(a):
    return z3.BoolVal(False) if z3.is_true(a) else z3.BoolVal(True) if z3.is_false(a) else z3.Not(a)


def ForAll(vs, f):
    vs = list(vs)
    return f if not vs or z3.is_true(f) else z3.ForAll(vs, f)


def flat_and(f):
    return [y for x in f.children() for y in flat_and(x)] if z3.is_and(f) else [f]


def index_bound(x, v):
    """n when x says v < n (n without v), 0 when it says v >= 0."""
    if z3.is_not(x):
        x = x.arg(0)
        ops = (z3.is_le, 0, 1), (z3.is_ge, 1, 0)
    else:
        if z3.is_ge(x) and x.arg(0).eq(v) and z3.is_int_value(x.arg(1)) and x.arg(1).as_long() == 0:
            return 0
        if z3.is_le(x) and x.arg(1).eq(v) and z3.is_int_value(x.arg(0)) and x.arg(0).as_long() == 0:
            return 0
        ops = (z3.is_gt, 0, 1), (z3.is_lt, 1, 0)
    for op, n, w in ops:
        if op(x) and x.arg(w).eq(v):
            return x.arg(n)
    return None


def Exists(vs, f):
    vs = list(vs)
    for v in [v for v in vs if v.sort() == z3.IntSort()]:
        w = z3.Int("no?ix")
        with_v = [x for x in flat_and(f) if not z3.substitute(x, (v, w)).eq(x)]
        b = [index_bound(x, v) for x in with_v]
        if len(b) == 2 and any(isinstance(x, int) for x in b) and all(x is not None for x in b):
            n = [x for x in b if not isinstance(x, int)]
            if len(n) == 1 and z3.substitute(n[0], (v, w)).eq(n[0]):
                f = And(*[x for x in flat_and(f) if z3.substitute(x, (v, w)).eq(x)], n[0] > 0)
                vs = [x for x in vs if not x.eq(v)]
    return f if not vs or z3.is_false(f) else z3.Exists(vs, f)
