"""Values of the symbolic executor: trees whose leaves are z3 terms."""
import z3
from z3 import *

Addr = Datatype('Addr')
Addr.declare('null')
Addr.declare('A', ('site', IntSort()), ('k1', IntSort()), ('k2', IntSort()), ('k3', IntSort()))
Addr = Addr.create()
ANULL = Addr.null

_ctr = [0]


def fresh_name(p):
    _ctr[0] += 1
    return '%s!%d' % (p, _ctr[0])


def fresh_const(p, sort):
    return Const(fresh_name(p), sort)


def is_lam(a):
    return is_quantifier(a) and a.is_lambda()


def is_num(x):
    return is_int_value(x) or is_rational_value(x)


def is_store(a):
    return is_app(a) and a.decl().kind() == Z3_OP_STORE


def is_ite(a):
    return is_app(a) and a.decl().kind() == Z3_OP_ITE


def is_constarr(a):
    return is_app(a) and a.decl().kind() == Z3_OP_CONST_ARRAY


def is_sel(a):
    return is_app(a) and a.decl().kind() == Z3_OP_SELECT


def beta(lam, *idx):
    return substitute_vars(lam.body(), *reversed(idx))


def decided_eq(a, b):
    """True/False when a==b is decided by the rewriter, else None"""
    if a.eq(b):
        return True
    r = simplify(a == b)
    if is_true(r):
        return True
    if is_false(r):
        return False
    return None


def sel(a, i, depth=0):
    """a[i], beta-reduced"""
    if is_lam(a):
        return beta(a, i)
    if is_constarr(a):
        return a.arg(0)
    if is_store(a):
        d = decided_eq(a.arg(1), i)
        if d is True:
            return a.arg(2)
        if d is False:
            return sel(a.arg(0), i, depth)
        if depth > 12:
            return Select(a, i)
        return mk_ite(a.arg(1) == i, a.arg(2), sel(a.arg(0), i, depth + 1))
    if is_ite(a):
        if depth > 12:
            return Select(a, i)
        x, y = sel(a.arg(1), i, depth + 1), sel(a.arg(2), i, depth + 1)
        return mk_ite(a.arg(0), x, y)
    return Select(a, i)


def mk_ite(c, a, b):
    if is_true(c):
        return a
    if is_false(c):
        return b
    if a.eq(b):
        return a
    if a.sort() == BoolSort():
        if is_true(a) and is_false(b):
            return c
        if is_false(a) and is_true(b):
            return Not(c)
    if a.sort().kind() == Z3_ARRAY_SORT:
        # keep conditional updates pointwise
        if is_store(a) and is_store(b) and a.arg(0).eq(b.arg(0)) and a.arg(1).eq(b.arg(1)):
            return mk_store(a.arg(0), a.arg(1), mk_ite(c, a.arg(2), b.arg(2)))
        if is_store(a) and a.arg(0).eq(b):
            return mk_store(b, a.arg(1), mk_ite(c, a.arg(2), sel(b, a.arg(1))))
        if is_store(b) and b.arg(0).eq(a):
            return mk_store(a, b.arg(1), mk_ite(c, sel(a, b.arg(1)), b.arg(2)))
    return If(c, a, b)


def mk_store(a, i, v):
    if is_store(a) and a.arg(1).eq(i):
        a = a.arg(0)
    if v.eq(sel(a, i)):
        return a
    return Store(a, i, v)


# ---- trees -------------------------------------------------------------------------------------------------------
class Rec:
    __slots__ = ('t', 'f')

    def __init__(self, t, f):
        self.t = t  # type id (dynamic type)
        self.f = f

    def with_(self, k, v):
        f = dict(self.f)
        f[k] = v
        return Rec(self.t, f)

    def __repr__(self):
        return 'Rec(%s,%s)' % (self.t, self.f)


class Vec:
    __slots__ = ('et', 'len', 'data')

    def __init__(self, et, ln, data):
        self.et = et
        self.len = ln
        self.data = data

    def __repr__(self):
        return 'Vec(%s,%s)' % (self.len, self.data)


class LV:
    """A storage location: root (int, or ('h',tkey,addr)) and a path of ('f',name) / ('i',index) steps"""
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root = root
        self.path = path

    def f(self, name):
        return LV(self.root, self.path + (('f', name),))

    def i(self, idx):
        return LV(self.root, self.path + (('i', idx),))

    def same(self, o):
        if not isinstance(o, LV) or len(self.path) != len(o.path):
            return False
        if isinstance(self.root, tuple) != isinstance(o.root, tuple):
            return False
        if isinstance(self.root, tuple):
            if self.root[1] != o.root[1] or not self.root[2].eq(o.root[2]):
                return False
        elif self.root != o.root:
            return False
        for (k, a), (k2, b) in zip(self.path, o.path):
            if k != k2:
                return False
            if k == 'f':
                if a != b:
                    return False
            elif decided_eq(a, b) is not True:
                return False
        return True

    def __repr__(self):
        return 'LV(%s%s)' % (self.root, ''.join('.%s' % (x[1],) for x in self.path))


class LVChoice:
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts  # [(cond, LV)], last cond may be True


class Py:
    """non-solver leaf: reference/pointer to a known location, callable, ..."""
    __slots__ = ()


class PtrLV(Py):
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv

    def same(self, o):
        return isinstance(o, PtrLV) and self.lv.same(o.lv)

    def __repr__(self):
        return '&%r' % self.lv


class NullPtr(Py):
    __slots__ = ()

    def same(self, o):
        return isinstance(o, NullPtr)

    def __repr__(self):
        return 'null'


class Opaque(Py):
    __slots__ = ('tag',)

    def __init__(self, tag=''):
        self.tag = tag

    def same(self, o):
        return isinstance(o, Opaque)

    def __repr__(self):
        return 'opaque(%s)' % self.tag


class FnVal(Py):
    __slots__ = ('fn', 'val', 'lv')

    def __init__(self, fn=None, val=None, lv=None):
        self.fn = fn      # function id
        self.val = val    # closure value (Rec), for std::function / lambda
        self.lv = lv

    def same(self, o):
        return isinstance(o, FnVal) and self.fn == o.fn and self.val is o.val

    def __repr__(self):
        return 'fn(%s)' % self.fn


class PyList(Py):
    """container of non-solver elements with a known length"""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def same(self, o):
        return isinstance(o, PyList) and len(o.items) == len(self.items) and all(val_same(a, b) for a, b in zip(self.items, o.items))


class Choice(Py):
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts  # [(cond, val)], exclusive, last is default

    def same(self, o):
        return o is self or (isinstance(o, Choice) and len(o.alts) == len(self.alts) and all(
            a[0].eq(b[0]) and val_same(a[1], b[1]) for a, b in zip(self.alts, o.alts)))


def val_same(a, b):
    if a is b:
        return True
    if is_expr(a) and is_expr(b):
        return a.eq(b)
    if isinstance(a, Rec) and isinstance(b, Rec):
        return a.t == b.t and a.f.keys() == b.f.keys() and all(val_same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Vec) and isinstance(b, Vec):
        return val_same(a.len, b.len) and val_same(a.data, b.data)
    if isinstance(a, Py) and isinstance(b, Py):
        return a.same(b)
    if isinstance(a, LV) and isinstance(b, LV):
        return a.same(b)
    return False


def map_leaves(f, v):
    if is_expr(v):
        return f(v)
    if isinstance(v, Rec):
        return Rec(v.t, {k: map_leaves(f, x) for k, x in v.f.items()})
    if isinstance(v, Vec):
        return Vec(v.et, map_leaves(f, v.len), map_leaves(f, v.data))
    if isinstance(v, Choice):
        return v
    return v


def map_terms(f, v):
    """like map_leaves, also rewrites index terms inside locations and choices"""
    if is_expr(v):
        return f(v)
    if isinstance(v, Rec):
        return Rec(v.t, {k: map_terms(f, x) for k, x in v.f.items()})
    if isinstance(v, Vec):
        return Vec(v.et, map_terms(f, v.len), map_terms(f, v.data))
    if isinstance(v, Choice):
        return Choice([(f(c), map_terms(f, x)) for c, x in v.alts])
    if isinstance(v, PtrLV):
        return PtrLV(map_terms(f, v.lv))
    if isinstance(v, LV):
        r = v.root
        if isinstance(r, tuple):
            r = (r[0], r[1], f(r[2]))
        return LV(r, tuple((k, f(a) if k == 'i' else a) for k, a in v.path))
    if isinstance(v, FnVal) and v.val is not None:
        return FnVal(v.fn, map_terms(f, v.val), v.lv)
    if isinstance(v, PyList):
        return PyList([map_terms(f, x) for x in v.items])
    return v


def leaves(v, path=()):
    """yield (path, leaf) for solver leaves and Py leaves"""
    if isinstance(v, Rec):
        for k, x in v.f.items():
            yield from leaves(x, path + (k,))
    elif isinstance(v, Vec):
        yield from leaves(v.len, path + ('#len',))
        yield from leaves(v.data, path + ('#data',))
    else:
        yield path, v


def set_leaf(v, path, x):
    if not path:
        return x
    if isinstance(v, Rec):
        return v.with_(path[0], set_leaf(v.f[path[0]], path[1:], x))
    if isinstance(v, Vec):
        if path[0] == '#len':
            return Vec(v.et, set_leaf(v.len, path[1:], x), v.data)
        return Vec(v.et, v.len, set_leaf(v.data, path[1:], x))
    raise KeyError(path)


def merge_val(c, a, b):
    """value equal to a when c else b"""
    if a is b:
        return a
    if is_expr(a) and is_expr(b):
        if a.eq(b):
            return a
        if a.sort() != b.sort():
            raise TypeError('merge sorts %s %s' % (a.sort(), b.sort()))
        return mk_ite(c, a, b)
    if isinstance(a, Rec) and isinstance(b, Rec) and a.t == b.t and a.f.keys() == b.f.keys():
        return Rec(a.t, {k: merge_val(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, Vec) and isinstance(b, Vec):
        return Vec(a.et, merge_val(c, a.len, b.len), merge_val(c, a.data, b.data))
    if val_same(a, b):
        return a
    if is_expr(a) and a.sort() == Addr and isinstance(b, NullPtr):
        return mk_ite(c, a, ANULL)
    if is_expr(b) and b.sort() == Addr and isinstance(a, NullPtr):
        return mk_ite(c, ANULL, b)
    alts = []
    if isinstance(a, Choice):
        alts += [(simplify(And(c, x)), v) for x, v in a.alts]
    else:
        alts.append((c, a))
    if isinstance(b, Choice):
        alts += [(simplify(And(Not(c), x)), v) for x, v in b.alts]
    else:
        alts.append((Not(c), b))
    alts = [(x, v) for x, v in alts if not is_false(x)]
    out = []
    for x, v in alts:
        for n, (y, w) in enumerate(out):
            if val_same(v, w):
                out[n] = (simplify(Or(x, y)), w)
                break
        else:
            out.append((x, v))
    if len(out) == 1:
        return out[0][1]
    return Choice(out)


DECLS = {}


def free_syms(e, cache={}):
    """names of uninterpreted constants and functions in e"""
    key = e.get_id()
    r = cache.get(key)
    if r is not None:
        return r[1]
    out = set()
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        r = cache.get(i)
        if r is not None:
            out |= r[1]
            continue
        if is_quantifier(x):
            stack.append(x.body())
        elif is_app(x):
            n = x.num_args()
            d = x.decl()
            if d.kind() == Z3_OP_UNINTERPRETED:
                nm = d.name()
                out.add(nm)
                if nm not in DECLS:
                    DECLS[nm] = d
                if n == 0:
                    cache[i] = (x, frozenset((nm,)))
            if n:
                stack.extend(x.children())
    out = frozenset(out)
    cache[key] = (e, out)
    return out


def has_var(e):
    """has a free de Bruijn variable"""
    def go(x, depth, seen):
        k = (x.get_id(), depth)
        if k in seen:
            return False
        seen.add(k)
        if is_var(x):
            return get_var_index(x) >= depth
        if is_quantifier(x):
            return go(x.body(), depth + x.num_vars(), seen)
        return any(go(c, depth, seen) for c in x.children())
    return go(e, 0, set())
