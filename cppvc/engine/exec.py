"""Symbolic executor: one forward pass over a function body for all inputs; branches are merged, loops are replaced by
inductively checked closed forms (loops.py), standard-library calls by contracts (stl.py)."""
import sys
from fractions import Fraction
from smt import *
from prog import *

sys.setrecursionlimit(20000)

STR_CODES = {'': 0}


def str_code(s):
    if s not in STR_CODES:
        STR_CODES[s] = 1000 + len(STR_CODES)
    return IntVal(STR_CODES[s])


class State:
    __slots__ = ('store', 'pc', 'dead')

    def __init__(self, store=None, pc=(), dead=False):
        self.store = store if store is not None else {}
        self.pc = tuple(pc)
        self.dead = dead

    def copy(self):
        return State(dict(self.store), self.pc, self.dead)

    def assume(self, c):
        if is_true(c):
            return
        if is_false(c):
            self.dead = True
        if is_and(c):
            for x in c.children():
                self.assume(x)
            return
        for p in self.pc:
            if p.get_id() == c.get_id():
                return
        self.pc = self.pc + (c,)


class Frame:
    def __init__(self, fn, this=None):
        self.fn = fn
        self.env = {}
        self.caps = {}
        self.this = this
        self.returns = []
        self.loops = []
        self.scopes = []
        self.roots = []


class LoopCtx:
    def __init__(self, depth):
        self.breaks = []
        self.conts = []
        self.scope_depth = depth


class Obl:
    __slots__ = ('kind', 'label', 'loc', 'pc', 'goal', 'fn', 'approx', 'status', 'model', 'time', 'why')

    def __init__(self, kind, label, loc, pc, goal, fn, approx):
        self.kind, self.label, self.loc, self.pc, self.goal, self.fn, self.approx = kind, label, loc, pc, goal, fn, approx
        self.status = None
        self.model = None
        self.time = 0
        self.why = ''


INF = Real('INF')
NAN = Real('NAN_')
DBL_MAX = RealVal(str(Fraction(repr(sys.float_info.max))))
DBL_MIN = RealVal(str(Fraction(repr(sys.float_info.min))))
EPS = RealVal(str(Fraction(repr(sys.float_info.epsilon))))


def flt_lit(s):
    f = float(s)
    if f != f:
        return NAN
    if f in (float('inf'), float('-inf')):
        return INF if f > 0 else -INF
    if f == sys.float_info.max:
        return DBL_MAX
    return RealVal(repr(f)) if 'e' not in repr(f) else RealVal(str(Fraction(repr(f))))


class Exec:
    def __init__(self, prog, prover, mode='prove', unroll=4, check_overflow=True, contracts=None):
        self.p = prog
        self.pr = prover
        self.mode = mode
        self.havoc_only = False
        self.unroll = unroll
        self.st = State()
        self.frames = []
        self.sinks = [[]]
        self.obls = []
        self.quiet = 0
        self.nroot = 0
        self.iters = []
        self.nsite = 0
        self.inputs = []
        self.input_pc = []
        self.approx = []      # reasons why the current summary over-approximates
        self.used = {}        # functions of /repo executed: qname -> file:line
        self.trusted = set()  # stl contracts used
        self.assumed = set()
        self.loops_proved = []
        self.loop_failed = []
        self.input_ints = {}
        self.check_overflow = check_overflow
        self.line = 0
        self.temps = []
        self.statics = {}
        self.contracts = contracts or {}
        self.covers = []
        import stl
        self.stl = stl.Stl(self)
        from loops import LoopEngine
        self.le = LoopEngine(self)
        self.pr.fact((), INF > DBL_MAX)

    # ---- misc -------------------------------------------------------------------------------------------------------
    def add_input(self, rec):
        self.inputs.append(rec)
        self.input_pc.append(tuple(self.st.pc))

    def fact(self, f, guarded=True):
        self.pr.fact(self.st.pc if guarded else (), f)

    def known(self, c, timeout=0.4):
        c = simplify(c)
        if is_true(c):
            return True
        if is_false(c):
            return False
        return self.pr.prove(self.st.pc, c, timeout, tactic=False)[0] == 'proved'

    def loc(self):
        fn = self.frames[-1].fn if self.frames else None
        return '%s:%s' % (fn['file'].replace('/repo/include/', '') if fn else '?', self.line)

    def where(self):
        for f in reversed(self.frames):
            if f.fn['file'].startswith('/repo'):
                return f.fn['cq']
        return self.frames[-1].fn['cq'] if self.frames else '?'

    def oblige(self, kind, goal, label):
        if isinstance(goal, bool):
            goal = BoolVal(goal)
        goal = simplify(goal) if not has_quant(goal) else goal
        if not self.quiet:
            self.obls.append(Obl(kind, label, self.loc(), self.st.pc, goal, self.where(), list(self.approx)))
        if is_true(goal):
            return
        if is_false(goal):
            if kind != 'check':
                self.st.dead = True
            return
        self.st.assume(goal)

    def root(self, v):
        self.nroot += 1
        self.st.store[self.nroot] = v
        if self.frames:
            self.frames[-1].roots.append(self.nroot)
        return LV(self.nroot)

    def site(self):
        self.nsite += 1
        ks = [IntVal(0)] * 3
        for n, it in enumerate(self.iters[-3:]):
            ks[n] = it
        return Addr.A(IntVal(self.nsite), *ks)

    # ---- types -> values ----------------------------------------------------------------------------------------
    def sort_of(self, t):
        k = self.p.k(t)
        if k in ('int', 'enum'):
            return IntSort()
        if k == 'bool':
            return BoolSort()
        if k == 'flt':
            return RealSort()
        if k in ('ptr', 'nullptr'):
            return Addr
        return None

    def liftable(self, t, seen=()):
        if t in seen:
            return False
        k = self.p.k(t)
        if k in ('int', 'enum', 'bool', 'flt', 'ptr'):
            return True
        if k == 'arr':
            return self.liftable(self.p.T(t)['to'])
        if k == 'rec':
            n = self.p.recname(t)
            if n in ('std::vector', 'std::array', 'std::complex', 'std::basic_string', 'std::optional'):
                return n in ('std::complex', 'std::basic_string') or self.liftable(self.p.targ(t))
            if n in ('std::pair', 'std::tuple', 'std::variant'):
                return all(self.liftable(a) for a in self.p.targs(t))
            if self.p.is_keep(t):
                r = self.p.rec(t)
                if r.get('poly') and r.get('dtor'):
                    pass
                return all(self.liftable(f['t'], seen + (t,)) for f in r.get('fields', [])) and all(self.liftable(b, seen + (t,)) for b in r.get('bases', []))
        return False

    def build(self, t, leaf0, lifts=(), path='v'):
        """value of type t whose leaves are leaf(sort, typeid, path); lifts: index sorts the leaves are lifted over"""
        p = self.p
        t = p.noref(t) if p.k(t) == 'ref' and lifts else t

        def leaf(s, tt, q):
            for d in reversed(lifts):
                s = ArraySort(d, s)
            return leaf0(s, tt, q)
        k = p.k(t)
        s = self.sort_of(t)
        up = lifts + (IntSort(),)
        if s is not None:
            return leaf(s, t, path)
        if k == 'arr':
            return Vec(p.T(t)['to'], leaf_const(IntVal(p.T(t)['n']), lifts), self.build(p.T(t)['to'], leaf0, up, path))
        if k == 'rec':
            n = p.recname(t)
            if n == 'std::vector' or n == 'std::deque':
                et = p.targ(t)
                if not self.liftable(et):
                    return PyList([])
                return Vec(et, leaf(IntSort(), None, path + '.len'), self.build(et, leaf0, up, path + '.d'))
            if n == 'std::array':
                et = p.targ(t)
                if not self.liftable(et):
                    return PyList([self.build(et, leaf0, lifts, path + '[%d]' % i) for i in range(p.targ_int(t))])
                return Vec(et, leaf_const(IntVal(p.targ_int(t)), lifts), self.build(et, leaf0, up, path + '.d'))
            if n == 'std::complex':
                et = p.targ(t)
                return Rec(t, {'re': leaf(RealSort(), et, path + '.re'), 'im': leaf(RealSort(), et, path + '.im')})
            if n == 'std::basic_string' or n == 'std::basic_string_view':
                return leaf(IntSort(), 'str', path)
            if n == 'std::optional':
                return Rec(t, {'has': leaf(BoolSort(), None, path + '.has'), 'val': self.build(p.targ(t), leaf0, lifts, path + '.val')})
            if n == 'std::pair':
                a = p.targs(t)
                return Rec(t, {'first': self.build(a[0], leaf0, lifts, path + '.1'), 'second': self.build(a[1], leaf0, lifts, path + '.2')})
            if n == 'std::tuple':
                return Rec(t, {str(i): self.build(a, leaf0, lifts, path + '.%d' % i) for i, a in enumerate(p.targs(t))})
            if n == 'std::variant':
                f = {'idx': leaf(IntSort(), 'variant:%d' % len(p.targs(t)), path + '.idx')}
                for i, a in enumerate(p.targs(t)):
                    f['a%d' % i] = self.build(a, leaf0, lifts, path + '.a%d' % i)
                return Rec(t, f)
            if n in ('std::unique_ptr', 'std::shared_ptr'):
                return NullPtr()
            if n == 'std::function':
                return NullPtr()
            if p.rec(t).get('lambda'):
                return Rec(t, {})
            if p.is_keep(t):
                r = p.rec(t)
                f = {}
                for b in r.get('bases', []):
                    f['@%d' % b] = self.build(b, leaf0, lifts, path + '@')
                for fd in r.get('fields', []):
                    if p.k(fd['t']) == 'ref':
                        f[fd['name']] = NullPtr()
                    else:
                        f[fd['name']] = self.build(fd['t'], leaf0, lifts, path + '.' + fd['name'])
                return Rec(t, f)
            h = self.stl.build(n, t, leaf, lifts, path)
            if h is not None:
                return h
        return Opaque(p.T(t).get('s', '?'))

    def fresh(self, t, name='v'):
        def leaf(s, tt, path):
            c = fresh_const(path, s)
            if s == IntSort():
                self.range_fact(c, tt)
            return c
        return self.build(t, leaf, path=name)

    def zero(self, t):
        def leaf(s, tt, path):
            return zero_of(s)
        return self.build(t, leaf)

    def default(self, t):
        """default-initialised object (scalars indeterminate, class types constructed by their defaults)"""
        k = self.p.k(t)
        if k in ('int', 'enum', 'bool', 'flt', 'ptr'):
            return self.fresh(t, 'uninit')
        if k == 'rec' and self.p.is_keep(t):
            v = self.fresh(t, 'uninit')
            for b in self.p.rec(t).get('bases', []):
                v = v.with_('@%d' % b, self.default(b))
            for fd in self.p.rec(t).get('fields', []):
                if self.p.k(fd['t']) == 'rec':
                    v = v.with_(fd['name'], self.default(fd['t']))
            return v
        return self.zero(t)

    def int_range(self, t):
        if t is None:
            return (0, BIG - 1)
        if t == 'str':
            return (0, None)
        if isinstance(t, str) and t.startswith('variant:'):
            return (0, int(t[8:]) - 1)
        T = self.p.T(t)
        if T['k'] == 'enum':
            vs = [int(v[1]) for v in T['vals']]
            return (min(vs), max(vs)) if vs else (None, None)
        if T['k'] != 'int':
            return (None, None)
        b = T['bits']
        return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if T['signed'] else (0, (1 << b) - 1)

    def range_fact(self, c, t, guarded=False):
        lo, hi = self.int_range(t)
        if lo is not None:
            self.pr.fact(self.st.pc if guarded else (), c >= lo)
        if hi is not None:
            self.pr.fact(self.st.pc if guarded else (), c <= hi)

    def ranged(self, v, t):
        if is_expr(v) and v.sort() == IntSort() and (is_sel(v) or (is_app(v) and v.decl().kind() == Z3_OP_UNINTERPRETED and (v.num_args() or v.decl().name().startswith('h!')))):
            key = ('rng', v.get_id())
            if key not in self.input_ints:
                self.input_ints[key] = v
                self.range_fact(v, t, guarded=False)
        return v

    # ---- store ---------------------------------------------------------------------------------------------------
    def step(self, v, s):
        k, a = s
        if isinstance(v, Choice):
            r = None
            for c, x in reversed(v.alts):
                y = self.step(x, s)
                r = y if r is None else merge_val(c, y, r)
            return r
        if k == 'f':
            if isinstance(v, Rec):
                if a in v.f:
                    return v.f[a]
                raise Unsupported('field %s of %s' % (a, v.t))
            raise Unsupported('field %s of %r' % (a, type(v)))
        if isinstance(v, Vec):
            return map_leaves(lambda l: sel(l, a), v.data)
        if isinstance(v, PyList):
            n = simplify(a)
            if not is_int_value(n):
                raise Unsupported('symbolic index into opaque container')
            return v.items[n.as_long()]
        raise Unsupported('index into %r' % (v,))

    def get_path(self, v, path):
        for s in path:
            v = self.step(v, s)
        return v

    def set_path(self, v, path, x):
        if not path:
            return x
        (k, a), rest = path[0], path[1:]
        if isinstance(v, Choice):
            return Choice([(c, self.set_path(y, path, x)) for c, y in v.alts])
        if k == 'f':
            if not isinstance(v, Rec):
                raise Unsupported('set field %s of %r' % (a, v))
            return v.with_(a, self.set_path(v.f[a], rest, x))
        if isinstance(v, Vec):
            if not rest:
                new = x
            else:
                new = self.set_path(map_leaves(lambda l: sel(l, a), v.data), rest, x)
            return Vec(v.et, v.len, self.zip_store(v.data, a, new))
        if isinstance(v, PyList):
            n = simplify(a)
            if not is_int_value(n):
                raise Unsupported('symbolic index into opaque container')
            n = n.as_long()
            it = list(v.items)
            it[n] = self.set_path(it[n], rest, x)
            return PyList(it)
        raise Unsupported('set index of %r' % (v,))

    def zip_store(self, data, a, new):
        if is_expr(data):
            if isinstance(new, NullPtr):
                new = ANULL
            if not is_expr(new):
                raise Unsupported('store non-solver value %r in container' % (new,))
            if new.sort() != data.sort().range():
                new = self.coerce(new, data.sort().range())
            return mk_store(data, a, new)
        if isinstance(data, Rec):
            return Rec(data.t, {k: self.zip_store(x, a, new.f[k]) for k, x in data.f.items()})
        if isinstance(data, Vec):
            return Vec(data.et, self.zip_store(data.len, a, new.len), self.zip_store(data.data, a, new.data))
        raise Unsupported('store into %r' % (data,))

    def coerce(self, v, s):
        if v.sort() == s:
            return v
        if s == RealSort() and v.sort() == IntSort():
            return ToReal(v)
        if s == IntSort() and v.sort() == BoolSort():
            return mk_ite(v, IntVal(1), IntVal(0))
        if s == BoolSort() and v.sort() == IntSort():
            return v != 0
        raise Unsupported('coerce %s to %s' % (v.sort(), s))

    def heap(self, tk, t=None):
        h = self.st.store.get(('heap', tk))
        if h is None:
            if t is None:
                raise Unsupported('heap of unknown type')
            h = self.build(t, lambda s, tt, q: fresh_const('heap.' + q, s), (Addr,))
            self.st.store[('heap', tk)] = h
            self.st.store[('alive', tk)] = K(Addr, BoolVal(False))
        return h

    def load(self, lv):
        if isinstance(lv, LVChoice):
            r = None
            for c, l in reversed(lv.alts):
                x = self.load(l)
                r = x if r is None else merge_val(c, x, r)
            return r
        if not isinstance(lv, LV):
            return lv
        if isinstance(lv.root, tuple):
            h = self.heap(lv.root[1])
            v = map_leaves(lambda l: sel(l, lv.root[2]), h)
        else:
            if lv.root not in self.st.store:
                raise Unsupported('dangling location %r' % (lv,))
            v = self.st.store[lv.root]
        return self.get_path(v, lv.path)

    def store(self, lv, x):
        if isinstance(lv, LVChoice):
            rest = lv.alts
            for c, l in rest:
                self.store(l, merge_val(c, x, self.load(l)))
            return
        if isinstance(lv.root, tuple):
            h = self.heap(lv.root[1])
            a = lv.root[2]
            if lv.path:
                x = self.set_path(map_leaves(lambda l: sel(l, a), h), lv.path, x)
            self.st.store[('heap', lv.root[1])] = self.zip_store(h, a, x)
            return
        if lv.root not in self.st.store:
            raise Unsupported('dangling location')
        self.st.store[lv.root] = self.set_path(self.st.store[lv.root], lv.path, x)

    def rd(self, x):
        return self.load(x) if isinstance(x, (LV, LVChoice)) else x

    def as_lv(self, x):
        return x if isinstance(x, (LV, LVChoice)) else self.root(x)

    def lv_sub(self, lv, step):
        if isinstance(lv, LVChoice):
            return LVChoice([(c, LV(l.root, l.path + (step,))) for c, l in lv.alts])
        return LV(lv.root, lv.path + (step,))

    # ---- merging -------------------------------------------------------------------------------------------------
    def merge2(self, a, b, va=None, vb=None):
        """merge two states on disjoint paths"""
        if a is None or a.dead:
            return b, vb
        if b is None or b.dead:
            return a, va
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n].get_id() == b.pc[n].get_id():
            n += 1
        ra, rb = a.pc[n:], b.pc[n:]
        pre = a.pc[:n]
        if ra and rb and is_neg(ra[0], rb[0]):
            c = ra[0]
            xa, xb = ra[1:], rb[1:]
            extra = []
            common = [x for x in xa if any(x.get_id() == y.get_id() for y in xb)]
            ids = {x.get_id() for x in common}
            xa = [x for x in xa if x.get_id() not in ids]
            xb = [x for x in xb if x.get_id() not in ids]
            extra += common
            if xa:
                extra.append(Implies(c, mk_and(xa)))
            if xb:
                extra.append(Implies(Not(c), mk_and(xb)))
        else:
            c = mk_and(ra)
            extra = [simplify(Or(c, mk_and(rb)))]
        if is_true(c) and not ra:
            # b's path condition extends a's: choose by b's
            c = Not(mk_and(rb))
            c = simplify(c)
        st = State({}, pre + tuple(x for x in extra if not is_true(x)))
        sa, sb = a.store, b.store
        out = {}
        for k, v in sa.items():
            w = sb.get(k)
            if w is None:
                if isinstance(k, tuple):
                    if k[0] == 'alive':
                        out[k] = merge_val(c, v, K(Addr, BoolVal(False)))
                        continue
                out[k] = v
            elif w is v:
                out[k] = v
            else:
                out[k] = merge_val(c, v, w)
        for k, w in sb.items():
            if k not in sa:
                if isinstance(k, tuple) and k[0] == 'alive':
                    out[k] = merge_val(c, K(Addr, BoolVal(False)), w)
                else:
                    out[k] = w
        st.store = out
        v = None
        if va is not None and vb is not None:
            if isinstance(va, (LV, LVChoice)) or isinstance(vb, (LV, LVChoice)):
                v = self.merge_lv(c, va, vb)
            else:
                v = merge_val(c, va, vb)
        elif va is not None or vb is not None:
            v = va if va is not None else vb
        return st, v

    def merge_lv(self, c, a, b):
        if isinstance(a, LV) and isinstance(b, LV) and a.same(b):
            return a
        if not isinstance(a, (LV, LVChoice)) or not isinstance(b, (LV, LVChoice)):
            raise Unsupported('merge of location and value')
        if isinstance(a, LV) and isinstance(b, LV) and not isinstance(a.root, tuple) and a.root == b.root and len(a.path) == len(b.path):
            # same container, different index
            diff = [n for n in range(len(a.path)) if not (a.path[n][0] == b.path[n][0] and (a.path[n][1] == b.path[n][1] if a.path[n][0] == 'f' else a.path[n][1].eq(b.path[n][1])))]
            if len(diff) == 1 and a.path[diff[0]][0] == 'i' and b.path[diff[0]][0] == 'i':
                n = diff[0]
                return LV(a.root, a.path[:n] + (('i', mk_ite(c, a.path[n][1], b.path[n][1])),) + a.path[n + 1:])
        aa = a.alts if isinstance(a, LVChoice) else [(BoolVal(True), a)]
        bb = b.alts if isinstance(b, LVChoice) else [(BoolVal(True), b)]
        return LVChoice([(simplify(And(c, x)), l) for x, l in aa] + [(simplify(And(Not(c), x)), l) for x, l in bb])

    def merge_all(self, lst):
        st, v = None, None
        for s, x in lst:
            if st is None:
                st, v = s, x
            else:
                st, v = self.merge2(st, s, v, x)
        return st, v

    def branch(self, c, fa, fb):
        c = simplify(c)
        if self.st.dead:
            return None
        if is_true(c):
            return fa()
        if is_false(c):
            return fb()
        s0 = self.st
        s1, s2 = s0.copy(), s0.copy()
        s1.assume(c)
        nc = simplify(Not(c))
        s2.assume(nc)
        f1 = self.pr.feasible(s1.pc)
        f2 = self.pr.feasible(s2.pc) if f1 else True
        if not f1:
            return fb()
        if not f2:
            return fa()
        self.st = s1
        v1 = fa()
        s1 = self.st
        self.st = s2
        v2 = fb()
        s2 = self.st
        if s1.dead and s2.dead:
            self.st = State(s0.store, s0.pc, True)
            return v1 if v1 is not None else v2
        self.st, v = self.merge2(s1, s2, None if s1.dead else v1, None if s2.dead else v2)
        return v

    # ---- function calls --------------------------------------------------------------------------------------
    def call_fn(self, fid, this, args, argtypes=None):
        f = self.p.funcs[fid]
        if 'body' not in f:
            if f.get('pure'):
                raise Unsupported('call of pure virtual %s' % f['cq'])
            raise Unsupported('no body for %s' % f['cq'])
        if len(self.frames) > 60 or sum(1 for x in self.frames if x.fn['id'] == fid) > 3:
            raise Unsupported('recursion in %s' % f['cq'])
        if f['file'].startswith('/repo'):
            self.used[f['cq']] = '%s:%s' % (f['file'].replace('/repo/', ''), f['line'])
        fr = Frame(f, this)
        fr.argv = args
        saved_line = self.line
        # bind parameters in the caller's context
        for prm, a in zip(f['params'], args):
            if self.p.k(prm['t']) == 'ref':
                fr.env[prm['d']] = self.as_lv(a)
            else:
                v = self.rd(a)
                v = self.conv_store(v, prm['t'])
                self.frames.append(fr)
                fr.env[prm['d']] = self.root(v)
                self.frames.pop()
        self.frames.append(fr)
        saved_temps, self.temps = self.temps, []
        depth_sinks = len(self.sinks)
        try:
            if f.get('lambda'):
                self.bind_caps(fr, this)
            if f.get('ctor') is not None and f.get('ctor') != '':
                self.run_inits(f, this)
            if not self.st.dead:
                self.exec(f['body'])
            # normal end of body
            if not self.st.dead:
                for prm in f['params']:
                    pass
                fr.returns.append((self.st, None))
            if f.get('dtor') and not self.st.dead:
                pass
            rets = [(s, v) for s, v in fr.returns if not s.dead]
            if not rets:
                self.st = State(self.st.store, self.st.pc, True)
                rv_ = None
            else:
                self.st, rv_ = self.merge_all(rets)
        finally:
            self.frames.pop()
            self.temps = saved_temps
            self.line = saved_line
        if self.st.dead:
            return None
        if f.get('dtor'):
            self.destroy_members(this, f)
        return rv_

    def conv_store(self, v, t):
        if isinstance(v, NullPtr) and self.p.k(t) == 'ptr':
            return v
        return v

    def bind_caps(self, fr, this):
        r = self.p.recs[fr.fn['rec']]
        v = self.load(this)
        for n, c in enumerate(r.get('caps', [])):
            key = 'c%d' % n
            if c.get('this'):
                x = v.f[key]
                fr.this = x.lv if isinstance(x, PtrLV) else None
            elif 'd' in c:
                if c.get('byref'):
                    x = v.f[key]
                    fr.caps[c['d']] = x.lv if isinstance(x, PtrLV) else x
                else:
                    fr.caps[c['d']] = self.lv_sub(this, ('f', key))

    def run_inits(self, f, this):
        """member initialisers of a constructor"""
        for i in f.get('inits', []):
            if self.st.dead:
                return
            if 'f' in i:
                rec = self.p.recs[f['rec']]
                ft = [x for x in rec['fields'] if x['name'] == i['f']][0]['t']
                lv = self.lv_sub(this, ('f', i['f']))
                if self.p.k(ft) == 'ref':
                    l = self.ev(i['e'])
                    self.store(lv, PtrLV(self.as_lv(l)))
                else:
                    self.init_into(lv, ft, i['e'])
            elif 'b' in i:
                self.init_into(self.lv_sub(this, ('f', '@%d' % i['b'])), i['b'], i['e'])
            elif 'dg' in i:
                self.init_into(this, None, i['e'])

    def init_into(self, lv, t, e):
        """initialise the object at lv from expression e"""
        if e['k'] == 'ctor' and self.p.is_keep(e['t']):
            f = self.p.funcs[e['fn']]
            if 'body' in f and not (f.get('defaulted') and f.get('ctor') in ('copy', 'move')):
                args = [self.ev(a) for a in e['args']]
                if self.st.dead:
                    return
                if e.get('zi'):
                    self.store(lv, self.zero(e['t']))
                self.call_fn(e['fn'], lv, args)
                return
        if e['k'] == 'inhctor':
            self.call_fn(e['fn'], lv, self.frames[-1].argv)
            return
        if e['k'] == 'dinit':
            fr = self.frames[-1]
            v = self.rd(self.ev(e['e']))
            if not self.st.dead:
                self.store(lv, v)
            return
        v = self.rv(e)
        if self.st.dead:
            return
        cur = self.load(lv)
        if isinstance(cur, Rec) and isinstance(v, Rec) and cur.t != v.t and cur.f.keys() != v.f.keys():
            raise Unsupported('init of %s from %s' % (cur.t, v.t))
        if is_expr(cur) and cur.sort() == Addr and isinstance(v, NullPtr):
            v = ANULL
        if is_expr(cur) and is_expr(v) and cur.sort() != v.sort():
            v = self.coerce(v, cur.sort())
        self.store(lv, v)

    def construct(self, e):
        """CXXConstructExpr -> value"""
        t = e['t']
        f = self.p.funcs[e['fn']]
        if self.p.is_keep(t):
            kind = f.get('ctor')
            user_body = 'body' in f and not f.get('defaulted')
            if kind in ('copy', 'move') and not user_body:
                src = self.ev(e['args'][0])
                if self.st.dead:
                    return None
                return self.copy_val(src, t, kind == 'move')
            args = [self.ev(a) for a in e['args']]
            if self.st.dead:
                return None
            if 'body' in f:
                v0 = self.zero(t) if e.get('zi') else self.default(t)
                lv = self.root(v0)
                self.call_fn(e['fn'], lv, args)
                if self.st.dead:
                    return None
                return self.load(lv)
            if kind == 'default':
                return self.zero(t) if e.get('zi') else self.default(t)
            raise Unsupported('constructor %s' % f['cq'])
        if self.p.rec(t).get('lambda'):
            return self.rd(self.ev(e['args'][0]))
        args = [self.ev(a) for a in e['args']]
        if self.st.dead:
            return None
        return self.stl.construct(t, f, args, e)

    def needs_user_copy(self, t):
        if self.p.k(t) == 'ref':
            return False
        if self.p.k(t) == 'rec':
            if self.p.recname(t) in ('std::unique_ptr', 'std::optional', 'std::vector'):
                return self.p.recname(t) == 'std::unique_ptr' or self.needs_user_copy(self.p.targ(t))
            if self.p.is_keep(t):
                r = self.p.rec(t)
                return bool(r.get('copyctor')) or any(self.needs_user_copy(f['t']) for f in r.get('fields', [])) or any(self.needs_user_copy(b) for b in r.get('bases', []))
        return False

    def copy_val(self, src, t, move=False, top_user=True):
        """value of a copy/move-constructed object of type t from src (LV or value)"""
        p = self.p
        t = p.noref(t)
        if p.is_keep(t):
            r = p.rec(t)
            m = r.get('movector') if move else r.get('copyctor')
            if move and not m and r.get('copyctor') and not self.has_default_move(t):
                m = r.get('copyctor')
            if m and 'body' in p.funcs[m] and top_user:
                lv = self.root(self.default(t))
                self.call_fn(m, lv, [self.as_lv(src)])
                return None if self.st.dead else self.load(lv)
            if m and top_user:
                raise Unsupported('no body for copy of %s' % p.T(t).get('s'))
            if not self.needs_user_copy(t) and not move:
                return self.rd(src)
            src = self.as_lv(src)
            f = {}
            v = self.rd(src)
            if v.t != t:
                raise Unsupported('slicing copy')
            for k in v.f:
                ft = int(k[1:]) if k.startswith('@') else [x for x in r['fields'] if x['name'] == k][0]['t']
                if p.k(ft) == 'ref':
                    f[k] = v.f[k]
                    continue
                f[k] = self.copy_val(self.lv_sub(src, ('f', k)), ft, move)
                if self.st.dead:
                    return None
            return Rec(t, f)
        v = self.rd(src)
        if p.k(t) == 'rec':
            n = p.recname(t)
            if n in ('std::unique_ptr', 'std::vector', 'std::basic_string', 'std::function', 'std::shared_ptr', 'std::deque'):
                if move and isinstance(src, (LV, LVChoice)):
                    if n == 'std::unique_ptr':
                        self.store(src, NullPtr())
                    elif n == 'std::vector' and isinstance(v, Vec):
                        self.store(src, Vec(v.et, IntVal(0), v.data))
                    elif n == 'std::vector':
                        self.store(src, PyList([]))
                return v
            if n == 'std::optional':
                inner = p.targ(t)
                if self.needs_user_copy(inner):
                    src = self.as_lv(src)
                    has = self.load(src).f['has']
                    def yes():
                        x = self.copy_val(self.lv_sub(src, ('f', 'val')), inner, move)
                        return None if self.st.dead else x
                    def no():
                        return self.load(src).f['val']
                    val = self.branch(has, yes, no)
                    return None if self.st.dead else Rec(t, {'has': has, 'val': val})
                return v
            if n == 'std::pair' and move:
                src = self.as_lv(src)
                return Rec(t, {k: self.copy_val(self.lv_sub(src, ('f', k)), p.targs(t)[i], True) for i, k in enumerate(('first', 'second'))})
        return v

    def has_default_move(self, t):
        return True

    def assign_val(self, dst, src, t, move=False):
        """memberwise (defaulted) assignment honouring user-provided member assignment"""
        p = self.p
        if p.is_keep(t):
            r = p.rec(t)
            v = self.rd(dst)
            for k in v.f:
                ft = int(k[1:]) if k.startswith('@') else [x for x in r['fields'] if x['name'] == k][0]['t']
                if p.is_keep(ft):
                    rr = p.rec(ft)
                    m = (rr.get('moveassign') if move else None) or rr.get('copyassign')
                    if m and 'body' in p.funcs[m]:
                        self.call_fn(m, self.lv_sub(dst, ('f', k)), [self.lv_sub(src, ('f', k))])
                        continue
                    self.assign_val(self.lv_sub(dst, ('f', k)), self.lv_sub(src, ('f', k)), ft, move)
                    continue
                x = self.copy_val(self.lv_sub(src, ('f', k)), ft, move)
                self.store(self.lv_sub(dst, ('f', k)), x)
            return
        self.store(dst, self.copy_val(src, t, move))

    # ---- destructors -----------------------------------------------------------------------------------------
    def has_dtor(self, t):
        p = self.p
        if p.k(t) != 'rec':
            return False
        if p.is_keep(t):
            r = p.rec(t)
            if r.get('dtor') and 'body' in p.funcs[r['dtor']]:
                return True
            return any(self.has_dtor(f['t']) for f in r.get('fields', [])) or any(self.has_dtor(b) for b in r.get('bases', []))
        return False

    def destroy(self, lv, t):
        if self.st.dead or not self.has_dtor(t):
            return
        r = self.p.rec(t)
        if r.get('dtor') and 'body' in self.p.funcs[r['dtor']]:
            self.call_fn(r['dtor'], lv, [])
        else:
            self.destroy_members(lv, None, t)

    def destroy_members(self, lv, f, t=None):
        t = t if t is not None else self.p.recs[f['rec']]['t']
        r = self.p.rec(t)
        for fd in r.get('fields', []):
            if self.has_dtor(fd['t']):
                self.destroy(self.lv_sub(lv, ('f', fd['name'])), fd['t'])
        for b in r.get('bases', []):
            if self.has_dtor(b):
                self.destroy(self.lv_sub(lv, ('f', '@%d' % b)), b)

    def run_cleanups(self, depth):
        fr = self.frames[-1]
        for sc in reversed(fr.scopes[depth:]):
            for lv, t in reversed(sc):
                if self.st.dead:
                    return
                self.destroy(lv, t)

    # ---- statements --------------------------------------------------------------------------------------------
    def exec(self, s):
        if s is None or self.st.dead:
            return
        if s.get('l'):
            self.line = s['l']
        getattr(self, 's_' + s['k'])(s)

    def full(self, fn):
        """run a full expression; destroy its temporaries"""
        saved, self.temps = self.temps, []
        r = fn()
        tmp, self.temps = self.temps, saved
        if tmp and not self.st.dead:
            for lv, t in reversed(tmp):
                self.destroy(lv, t)
        return r

    def s_unsup(self, s):
        raise Unsupported('statement %s at line %s' % (s.get('cls'), s.get('l')))

    def s_nop(self, s):
        pass

    def s_blk(self, s):
        fr = self.frames[-1]
        fr.scopes.append([])
        d = len(fr.scopes) - 1
        for x in s['b']:
            if self.st.dead:
                break
            self.exec(x)
        if not self.st.dead:
            self.run_cleanups(d)
        fr.scopes.pop()

    def s_expr(self, s):
        self.full(lambda: self.ev(s['e']))

    def declare(self, v):
        if v.get('static'):
            key = ('static', v['d'])
            if key not in self.statics:
                self.statics[key] = True
        fr = self.frames[-1]
        t = v['t']
        if self.p.k(t) == 'ref':
            saved, self.temps = self.temps, []
            x = self.ev(v['e'])
            tmp, self.temps = self.temps, saved
            if self.st.dead:
                return
            lv = self.as_lv(x)
            fr.env[v['d']] = lv
            for l, tt in tmp:
                if fr.scopes:
                    fr.scopes[-1].append((l, tt))
        else:
            lv = self.root(self.default(t))
            fr.env[v['d']] = lv
            if 'e' in v and v['e'] is not None:
                self.full(lambda: self.init_into(lv, t, v['e']))
                if self.st.dead:
                    return
            if self.has_dtor(t) and fr.scopes:
                fr.scopes[-1].append((lv, t))
        for b in v.get('binds', []):
            if 'hv' in b:
                self.declare(b['hv'])
            if 'e' in b:
                fr.env[b['d']] = self.as_lv(self.ev(b['e']))

    def s_decl(self, s):
        for v in s['v']:
            if self.st.dead:
                return
            self.declare(v)

    def cond_of(self, s):
        if s.get('cv'):
            self.declare(s['cv'])
        return self.full(lambda: self.truth(self.rv(s['c'])))

    def truth(self, v):
        if v is None:
            return None
        if is_expr(v):
            if v.sort() == BoolSort():
                return v
            if v.sort() == Addr:
                return v != ANULL
            return v != 0
        if isinstance(v, NullPtr):
            return BoolVal(False)
        if isinstance(v, (PtrLV, FnVal)):
            return BoolVal(True)
        if isinstance(v, Choice):
            return simplify(Or(*[And(c, self.truth(x)) for c, x in v.alts]))
        raise Unsupported('truth of %r' % (v,))

    def s_if(self, s):
        fr = self.frames[-1]
        fr.scopes.append([])
        d = len(fr.scopes) - 1
        if s.get('i'):
            self.exec(s['i'])
        if s.get('cx') and 'cxv' in s:
            self.exec(s['a'] if s['cxv'] else s['b'])
        elif s.get('cx') and (s.get('a') is None or s.get('b') is None) and not s.get('c'):
            self.exec(s['a'] or s['b'])
        else:
            c = self.cond_of(s)
            if not self.st.dead:
                self.branch(c, lambda: self.exec(s['a']), lambda: self.exec(s['b']))
        if not self.st.dead:
            self.run_cleanups(d)
        fr.scopes.pop()

    def s_ret(self, s):
        fr = self.frames[-1]
        v = None
        if s['e'] is not None:
            if self.p.k(fr.fn['ret']) == 'ref':
                v = self.full(lambda: self.ev(s['e']))
                if not self.st.dead:
                    v = self.as_lv(v)
            else:
                v = self.full(lambda: self.rv(s['e']))
                if not self.st.dead and v is not None and self.p.k(fr.fn['ret']) == 'void':
                    v = None
        if self.st.dead:
            return
        self.run_cleanups(0)
        if self.st.dead:
            return
        fr.returns.append((self.st, v))
        self.st = State(self.st.store, self.st.pc, True)

    def s_brk(self, s):
        l = self.frames[-1].loops[-1]
        self.run_cleanups(l.scope_depth)
        l.breaks.append(self.st)
        self.st = State(self.st.store, self.st.pc, True)

    def s_cont(self, s):
        ls = [x for x in self.frames[-1].loops if x.conts is not None]
        l = ls[-1]
        self.run_cleanups(l.scope_depth)
        l.conts.append(self.st)
        self.st = State(self.st.store, self.st.pc, True)

    def s_for(self, s):
        fr = self.frames[-1]
        fr.scopes.append([])
        d = len(fr.scopes) - 1
        if s['i']:
            self.exec(s['i'])
        self.le.run(s, lambda: self.cond_of(s) if s['c'] else BoolVal(True), lambda: self.exec(s['b']), (lambda: self.full(lambda: self.ev(s['inc']))) if s['inc'] else None)
        if not self.st.dead:
            self.run_cleanups(d)
        fr.scopes.pop()

    def s_while(self, s):
        self.le.run(s, lambda: self.cond_of(s), lambda: self.exec(s['b']), None)

    def s_do(self, s):
        # first iteration peeled, then a while loop
        fr = self.frames[-1]
        ctx = LoopCtx(len(fr.scopes))
        fr.loops.append(ctx)
        self.exec(s['b'])
        fr.loops.pop()
        lst = [(x, None) for x in [self.st] + ctx.conts if not x.dead]
        brk = [x for x in ctx.breaks if not x.dead]
        if lst:
            self.st, _ = self.merge_all(lst)
            self.le.run(s, lambda: self.cond_of(s), lambda: self.exec(s['b']), None)
        else:
            self.st = State(self.st.store, self.st.pc, True)
        for b in brk:
            self.st, _ = self.merge2(self.st, b)

    def s_frange(self, s):
        fr = self.frames[-1]
        fr.scopes.append([])
        d = len(fr.scopes) - 1
        if s.get('i'):
            self.exec(s['i'])
        self.exec(s['range'])
        if not self.st.dead:
            self.exec(s['begin'])
        if not self.st.dead:
            self.exec(s['end'])
        if not self.st.dead:
            def body():
                fr.scopes.append([])
                dd = len(fr.scopes) - 1
                self.exec(s['lv'])
                self.exec(s['b'])
                if not self.st.dead:
                    self.run_cleanups(dd)
                fr.scopes.pop()
            self.le.run(s, lambda: self.full(lambda: self.truth(self.rv(s['c']))), body, lambda: self.full(lambda: self.ev(s['inc'])))
        if not self.st.dead:
            self.run_cleanups(d)
        fr.scopes.pop()

    def s_switch(self, s):
        fr = self.frames[-1]
        if s.get('i'):
            self.exec(s['i'])
        c = self.full(lambda: self.rv(s['c']))
        if self.st.dead:
            return
        items = []  # flattened: ('case', val) / ('default',) / stmt

        def flat(x):
            if x is None:
                return
            if x['k'] == 'case':
                items.append(('case', x['c']))
                flat(x['b'])
            elif x['k'] == 'default':
                items.append(('default',))
                flat(x['b'])
            else:
                items.append(('s', x))
        b = s['b']
        for x in (b['b'] if b['k'] == 'blk' else [b]):
            flat(x)
        ctx = LoopCtx(len(fr.scopes))
        ctx.conts = None
        fr.loops.append(ctx)
        fr.scopes.append([])
        s0 = self.st
        vals = []
        for it in items:
            if it[0] == 'case':
                vals.append(self.rv(it[1]))
        conds = iter(vals)
        flow = State(s0.store, s0.pc, True)
        for n, it in enumerate(items):
            if it[0] in ('case', 'default'):
                cond = c == next(conds) if it[0] == 'case' else And(*[c != v for v in vals]) if vals else BoolVal(True)
                cond = simplify(cond)
                ent = s0.copy()
                ent.assume(cond)
                if not ent.dead and self.pr.feasible(ent.pc):
                    flow, _ = self.merge2(flow, ent)
            else:
                self.st = flow
                if not flow.dead:
                    self.exec(it[1])
                flow = self.st
        self.st = flow
        fr.loops.pop()
        # no case matched
        if not any(it[0] == 'default' for it in items):
            ent = s0.copy()
            ent.assume(simplify(And(*[c != v for v in vals])))
            if not ent.dead and self.pr.feasible(ent.pc):
                self.st, _ = self.merge2(self.st, ent)
        for bs in ctx.breaks:
            self.st, _ = self.merge2(self.st, bs)
        fr.scopes.pop()

    def s_case(self, s):
        raise Unsupported('case outside switch')

    def s_try(self, s):
        self.sinks.append([])
        nfr = len(self.frames)
        fr = self.frames[-1]
        nl, ns = len(fr.loops), len(fr.scopes)
        self.exec(s['b'])
        thrown = self.sinks.pop()
        done = [] if self.st.dead else [self.st]
        for st, exc in thrown:
            handled = False
            for h in s['h']:
                if 'v' in h and not self.exc_match(exc, h['v']['t']):
                    continue
                self.st = st
                if 'v' in h:
                    fr.env[h['v']['d']] = self.root(Opaque('exception'))
                self.exec(h['b'])
                if not self.st.dead:
                    done.append(self.st)
                handled = True
                break
            if not handled:
                self.sinks[-1].append((st, exc))
        if not done:
            self.st = State(self.st.store, self.st.pc, True)
            return
        self.st, _ = self.merge_all([(x, None) for x in done])

    def exc_match(self, exc, t):
        t = self.p.noref(t)
        n = self.p.recname(t)
        if isinstance(exc, str):  # thrown by an stl contract
            return n in STD_EXC.get(exc, ()) or n == exc
        return self.p.derives(exc, (n,))

    def throw(self, exc):
        self.sinks[-1].append((self.st, exc))
        self.st = State(self.st.store, self.st.pc, True)

    def throw_if(self, cond, exc):
        cond = simplify(cond)
        if is_false(cond):
            return
        s = self.st.copy()
        s.assume(cond)
        if not s.dead and self.pr.feasible(s.pc):
            self.sinks[-1].append((s, exc))
        self.st.assume(simplify(Not(cond)))

    # ---- expressions -------------------------------------------------------------------------------------------
    def rv(self, e):
        v = self.ev(e)
        if self.st.dead:
            return None
        return self.rd(v)

    def ev(self, e):
        if self.st.dead:
            return None
        if e.get('l'):
            self.line = e['l']
        return getattr(self, 'e_' + e['k'])(e)

    def e_unsup(self, e):
        raise Unsupported('expression %s at %s' % (e.get('cls'), self.loc()))

    def e_int(self, e):
        t = self.p.k(e['t'])
        if t == 'bool':
            return BoolVal(int(e['v']) != 0)
        if t == 'flt':
            return RealVal(e['v'])
        return IntVal(int(e['v']))

    def e_bool(self, e):
        return BoolVal(bool(e['v']))

    def e_flt(self, e):
        return flt_lit(e['v'])

    def e_str(self, e):
        return str_code(e['v'])

    def e_null(self, e):
        return NullPtr()

    def e_zero(self, e):
        return self.zero(e['t'])

    def e_fn(self, e):
        return FnVal(e['fn'])

    def e_dinit(self, e):
        return self.ev(e['e'])

    def e_ref(self, e):
        d = e['d']
        if e.get('glob'):
            return self.global_var(d, e)
        for fr in (self.frames[-1],):
            if d in fr.env:
                return fr.env[d]
            if d in fr.caps:
                return fr.caps[d]
        if d in self.statics:
            return self.statics[d]
        # constexpr locals of an enclosing function used in a lambda without capture
        for fr in reversed(self.frames):
            if d in fr.env:
                return fr.env[d]
            if d in fr.caps:
                return fr.caps[d]
        raise Unsupported('unknown variable %s at %s' % (e.get('name'), self.loc()))

    def global_var(self, d, e):
        key = 'glob:%d' % d
        if key not in self.st.store:
            g = self.p.globals[d]
            h = self.stl.global_value(g['name'])
            if h is not None:
                v = h
            elif 'iv' in g:
                v = IntVal(int(g['iv'])) if self.p.k(g['t']) != 'bool' else BoolVal(g['iv'] != '0')
            elif 'fv' in g:
                v = flt_lit(g['fv'])
                if g['name'].endswith('pi_v') or g['name'].endswith('::pi'):
                    v = self.stl.PI
            elif 'e' in g and g.get('cst'):
                v = self.rv(g['e'])
            else:
                v = self.stl.global_value(g['name'], g['t'])
                if v is None:
                    v = self.fresh(g['t'], 'glob')
            self.st.store[key] = v
        return LV(key)

    def e_this(self, e):
        return PtrLV(self.frames[-1].this)

    def deref(self, p, t=None, what='dereference'):
        """pointer value -> location"""
        if isinstance(p, PtrLV):
            return p.lv
        if isinstance(p, NullPtr):
            self.oblige('safety', BoolVal(False), 'null pointer ' + what)
            return None
        if is_expr(p) and p.sort() == Addr:
            if t is None:
                raise Unsupported('deref of untyped address')
            tk = self.p.T(t)['s']
            self.heap(tk, t)
            self.oblige('safety', And(p != ANULL, sel(self.st.store[('alive', tk)], p)), 'pointer %s: object is alive' % what)
            return LV(('h', tk, p))
        if isinstance(p, Choice):
            nulls = [c for c, x in p.alts if isinstance(x, NullPtr)]
            if nulls:
                self.oblige('safety', Not(Or(*nulls)), 'null pointer ' + what)
                if self.st.dead:
                    return None
            alts = [(c, self.deref(x, t, what)) for c, x in p.alts if not isinstance(x, NullPtr)]
            flat = []
            for c, l in alts:
                if isinstance(l, LVChoice):
                    flat += [(simplify(And(c, c2)), l2) for c2, l2 in l.alts]
                else:
                    flat.append((c, l))
            return flat[0][1] if len(flat) == 1 else LVChoice(flat)
        if isinstance(p, Rec) and p.t == 'iter':
            return self.stl.iter_deref(p)
        raise Unsupported('deref of %r at %s' % (p, self.loc()))

    def e_mem(self, e):
        b = self.ev(e['b'])
        if self.st.dead:
            return None
        if e['arrow']:
            b = self.deref(self.rd(b), self.p.T(e['b']['t']).get('to'))
            if self.st.dead:
                return None
        if 'fn' in e:
            return FnVal(e['fn'], None, b)
        rec = self.p.recs[e['own']]
        if not rec.get('keep'):
            return self.stl.field(b, e)
        if isinstance(b, (LV, LVChoice)):
            lv = self.lv_sub(b, ('f', e['f']))
            ft = [x for x in rec['fields'] if x['name'] == e['f']]
            if ft and self.p.k(ft[0]['t']) == 'ref':
                x = self.load(lv)
                return self.deref(x)
            return lv
        v = self.step(b, ('f', e['f']))
        if isinstance(v, PtrLV) and any(x['name'] == e['f'] and self.p.k(x['t']) == 'ref' for x in rec['fields']):
            return v.lv
        return self.root(v) if e.get('vc') else v

    def e_mat(self, e):
        v = self.ev(e['e'])
        if self.st.dead:
            return None
        if isinstance(v, (LV, LVChoice)):
            return v
        lv = self.root(v)
        if self.has_dtor(e['t']):
            self.temps.append((lv, e['t']))
        return lv

    def e_cond(self, e):
        c = self.truth(self.rv(e['c']))
        if self.st.dead:
            return None
        if e.get('vc'):
            return self.branch(c, lambda: self.ev(e['a']), lambda: self.ev(e['b']))
        return self.branch(c, lambda: self.rv(e['a']), lambda: self.rv(e['b']))

    def e_cast(self, e):
        ck = e['ck']
        if ck == 'LValueToRValue':
            v = self.ev(e['e'])
            if self.st.dead:
                return None
            v = self.rd(v)
            return self.ranged(v, e['t'])
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase'):
            v = self.ev(e['e'])
            if self.st.dead:
                return None
            for b in e['path']:
                if isinstance(v, PtrLV):
                    v = PtrLV(self.lv_sub(v.lv, ('f', '@%d' % b)))
                elif isinstance(v, (LV, LVChoice)):
                    x = self.rd(v)
                    if isinstance(x, (Opaque,)) or is_expr(x):
                        continue
                    if isinstance(x, Rec) and '@%d' % b not in x.f:
                        continue
                    if not isinstance(x, Rec):
                        continue
                    v = self.lv_sub(v, ('f', '@%d' % b))
                elif isinstance(v, Rec) and '@%d' % b in v.f:
                    v = v.f['@%d' % b]
                elif isinstance(v, Choice):
                    v = Choice([(c, PtrLV(self.lv_sub(x.lv, ('f', '@%d' % b))) if isinstance(x, PtrLV) else x) for c, x in v.alts])
            return v
        if ck == 'BaseToDerived' or ck == 'Dynamic':
            v = self.ev(e['e'])
            if self.st.dead:
                return None
            return self.downcast(v, e)
        if ck == 'FunctionToPointerDecay' or ck == 'BuiltinFnToFnPtr':
            return self.ev(e['e'])
        if ck == 'ArrayToPointerDecay':
            v = self.ev(e['e'])
            if self.st.dead:
                return None
            if is_expr(v):
                return v
            x = self.rd(v)
            if is_expr(x):
                return x
            return Rec('iter', {'c': PtrLV(self.as_lv(v)), 'i': IntVal(0)})
        v = self.rv(e['e'])
        if self.st.dead:
            return None
        st, tt = e['e']['t'], e['t']
        if ck == 'IntegralCast':
            return self.int_cast(v, st, tt)
        if ck == 'BooleanToSignedIntegral':
            return mk_ite(v, IntVal(1), IntVal(0))
        if ck == 'IntegralToFloating':
            if is_expr(v) and v.sort() == BoolSort():
                return mk_ite(v, RealVal(1), RealVal(0))
            return self.to_real(v)
        if ck == 'FloatingToIntegral':
            lo, hi = self.int_range(tt)
            self.oblige('safety', And(v > lo - 1, v < hi + 1), 'floating value representable in the integer type')
            return simplify(mk_ite(v >= 0, ToInt(v), -ToInt(-v)))
        if ck == 'FloatingCast':
            return v
        if ck == 'IntegralToBoolean':
            return v != 0 if is_expr(v) and v.sort() != BoolSort() else v
        if ck == 'FloatingToBoolean':
            return v != 0
        if ck == 'PointerToBoolean':
            return self.truth(v)
        if ck == 'NullToPointer':
            return NullPtr()
        if ck in ('BitCast', 'NoOp', 'Dependent'):
            return v
        if ck == 'ToVoid':
            return None
        raise Unsupported('cast %s at %s' % (ck, self.loc()))

    def downcast(self, v, e):
        tgt = self.p.T(e['t'])
        isptr = tgt['k'] == 'ptr'
        t = tgt['to'] if isptr else (tgt['to'] if tgt['k'] == 'ref' else e['t'])

        def one(l):
            # strip base steps until an object of type t is found
            while True:
                x = self.load(l)
                if isinstance(x, Rec) and x.t == t:
                    return l
                if l.path and l.path[-1][0] == 'f' and l.path[-1][1].startswith('@'):
                    l = LV(l.root, l.path[:-1])
                    continue
                return None
        if isinstance(v, PtrLV):
            r = one(v.lv)
            if r is None:
                if e['ck'] == 'Dynamic':
                    return NullPtr()
                raise Unsupported('downcast')
            return PtrLV(r)
        if isinstance(v, NullPtr):
            return v
        if isinstance(v, LV):
            r = one(v)
            if r is None:
                raise Unsupported('downcast')
            return r
        raise Unsupported('downcast of %r' % (v,))

    def to_real(self, v):
        if is_int_value(v):
            return RealVal(v.as_long())
        return ToReal(v)

    def int_cast(self, v, st, tt):
        if not is_expr(v):
            return v
        if v.sort() == BoolSort():
            v = mk_ite(v, IntVal(1), IntVal(0))
        if self.p.k(tt) == 'bool':
            return v != 0
        lo, hi = self.int_range(tt)
        lo0, hi0 = self.int_range(st)
        if self.p.k(tt) == 'enum' or lo is None:
            return v
        if lo0 is not None and hi0 is not None and lo0 >= lo and hi0 <= hi:
            return v
        if is_int_value(v):
            m = hi - lo + 1
            x = v.as_long()
            return IntVal((x - lo) % m + lo)
        if self.known(And(v >= lo, v <= hi)):
            return v
        m = hi - lo + 1
        if lo == 0 and lo0 is not None and lo0 < 0 and hi0 <= hi:
            return mk_ite(v >= 0, v, v + m)
        return (v - lo) % m + lo

    # arithmetic
    def arith(self, op, a, b, t):
        k = self.p.k(t)
        if k == 'flt' or (is_expr(a) and a.sort() == RealSort()):
            return self.farith(op, a, b)
        if k == 'bool':
            a, b = self.truth(a), self.truth(b)
            if op == '&':
                return And(a, b)
            if op == '|':
                return Or(a, b)
            if op == '^':
                return Xor(a, b)
        a, b = self.coerce(a, IntSort()), self.coerce(b, IntSort())
        lo, hi = self.int_range(t)
        if self.p.k(t) == 'enum':
            lo, hi = -(1 << 31), (1 << 31) - 1
        m = hi - lo + 1
        if op in '+-*' and len(op) == 1:
            r = a + b if op == '+' else a - b if op == '-' else a * b
            r = simplify(r)
            if lo < 0:
                if not is_int_value(r) and self.check_overflow:
                    self.oblige('safety', And(r >= lo, r <= hi), 'no signed overflow in %s' % op)
                return r
            if is_int_value(r):
                return IntVal(r.as_long() % m)
            if op == '+':
                return r if self.known(r <= hi) else If(r <= hi, r, r - m)
            if op == '-':
                return r if self.known(r >= 0) else If(r >= 0, r, r + m)
            return r if self.known(r <= hi, 1.0) else r % m
        if op in ('/', '%'):
            self.oblige('safety', b != 0, 'division by zero')
            if lo == 0 or self.known(And(a >= 0, b > 0)):
                return simplify(a / b) if op == '/' else simplify(a % b)
            q = If(a >= 0, If(b > 0, a / b, -(a / (-b))), If(b > 0, -((-a) / b), (-a) / (-b)))
            return q if op == '/' else a - q * b
        if op == '<<':
            if is_int_value(b):
                r = a * (1 << b.as_long())
                return r if self.known(r <= hi) else r % m
        if op == '>>':
            if is_int_value(b):
                return a / (1 << b.as_long())
        if op == '&':
            for x, y in ((a, b), (b, a)):
                if is_int_value(y):
                    n = y.as_long()
                    if n & (n + 1) == 0:
                        return x % (n + 1)
                    if n == 0:
                        return IntVal(0)
        if op in ('&', '|', '^') and hi < (1 << 64):
            bits = 64
            A, B = Int2BV(a, bits), Int2BV(b, bits)
            return BV2Int(A & B if op == '&' else A | B if op == '|' else A ^ B)
        raise Unsupported('operator %s at %s' % (op, self.loc()))

    def farith(self, op, a, b):
        a = self.coerce(a, RealSort())
        b = self.coerce(b, RealSort())
        if op in '+-':
            if a.eq(INF) and not b.eq(INF):
                return INF
            if op == '+':
                return a + b
            return a - b
        if op == '*':
            for u, w in ((a, b), (b, a)):
                if is_div(u) and not is_rational_value(w) and simplify(u.arg(1)).eq(simplify(w)):
                    if self.pr.prove(list(self.st.pc), w != 0, 1.0)[0] == 'proved':
                        return u.arg(0)
            return a * b
        if op == '/':
            return a / b
        raise Unsupported('float op ' + op)

    def compare(self, op, a, b):
        if is_expr(a) and is_expr(b) and a.sort() != Addr and b.sort() != Addr:
            if a.sort() != b.sort():
                if a.sort() == BoolSort():
                    a = self.coerce(a, IntSort())
                if b.sort() == BoolSort():
                    b = self.coerce(b, IntSort())
                if a.sort() == RealSort() or b.sort() == RealSort():
                    a, b = self.coerce(a, RealSort()), self.coerce(b, RealSort())
            if op == '==':
                return a == b
            if op == '!=':
                return a != b
            if a.sort() == BoolSort():
                a, b = self.coerce(a, IntSort()), self.coerce(b, IntSort())
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        if isinstance(a, Rec) and a.t == 'iter' or isinstance(b, Rec) and b.t == 'iter':
            if isinstance(a, NullPtr) or isinstance(b, NullPtr):
                return BoolVal(op == '!=')
            return self.compare(op, a.f['i'], b.f['i'])
        r = self.ptr_eq(a, b)
        if op == '==':
            return r
        if op == '!=':
            return Not(r)
        raise Unsupported('pointer comparison %s' % op)

    def ptr_eq(self, a, b):
        if isinstance(a, Choice):
            return simplify(Or(*[And(c, self.ptr_eq(x, b)) for c, x in a.alts]))
        if isinstance(b, Choice):
            return self.ptr_eq(b, a)
        if is_expr(a) and is_expr(b):
            return a == b
        if isinstance(a, NullPtr) and isinstance(b, NullPtr):
            return BoolVal(True)
        if is_expr(a) and isinstance(b, NullPtr):
            return a == ANULL
        if is_expr(b) and isinstance(a, NullPtr):
            return b == ANULL
        if isinstance(a, NullPtr) or isinstance(b, NullPtr):
            return BoolVal(False)
        if isinstance(a, PtrLV) and isinstance(b, PtrLV):
            if isinstance(a.lv, LV) and isinstance(b.lv, LV):
                x, y = strip_bases(a.lv), strip_bases(b.lv)
                if x.same(y):
                    return BoolVal(True)
                if isinstance(x.root, tuple) or isinstance(y.root, tuple):
                    if isinstance(x.root, tuple) and isinstance(y.root, tuple) and not x.path and not y.path:
                        return x.root[2] == y.root[2]
                    raise Unsupported('pointer equality')
                if x.root != y.root:
                    return BoolVal(False)
                if any(k == 'i' for k, _ in x.path + y.path):
                    if len(x.path) == len(y.path) and all(p[0] == q[0] for p, q in zip(x.path, y.path)):
                        return And(*[p[1] == q[1] if p[0] == 'i' else BoolVal(p[1] == q[1]) for p, q in zip(x.path, y.path)])
                return BoolVal(False)
        if isinstance(a, PtrLV) and isinstance(a.lv, LVChoice):
            return simplify(Or(*[And(c, self.ptr_eq(PtrLV(l), b)) for c, l in a.lv.alts]))
        if isinstance(b, PtrLV) and isinstance(b.lv, LVChoice):
            return self.ptr_eq(b, a)
        raise Unsupported('pointer equality %r %r' % (a, b))

    def e_bin(self, e):
        op = e['op']
        if op == '=':
            # right operand first (C++17)
            v = self.rv(e['b'])
            if self.st.dead:
                return None
            lv = self.ev(e['a'])
            if self.st.dead:
                return None
            self.assign(lv, v)
            return lv
        if op == ',':
            self.ev(e['a'])
            return self.ev(e['b'])
        if op in ('&&', '||'):
            a = self.truth(self.rv(e['a']))
            if self.st.dead:
                return None
            if op == '&&':
                return self.branch(a, lambda: self.truth(self.rv(e['b'])), lambda: BoolVal(False))
            return self.branch(a, lambda: BoolVal(True), lambda: self.truth(self.rv(e['b'])))
        a = self.rv(e['a'])
        b = self.rv(e['b'])
        if self.st.dead:
            return None
        if op in ('<', '<=', '>', '>=', '==', '!='):
            return self.compare(op, a, b)
        if isinstance(a, Rec) and a.t == 'iter' or isinstance(b, Rec) and b.t == 'iter':
            return self.stl.iter_arith(op, a, b)
        return self.arith(op, a, b, e['t'])

    def assign(self, lv, v):
        cur = self.load(lv)
        if is_expr(cur) and cur.sort() == Addr and isinstance(v, NullPtr):
            v = ANULL
        if is_expr(cur) and is_expr(v) and cur.sort() != v.sort():
            v = self.coerce(v, cur.sort())
        self.store(lv, v)

    def e_cas(self, e):
        b = self.rv(e['b'])
        if self.st.dead:
            return None
        lv = self.ev(e['a'])
        if self.st.dead:
            return None
        a = self.ranged(self.rd(lv), e['a']['t'])
        op = e['op'][:-1]
        if isinstance(a, Rec) and a.t == 'iter':
            r = self.stl.iter_arith(op, a, b)
        else:
            ck = self.p.k(e['ct'])
            at = e['a']['t']
            if ck == 'flt' and self.p.k(at) == 'int':
                r = self.farith(op, self.to_real(a), b)
                r = mk_ite(r >= 0, ToInt(r), -ToInt(-r))
            else:
                a2 = self.int_cast(a, at, e['ct']) if ck == 'int' else a
                r = self.arith(op, a2, b, e['ct'])
                if ck == 'int':
                    r = self.int_cast(r, e['ct'], at)
        if self.st.dead:
            return None
        self.assign(lv, r)
        return lv

    def e_un(self, e):
        op = e['op']
        if op == '&':
            x = self.ev(e['e'])
            if self.st.dead:
                return None
            if isinstance(x, FnVal):
                return x
            if isinstance(x, LV) and isinstance(x.root, tuple) and not x.path:
                return x.root[2]
            return PtrLV(x)
        if op == '*':
            v = self.rv(e['e'])
            if self.st.dead:
                return None
            if isinstance(v, FnVal):
                return v
            return self.deref(v, e['t'])
        if op in ('++', '--'):
            lv = self.ev(e['e'])
            if self.st.dead:
                return None
            old = self.ranged(self.rd(lv), e['e']['t'])
            if isinstance(old, Rec) and old.t == 'iter':
                new = self.stl.iter_arith('+' if op == '++' else '-', old, IntVal(1))
            elif is_expr(old) and old.sort() == RealSort():
                new = old + 1 if op == '++' else old - 1
            else:
                new = self.arith('+' if op == '++' else '-', old, IntVal(1), e['e']['t'])
            if self.st.dead:
                return None
            self.store(lv, new)
            return old if e.get('post') else lv
        v = self.rv(e['e'])
        if self.st.dead:
            return None
        if op == '!':
            return simplify(Not(self.truth(v)))
        if op == '-':
            if v.sort() == RealSort():
                return -v
            return self.arith('-', IntVal(0), v, e['t'])
        if op == '+':
            return v
        if op == '~':
            lo, hi = self.int_range(e['t'])
            return hi - v if lo == 0 else -1 - v
        raise Unsupported('unary ' + op)

    def e_idx(self, e):
        a = self.ev(e['a'])
        i = self.rv(e['b'])
        if self.st.dead:
            return None
        a = self.rd(a) if isinstance(a, (LV, LVChoice)) else a
        if isinstance(a, Rec) and a.t == 'iter':
            return self.stl.iter_deref(self.stl.iter_arith('+', a, i))
        raise Unsupported('array subscript of %r' % (a,))

    def e_ctor(self, e):
        return self.construct(e)

    def e_ilist(self, e):
        t = e['t']
        k = self.p.k(t)
        if k == 'rec' and self.p.is_keep(t):
            v = self.zero(t)
            r = self.p.rec(t)
            names = ['@%d' % b for b in r.get('bases', [])] + [f['name'] for f in r['fields']]
            lv = self.root(v)
            for n, a in zip(names, e['a']):
                ft = int(n[1:]) if n.startswith('@') else [x for x in r['fields'] if x['name'] == n][0]['t']
                if self.p.k(ft) == 'ref':
                    self.store(lv.f(n), PtrLV(self.as_lv(self.ev(a))))
                else:
                    self.init_into(lv.f(n), ft, a)
                if self.st.dead:
                    return None
            return self.load(lv)
        if k in ('rec', 'arr'):
            n = self.p.recname(t) if k == 'rec' else 'arr'
            if n == 'std::array':
                # { {a,b,..} } or {a,b}
                els = e['a']
                if len(els) == 1 and els[0]['k'] == 'ilist' and self.p.k(els[0]['t']) == 'arr':
                    els = els[0]['a']
                return self.make_array(self.p.targ(t), self.p.targ_int(t), els)
            if n == 'arr':
                return self.make_array(self.p.T(t)['to'], self.p.T(t)['n'], e['a'])
            if not e['a']:
                return self.zero(t)
            if n in ('std::pair',):
                return Rec(t, {'first': self.rv(e['a'][0]), 'second': self.rv(e['a'][1])})
            raise Unsupported('init list of %s' % n)
        if e['a']:
            return self.rv(e['a'][0])
        return self.zero(t)

    def make_array(self, et, n, els):
        vals = [self.rv(a) for a in els]
        if self.st.dead:
            return None
        while len(vals) < n:
            vals.append(self.zero(et))
        return self.array_of(et, vals)

    def array_of(self, et, vals):
        if not self.liftable(et) or any(has_py(v) for v in vals):
            return PyList(vals)
        data = map_leaves(lambda l: K(IntSort(), l), self.zero(et))
        for i, v in enumerate(vals):
            data = self.zip_store(data, IntVal(i), v)
        return Vec(et, IntVal(len(vals)), data)

    def e_stdil(self, e):
        return self.rd(self.ev(e['e']))

    def e_lambda(self, e):
        r = self.p.recs[e['rec']]
        f = {}
        for n, (c, ie) in enumerate(zip(r.get('caps', []), e['ci'])):
            if c.get('this'):
                f['c%d' % n] = PtrLV(self.frames[-1].this)
            elif c.get('byref'):
                f['c%d' % n] = PtrLV(self.as_lv(self.ev(ie)))
            else:
                f['c%d' % n] = self.rv(ie)
            if self.st.dead:
                return None
        return Rec(r['t'], f)

    def e_new(self, e):
        t = e['at']
        if e.get('arr'):
            raise Unsupported('array new')
        if self.liftable(t) and not self.p_poly(t):
            tk = self.p.T(t)['s']
            self.heap(tk, t)
            a = self.site()
            self.st.store[('alive', tk)] = mk_store(self.st.store[('alive', tk)], a, BoolVal(True))
            lv = LV(('h', tk, a))
            v = self.rv(e['e']) if e.get('e') else self.default(t)
            if self.st.dead:
                return None
            self.store(lv, v)
            return a
        lv = self.root(self.default(t))
        if self.frames:
            self.frames[-1].roots.remove(lv.root)
        if e.get('e'):
            self.init_into(lv, t, e['e'])
        return PtrLV(lv)

    def p_poly(self, t):
        return self.p.is_keep(t) and (self.p.rec(t).get('poly'))

    def e_del(self, e):
        p = self.rv(e['e'])
        if self.st.dead:
            return None
        if isinstance(p, NullPtr):
            return None
        if is_expr(p) and p.sort() == Addr:
            t = self.p.T(e['e']['t'])['to']
            tk = self.p.T(t)['s']
            self.heap(tk, t)
            al = self.st.store[('alive', tk)]
            self.oblige('safety', Or(p == ANULL, sel(al, p)), 'delete: object is alive (no double delete)')
            if self.st.dead:
                return None
            p2 = simplify_under(p, self.st.pc)
            self.st.store[('alive', tk)] = mk_store(al, p2, BoolVal(False))
            return None
        if isinstance(p, PtrLV):
            return None
        raise Unsupported('delete of %r' % (p,))

    def e_throw(self, e):
        if e['e'] is None:
            self.throw('rethrow')
            return None
        self.throw(e['e']['t'])
        return None

    # calls
    def dyn_target(self, fid, lv):
        """resolve a virtual call on the object at lv: (function, adjusted this)"""
        base = lv
        while base.path and base.path[-1][0] == 'f' and base.path[-1][1].startswith('@'):
            base = LV(base.root, base.path[:-1])
        obj = self.load(base)
        if not isinstance(obj, Rec):
            return fid, lv
        # search most derived first
        def overrides(f, target):
            if f == target:
                return True
            return any(overrides(o, target) for o in self.p.funcs[f].get('over', []))

        def find(t, l):
            r = self.p.rec(t)
            for m in r.get('virt', []):
                if overrides(m['fn'], fid):
                    return m['fn'], l
            for b in r.get('bases', []):
                if self.p.is_keep(b):
                    x = find(b, l.f('@%d' % b))
                    if x:
                        return x
            return None
        # destructor etc.
        x = find(obj.t, base)
        return x if x else (fid, lv)

    def e_mcall(self, e):
        f = self.p.funcs[e['fn']] if 'fn' in e else None
        if f is None:
            raise Unsupported('member call without target')
        o = self.ev(e['obj'])
        if self.st.dead:
            return None
        if e.get('objptr'):
            o = self.deref(self.rd(o), self.p.T(e['obj']['t']).get('to'))
            if self.st.dead:
                return None
        args = [self.ev(a) for a in e['args']]
        if self.st.dead:
            return None
        return self.invoke(e['fn'], o, args, e.get('virt'), e)

    def invoke(self, fid, o, args, virt, e):
        f = self.p.funcs[fid]
        if not self.has_body(f) and not (virt and f.get('keep')):
            if f.get('keep') and f.get('defaulted') and f.get('assign'):
                lv = self.as_lv(o)
                self.assign_val(lv, self.as_lv(args[0]), self.p.recs[f['rec']]['t'], f['assign'] == 'move')
                return lv
            return self.stl.call(f, self.as_lv(o) if not isinstance(o, FnVal) else o, args, e)
        if f.get('defaulted') and f.get('assign'):
            lv = self.as_lv(o)
            self.assign_val(lv, self.as_lv(args[0]), self.p.recs[f['rec']]['t'], f['assign'] == 'move')
            return lv
        lv = self.as_lv(o)
        if isinstance(lv, LVChoice):
            alts = lv.alts

            def go(n):
                c, l = alts[n]
                if n == len(alts) - 1:
                    return self.invoke(fid, l, args, virt, e)
                return self.branch(c, lambda: self.invoke(fid, l, args, virt, e), lambda: go(n + 1))
            return go(0)
        if virt:
            fid, lv = self.dyn_target(fid, lv)
            f = self.p.funcs[fid]
        h = self.intercept(f, lv, args, e)
        if h is not None:
            return h[0]
        return self.call_fn(fid, lv, args)

    def has_body(self, f):
        return 'body' in f

    def intercept(self, f, o, args, e):
        if f['cq'] == 'std::clamp':
            return (self.stl.h_clamp(f, o, args, e),)
        c = self.contracts.get(f['cq'])
        if c is not None:
            return c(self, f, o, args, e)
        return None

    def e_ocall(self, e):
        args = None
        f = self.p.funcs[e['fn']] if 'fn' in e else None
        if f is None:
            raise Unsupported('operator call without target')
        if e['op'] in ('=', '+=', '-=', '*=', '/=') and len(e['args']) == 2:
            b = self.ev(e['args'][1])
            if self.st.dead:
                return None
            a = self.ev(e['args'][0])
            args = [a, b]
        else:
            args = [self.ev(a) for a in e['args']]
        if self.st.dead:
            return None
        if e.get('mem'):
            return self.invoke(e['fn'], args[0], args[1:], False, e)
        if self.has_body(f):
            h = self.intercept(f, None, args, e)
            if h is not None:
                return h[0]
            return self.call_fn(e['fn'], None, args)
        return self.stl.call(f, None, args, e)

    def e_call(self, e):
        if 'fn' in e:
            f = self.p.funcs[e['fn']]
            if f['cq'].startswith('vc::'):
                return self.stl.intrinsic(f, e)
            args = [self.ev(a) for a in e['args']]
            if self.st.dead:
                return None
            if self.has_body(f):
                h = self.intercept(f, None, args, e)
                if h is not None:
                    return h[0]
                return self.call_fn(e['fn'], None, args)
            return self.stl.call(f, None, args, e)
        ce = self.rv(e['ce'])
        args = [self.ev(a) for a in e['args']]
        if self.st.dead:
            return None
        return self.call_value(ce, args)

    def call_value(self, c, args):
        """call a closure / function pointer / std::function value"""
        if isinstance(c, FnVal):
            if c.val is not None:
                return self.call_value(c.val, args)
            if c.lv is not None:
                return self.invoke(c.fn, c.lv, args, True, {})
            return self.call_fn(c.fn, None, args)
        lv = None
        if isinstance(c, (LV, LVChoice)):
            lv, c = c, self.load(c)
            if isinstance(c, (FnVal, Choice)):
                return self.call_value(c, args)
        if isinstance(c, Choice):
            def go(n):
                cond, x = c.alts[n]
                if n == len(c.alts) - 1:
                    return self.call_value(x, args)
                return self.branch(cond, lambda: self.call_value(x, args), lambda: go(n + 1))
            return go(0)
        if isinstance(c, NullPtr):
            self.oblige('safety', BoolVal(False), 'call of an empty function object')
            return None
        if isinstance(c, PtrLV):
            return self.call_value(c.lv, args)
        if isinstance(c, Rec):
            fid = self.find_callop(c.t, args)
            if lv is None:
                lv = self.root(c)
            return self.call_fn(fid, lv, args)
        raise Unsupported('call of %r' % (c,))

    def find_callop(self, t, args):
        rid = self.p.T(t)['rec']
        c = [f for f in self.p.funcs.values() if f.get('rec') == rid and f['name'] == 'operator()' and 'body' in f]
        if len(c) == 1:
            return c[0]['id']
        for f in c:
            if len(f['params']) == len(args):
                ok = True
                for prm, a in zip(f['params'], args):
                    v = self.rd(a)
                    s = self.sort_of(self.p.noref(prm['t']))
                    if s is not None and is_expr(v) and v.sort() != s:
                        ok = False
                    if isinstance(v, Rec) and v.t != self.p.noref(prm['t']):
                        ok = False
                if ok:
                    return f['id']
        raise Unsupported('cannot resolve call operator')


def has_py(v):
    return any(isinstance(x, Py) for _, x in leaves(v))


def zero_of(s):
    if s == IntSort():
        return IntVal(0)
    if s == RealSort():
        return RealVal(0)
    if s == BoolSort():
        return BoolVal(False)
    if s == Addr:
        return ANULL
    if s.kind() == Z3_ARRAY_SORT:
        return K(s.domain(), zero_of(s.range()))
    raise Unsupported('zero of %s' % s)


def leaf_const(c, lifts):
    for s in reversed(lifts):
        c = K(s, c)
    return c


def is_neg(a, b):
    if is_not(b) and b.arg(0).eq(a):
        return True
    if is_not(a) and a.arg(0).eq(b):
        return True
    return is_false(simplify(And(a, b))) and is_true(simplify(Or(a, b)))


def mk_and(l):
    l = list(l)
    if not l:
        return BoolVal(True)
    if len(l) == 1:
        return l[0]
    return And(*l)


def strip_bases(l):
    p = l.path
    while p and p[-1][0] == 'f' and p[-1][1].startswith('@'):
        p = p[:-1]
    return LV(l.root, p)


def simplify_under(p, pc):
    """resolve ite's in p decided by a conjunct of pc"""
    sub = []
    for c in pc:
        if is_not(c):
            sub.append((c.arg(0), BoolVal(False)))
        else:
            sub.append((c, BoolVal(True)))
    try:
        r = simplify(substitute(p, *sub)) if sub else p
        if is_ite(r) and (r.arg(1).eq(ANULL) or r.arg(2).eq(ANULL)):
            nn = r.arg(2) if r.arg(1).eq(ANULL) else r.arg(1)
            for c in pc:
                s = simplify(c == (p != ANULL))
                if is_true(s):
                    return nn
        return r
    except Exception:
        return p


STD_EXC = {
    'std::out_of_range': ('std::out_of_range', 'std::logic_error', 'std::exception'),
    'std::bad_optional_access': ('std::bad_optional_access', 'std::exception'),
    'std::bad_variant_access': ('std::bad_variant_access', 'std::exception'),
    'std::filesystem::filesystem_error': ('std::filesystem::filesystem_error', 'std::system_error', 'std::runtime_error', 'std::exception'),
}
