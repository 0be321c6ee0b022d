"""Trusted contracts: the standard library (containers, smart pointers, <cmath>, <algorithm>, <random>) and the meaning of
the vc:: specification vocabulary."""
from exec import *

POW = Function('pow', RealSort(), RealSort(), RealSort())
SQRT = Function('sqrt', RealSort(), RealSort())
CABS = Function('cabs', RealSort(), RealSort(), RealSort())
EXP = Function('exp', RealSort(), RealSort())
LOG = Function('log', RealSort(), RealSort())
COS = Function('cos', RealSort(), RealSort())
SIN = Function('sin', RealSort(), RealSort())
FIN = Function('isfinite', RealSort(), BoolSort())
NANP = Function('isnan', RealSort(), BoolSort())
CAT = Function('str.concat', IntSort(), IntSort(), IntSort())
TOSTRI = Function('str.of_int', IntSort(), IntSort())
TOSTRR = Function('str.of_real', RealSort(), IntSort())
STRLEN = Function('str.len', IntSort(), IntSort())


class Stl:
    def __init__(self, x):
        self.x = x
        self.PI = Real('PI')
        self.argext = {}
        self.nexts = {}
        x.pr.fact((), And(self.PI > RealVal('3.14159265'), self.PI < RealVal('3.14159266')))
        self.h = {}
        for n in dir(self):
            if n.startswith('h_'):
                for key in getattr(self, n).__doc__.split():
                    self.h[key] = getattr(self, n)

    # ---- dispatch ------------------------------------------------------------------------------------------------
    def call(self, f, o, args, e):
        x = self.x
        q = f['cq'].replace('operator ', 'operator_') if 'operator ' in f['cq'] else f['cq']
        h = x.contracts.get(q)
        if h is not None:
            r = h(x, f, o, args, e)
            if r is not None:
                return r[0]
        if q in self.h:
            x.trusted.add(q)
            return self.h[q](f, o, args, e)
        # inherited members: try bases' spelling
        name = f['name']
        rec = x.p.recs[f['rec']]['name'] if f.get('rec') else ''
        alt = self.alias(strip_targs(rec), name)
        if alt and alt in self.h:
            x.trusted.add(alt)
            return self.h[alt](f, o, args, e)
        if self.is_stream(f, args, o):
            x.trusted.add('std::ostream')
            if f['name'] == 'operator<<' or f['name'] == 'operator>>':
                return o if o is not None else args[0]
            return self.opaque_ret(f, o)
        raise Unsupported('no contract for %s at %s' % (q, x.loc()))

    ALIAS = {
        '__gnu_cxx::__normal_iterator': 'ITER', 'std::_Vector_base': 'std::vector', 'std::_Optional_base': 'std::optional',
        'std::_Bit_iterator': 'ITER', 'std::_Bit_const_iterator': 'ITER', 'std::_Bit_iterator_base': 'ITER',
        'std::__shared_ptr': 'std::shared_ptr', 'std::__shared_ptr_access': 'std::shared_ptr', 'std::reverse_iterator': 'RITER',
    }

    def alias(self, rec, name):
        if rec in self.ALIAS:
            return self.ALIAS[rec] + '::' + name
        if not rec and name.startswith('operator'):
            return 'ITER::' + name
        return None

    def is_stream(self, f, args, o):
        q = f['cq']
        if any(q.startswith(s) for s in ('std::basic_ostream', 'std::basic_istream', 'std::basic_ios', 'std::ios_base', 'std::basic_ostringstream', 'std::basic_stringstream', 'std::basic_istringstream', 'std::basic_ofstream', 'std::basic_ifstream', 'std::set', 'std::scientific', 'std::fixed', 'std::endl', 'std::flush')):
            return True
        if f['name'] in ('operator<<', 'operator>>') and args:
            t = f['params'][0]['t'] if f['params'] else None
            return t is not None and 'stream' in self.x.p.T(self.x.p.noref(t)).get('s', '')
        return False

    def opaque_ret(self, f, o):
        t = f['ret']
        p = self.x.p
        if p.k(t) == 'void':
            return None
        if p.k(t) == 'ref':
            return o if o is not None else self.x.root(self.x.fresh(p.noref(t), 'ext'))
        return self.x.fresh(t, 'ext')

    def build(self, n, t, leaf, lifts, path):
        p = self.x.p
        if n == '__gnu_cxx::__normal_iterator' or n in ('std::_Bit_iterator', 'std::_Bit_const_iterator'):
            return Rec('iter', {'c': NullPtr(), 'i': leaf(IntSort(), None, path + '.i')})
        if n == 'std::uniform_real_distribution':
            return Rec(t, {'a': leaf(RealSort(), None, path), 'b': leaf(RealSort(), None, path)})
        if n in ('std::uniform_int_distribution',):
            return Rec(t, {'a': leaf(IntSort(), None, path), 'b': leaf(IntSort(), None, path)})
        return None

    def global_value(self, name, t=None):
        n = strip_targs(name)
        if n == 'std::nullopt':
            return Opaque('nullopt')
        if n.endswith('numbers::pi') or n.endswith('pi_v'):
            return self.PI
        return None

    def field(self, b, e):
        """public data member of a std record (pair::first, ...)"""
        x = self.x
        if e['f'] in ('first', 'second'):
            if isinstance(b, (LV, LVChoice)):
                return x.lv_sub(b, ('f', e['f']))
            return b.f[e['f']]
        if e['f'] == '_M_elems' and isinstance(b, (LV, LVChoice)):
            return b
        raise Unsupported('field %s' % e['f'])

    # ---- constructors --------------------------------------------------------------------------------------------
    def construct(self, t, f, args, e):
        x = self.x
        p = x.p
        n = p.recname(t)
        kind = f.get('ctor')
        prm = [p.noref(q['t']) for q in f['params']]
        if kind in ('copy', 'move') and n not in ('std::function',):
            return x.copy_val(args[0], t, kind == 'move')
        if n in ('std::vector', 'std::deque'):
            x.trusted.add('std::vector')
            return self.vec_ctor(t, f, args, prm)
        if n == 'std::basic_string':
            x.trusted.add('std::string')
            if not args or kind == 'default':
                return str_code('')
            v = x.rd(args[0])
            if is_expr(v) and v.sort() == IntSort() and len(args) <= 2 and (len(prm) < 2 or p.k(prm[1]) != 'int'):
                return v
            return x.fresh(t, 'str')
        if n == 'std::optional':
            x.trusted.add('std::optional')
            if not args:
                return Rec(t, {'has': BoolVal(False), 'val': x.zero(p.targ(t))})
            v = x.rd(args[0])
            if isinstance(v, Opaque):
                return Rec(t, {'has': BoolVal(False), 'val': x.zero(p.targ(t))})
            return Rec(t, {'has': BoolVal(True), 'val': self.conv(args[0], p.targ(t), f)})
        if n == 'std::variant':
            x.trusted.add('std::variant')
            if not args:
                return x.zero(t)
            return self.variant_set(x.zero(t), t, args[0])
        if n in ('std::unique_ptr', 'std::shared_ptr'):
            x.trusted.add('std::unique_ptr')
            if not args:
                return NullPtr()
            v = x.rd(args[0])
            if isinstance(args[0], (LV, LVChoice)) and p.recname(prm[0]) in ('std::unique_ptr', 'std::shared_ptr') and n == 'std::unique_ptr':
                x.store(args[0], NullPtr())
            return self.upcast_ptr(v, p.targ(prm[0]) if p.recname(prm[0]) in ('std::unique_ptr', 'std::shared_ptr') else p.T(prm[0]).get('to'), p.targ(t))
        if n == 'std::function':
            if not args:
                return NullPtr()
            v = x.rd(args[0])
            if isinstance(v, (NullPtr, FnVal, Choice)):
                return v
            return FnVal(None, v)
        if n == 'std::complex':
            x.trusted.add('std::complex')
            a = [x.rd(q) for q in args]
            if len(a) == 1 and isinstance(a[0], Rec):
                return Rec(t, dict(a[0].f))
            re = x.coerce(a[0], RealSort()) if a else RealVal(0)
            im = x.coerce(a[1], RealSort()) if len(a) > 1 else RealVal(0)
            return Rec(t, {'re': re, 'im': im})
        if n == 'std::pair':
            if not args:
                return x.zero(t)
            if len(args) == 1:
                v = x.rd(args[0])
                return Rec(t, {'first': self.coerce_t(v.f['first'], p.targs(t)[0]), 'second': self.coerce_t(v.f['second'], p.targs(t)[1])})
            return Rec(t, {'first': self.conv(args[0], p.targs(t)[0], f), 'second': self.conv(args[1], p.targs(t)[1], f)})
        if n == 'std::tuple':
            if not args:
                return x.zero(t)
            return Rec(t, {str(i): self.conv(a, p.targs(t)[i], f) for i, a in enumerate(args)})
        if n == 'std::array':
            return x.zero(t)
        if n in ('std::uniform_real_distribution', 'std::uniform_int_distribution'):
            a = [x.rd(q) for q in args]
            if n == 'std::uniform_real_distribution':
                lo = x.coerce(a[0], RealSort()) if a else RealVal(0)
                hi = x.coerce(a[1], RealSort()) if len(a) > 1 else RealVal(1)
                x.oblige('safety', lo <= hi, 'uniform_real_distribution: a <= b')
            else:
                lo = a[0] if a else IntVal(0)
                hi = a[1] if len(a) > 1 else IntVal((1 << 31) - 1)
                x.oblige('safety', lo <= hi, 'uniform_int_distribution: a <= b')
            return Rec(t, {'a': lo, 'b': hi})
        if n == '__gnu_cxx::__normal_iterator':
            return x.rd(args[0])
        if n == 'std::initializer_list':
            return Vec(p.targ(t), IntVal(0), map_leaves(lambda l: K(IntSort(), l), x.zero(p.targ(t))))
        if n in x.contracts:
            return x.contracts[n](x, f, None, args, e)[0]
        # exceptions, streams, random engines, allocators: opaque
        return Opaque(n)

    def coerce_t(self, v, t):
        s = self.x.sort_of(t)
        if s is not None and is_expr(v) and v.sort() != s:
            return self.x.coerce(v, s)
        return v

    def conv(self, a, t, f):
        """argument a converted to an object of type t (copy or move)"""
        x = self.x
        p = x.p
        v = x.rd(a)
        if isinstance(v, Opaque) and v.tag == 'nullopt':
            return v
        if p.k(t) == 'rec' and p.is_keep(t):
            rvref = any(p.k(q['t']) == 'ref' and p.T(q['t']).get('rv') for q in f['params'])
            if isinstance(v, Rec) and v.t == t:
                return x.copy_val(a, t, move=rvref and not p.T(t).get('cst'))
            # derived to base slicing or converting constructor
            raise Unsupported('conversion to %s' % p.T(t)['s'])
        if p.k(t) == 'rec' and p.recname(t) == 'std::variant' and not (isinstance(v, Rec) and v.t == t):
            return self.variant_set(x.zero(t), t, a)
        if p.k(t) == 'rec' and p.recname(t) == 'std::optional' and not (isinstance(v, Rec) and v.t == t):
            return Rec(t, {'has': BoolVal(True), 'val': self.conv(a, p.targ(t), f)})
        if p.k(t) == 'rec' and p.recname(t) in ('std::vector', 'std::unique_ptr') and isinstance(a, (LV, LVChoice)):
            rvref = any(p.k(q['t']) == 'ref' and p.T(q['t']).get('rv') for q in f['params'])
            return x.copy_val(a, t, rvref)
        if p.k(t) == 'flt' and is_expr(v):
            return x.coerce(v, RealSort())
        return self.coerce_t(v, t)

    def upcast_ptr(self, v, frm, to):
        p = self.x.p
        if frm is None or to is None or frm == to or p.k(frm) != 'rec' or p.k(to) != 'rec':
            return v

        def path(a):
            if a == to:
                return []
            for b in p.rec(a).get('bases', []):
                r = path(b)
                if r is not None:
                    return ['@%d' % b] + r
            return None
        ps = path(frm)
        if ps is None:
            return v

        def one(q):
            if isinstance(q, PtrLV):
                lv = q.lv
                for s in ps:
                    lv = self.x.lv_sub(lv, ('f', s))
                return PtrLV(lv)
            return q
        if isinstance(v, Choice):
            return Choice([(c, one(q)) for c, q in v.alts])
        return one(v)

    def vec_ctor(self, t, f, args, prm):
        x = self.x
        p = x.p
        et = p.targ(t)
        args = [a for a, q in zip(args, prm) if not (p.k(q) == 'rec' and p.recname(q) == 'std::allocator')]
        lift = x.liftable(et)
        if not args:
            return x.zero(t)
        a0 = x.rd(args[0])
        if isinstance(a0, Vec) or isinstance(a0, PyList):  # initializer_list
            return self.conv_elems(a0, et)
        if isinstance(a0, Rec) and a0.t == 'iter':
            b = x.rd(args[1])
            return self.range_vec(a0, b, et)
        if is_expr(a0) and a0.sort() == IntSort():
            if len(args) > 1:
                v = self.coerce_t(x.rd(args[1]), et)
                if isinstance(v, NullPtr) and p.k(et) == 'ptr':
                    v = ANULL
            else:
                v = x.zero(et)
            if not lift or has_py(v):
                n = simplify(a0)
                if is_int_value(n):
                    return PyList([v] * n.as_long())
                raise Unsupported('vector of opaque elements with symbolic length')
            return Vec(et, a0, map_leaves(lambda l: K(IntSort(), l), v))
        raise Unsupported('vector constructor')

    def conv_elems(self, v, et):
        x = self.x
        if isinstance(v, Vec):
            s = x.sort_of(et)
            if s is not None and is_expr(v.data) and v.data.sort().range() != s:
                k = Int('cv!k')
                return Vec(et, v.len, Lambda([k], x.coerce(sel(v.data, k), s)))
            return Vec(et, v.len, v.data)
        return v

    def range_vec(self, a, b, et):
        x = self.x
        cont = x.load(a.f['c'].lv)
        lo, hi = a.f['i'], b.f['i']
        x.oblige('safety', And(lo >= 0, lo <= hi, hi <= cont.len), 'iterator range is valid')
        if is_int_value(simplify(lo)) and simplify(lo).as_long() == 0:
            return self.conv_elems(Vec(et, simplify(hi - lo), cont.data), et)
        k = fresh_const('rk', IntSort())
        return self.conv_elems(Vec(et, simplify(hi - lo), map_leaves(lambda l: Lambda([k], sel(l, lo + k)), cont.data)), et)

    def variant_set(self, cur, t, a):
        x = self.x
        p = x.p
        v = x.rd(a)
        ts = p.targs(t)
        idx = None
        if isinstance(v, Rec):
            for i, q in enumerate(ts):
                if q == v.t:
                    idx = i
        elif is_expr(v):
            c = [i for i, q in enumerate(ts) if x.sort_of(q) == v.sort()]
            if len(c) == 1:
                idx = c[0]
        if idx is None:
            raise Unsupported('variant alternative')
        r = cur.with_('idx', IntVal(idx))
        return r.with_('a%d' % idx, x.copy_val(a, ts[idx]) if isinstance(v, Rec) else v)

    # ---- iterators -----------------------------------------------------------------------------------------------
    def iter_deref(self, it):
        x = self.x
        c = it.f['c']
        if not isinstance(c, PtrLV):
            raise Unsupported('iterator into unknown container')
        cont = x.load(c.lv)
        n = self.length(cont)
        i = it.f['i']
        x.oblige('safety', And(i >= 0, i < n), 'iterator dereference in range')
        if x.st.dead:
            return None
        return x.lv_sub(c.lv, ('i', i))

    def length(self, c):
        if isinstance(c, Vec):
            return c.len
        if isinstance(c, PyList):
            return IntVal(len(c.items))
        if isinstance(c, Rec):
            for k, v in c.f.items():
                if k.startswith('@'):
                    return self.length(v)
        raise Unsupported('length of %r' % (c,))

    def iter_arith(self, op, a, b):
        if isinstance(a, Rec) and a.t == 'iter' and isinstance(b, Rec) and b.t == 'iter':
            if op == '-':
                return simplify(a.f['i'] - b.f['i'])
        if isinstance(b, Rec) and b.t == 'iter':
            a, b = b, a
        if op == '+':
            return a.with_('i', simplify(a.f['i'] + b))
        if op == '-':
            return a.with_('i', simplify(a.f['i'] - b))
        raise Unsupported('iterator ' + op)

    def mk_iter(self, lv, i):
        return Rec('iter', {'c': PtrLV(lv), 'i': i})

    def arr_lv(self, o):
        """location of the Vec inside an object that derives from std::array/std::vector"""
        x = self.x
        v = x.load(o)
        while isinstance(v, Rec):
            b = [k for k in v.f if k.startswith('@')]
            if not b:
                raise Unsupported('container')
            o = x.lv_sub(o, ('f', b[0]))
            v = v.f[b[0]]
        return o

    def h_iter_star(self, f, o, a, e):
        """ITER::operator* ITER::operator->"""
        it = self.x.rd(o if o is not None else a[0])
        r = self.iter_deref(it)
        return PtrLV(r) if f['name'] == 'operator->' else r

    def h_iter_inc(self, f, o, a, e):
        """ITER::operator++ ITER::operator--"""
        x = self.x
        v = x.rd(o)
        d = 1 if f['name'] == 'operator++' else -1
        x.store(o, v.with_('i', simplify(v.f['i'] + d)))
        return v if a else o

    def h_iter_plus(self, f, o, a, e):
        """ITER::operator+ ITER::operator- __gnu_cxx::operator- __gnu_cxx::operator+ std::operator-it"""
        x = self.x
        l = ([o] if o is not None else []) + list(a)
        l = [x.rd(q) for q in l]
        return self.iter_arith(f['name'][8:], l[0], l[1])

    def h_iter_pluseq(self, f, o, a, e):
        """ITER::operator+= ITER::operator-="""
        x = self.x
        x.store(o, self.iter_arith(f['name'][8], x.rd(o), x.rd(a[0])))
        return o

    def h_iter_idx(self, f, o, a, e):
        """ITER::operator[]"""
        return self.iter_deref(self.iter_arith('+', self.x.rd(o), self.x.rd(a[0])))

    def h_iter_cmp(self, f, o, a, e):
        """ITER::operator== ITER::operator!= ITER::operator< ITER::operator> ITER::operator<= ITER::operator>= __gnu_cxx::operator== __gnu_cxx::operator!= __gnu_cxx::operator<"""
        x = self.x
        l = [x.rd(q) for q in (([o] if o is not None else []) + list(a))]
        return x.compare(f['name'][8:], l[0], l[1])

    def h_distance(self, f, o, a, e):
        """std::distance"""
        return self.iter_arith('-', self.x.rd(a[1]), self.x.rd(a[0]))

    def h_next(self, f, o, a, e):
        """std::next std::prev"""
        n = self.x.rd(a[1]) if len(a) > 1 else IntVal(1)
        return self.iter_arith('+' if f['name'] == 'next' else '-', self.x.rd(a[0]), n)

    # ---- vector / array ------------------------------------------------------------------------------------------
    def h_size(self, f, o, a, e):
        """std::vector::size std::array::size std::initializer_list::size std::size std::deque::size"""
        x = self.x
        return self.length(x.rd(o if o is not None else a[0]))

    def h_empty(self, f, o, a, e):
        """std::vector::empty std::array::empty std::deque::empty"""
        return self.length(self.x.rd(o)) == 0

    def h_index(self, f, o, a, e):
        """std::vector::operator[] std::array::operator[] std::deque::operator[]"""
        x = self.x
        o = self.arr_lv(o)
        i = x.rd(a[0])
        x.oblige('safety', And(i >= 0, i < self.length(x.load(o))), 'index within bounds')
        if x.st.dead:
            return None
        return x.lv_sub(o, ('i', i))

    def h_at(self, f, o, a, e):
        """std::vector::at std::array::at"""
        x = self.x
        o = self.arr_lv(o)
        i = x.rd(a[0])
        x.throw_if(Not(i < self.length(x.load(o))), 'std::out_of_range')
        if x.st.dead:
            return None
        return x.lv_sub(o, ('i', i))

    def h_front(self, f, o, a, e):
        """std::vector::front std::array::front std::deque::front"""
        x = self.x
        o = self.arr_lv(o)
        x.oblige('safety', self.length(x.load(o)) > 0, 'front() of a non-empty container')
        return None if x.st.dead else x.lv_sub(o, ('i', IntVal(0)))

    def h_back(self, f, o, a, e):
        """std::vector::back std::array::back std::deque::back"""
        x = self.x
        o = self.arr_lv(o)
        n = self.length(x.load(o))
        x.oblige('safety', n > 0, 'back() of a non-empty container')
        return None if x.st.dead else x.lv_sub(o, ('i', simplify(n - 1)))

    def h_push_back(self, f, o, a, e):
        """std::vector::push_back std::vector::emplace_back std::deque::push_back"""
        x = self.x
        v = x.load(o)
        et = x.p.targ(x.p.recs[f['rec']]['t'])
        if f['name'] == 'emplace_back' and x.p.is_keep(et) and not (len(a) == 1 and isinstance(x.rd(a[0]), Rec) and x.rd(a[0]).t == et):
            raise Unsupported('emplace_back constructing %s' % x.p.T(et)['s'])
        if f['name'] == 'emplace_back' and x.p.k(et) == 'rec' and not x.p.is_keep(et) and len(a) != 1:
            new = self.construct_std(et, a, f)
        else:
            new = self.conv(a[0], et, f)
        if x.st.dead:
            return None
        if isinstance(v, PyList):
            x.store(o, PyList(v.items + (new,)))
            return None
        if isinstance(new, NullPtr):
            new = ANULL
        x.store(o, Vec(v.et, simplify(v.len + 1), x.zip_store(v.data, v.len, new)))
        return x.lv_sub(o, ('i', v.len)) if x.p.k(f['ret']) == 'ref' else None

    def construct_std(self, t, args, f):
        n = self.x.p.recname(t)
        if n == 'std::pair':
            return Rec(t, {'first': self.conv(args[0], self.x.p.targs(t)[0], f), 'second': self.conv(args[1], self.x.p.targs(t)[1], f)})
        if n == 'std::complex':
            return Rec(t, {'re': self.x.coerce(self.x.rd(args[0]), RealSort()), 'im': self.x.coerce(self.x.rd(args[1]), RealSort())})
        if n == 'std::vector':
            return self.vec_ctor(t, f, args, [q['t'] for q in f['params']])
        raise Unsupported('emplace of %s' % n)

    def h_pop_back(self, f, o, a, e):
        """std::vector::pop_back std::deque::pop_back"""
        x = self.x
        v = x.load(o)
        x.oblige('safety', v.len > 0, 'pop_back() of a non-empty vector')
        if not x.st.dead:
            x.store(o, Vec(v.et, simplify(v.len - 1), v.data))

    def h_reserve(self, f, o, a, e):
        """std::vector::reserve std::vector::shrink_to_fit"""
        return None

    def h_clear(self, f, o, a, e):
        """std::vector::clear std::deque::clear"""
        x = self.x
        v = x.load(o)
        x.store(o, PyList([]) if isinstance(v, PyList) else Vec(v.et, IntVal(0), v.data))

    def h_resize(self, f, o, a, e):
        """std::vector::resize"""
        x = self.x
        v = x.load(o)
        n = x.rd(a[0])
        fill = self.coerce_t(x.rd(a[1]), v.et) if len(a) > 1 else x.zero(v.et)
        k = fresh_const('rs', IntSort())
        data = self.zip2(lambda l, z: Lambda([k], mk_ite(k < v.len, sel(l, k), z)), v.data, fill)
        x.store(o, Vec(v.et, n, data))

    def zip2(self, fn, a, b):
        if is_expr(a):
            return fn(a, b)
        if isinstance(a, Rec):
            return Rec(a.t, {k: self.zip2(fn, a.f[k], b.f[k]) for k in a.f})
        return Vec(a.et, self.zip2(fn, a.len, b.len), self.zip2(fn, a.data, b.data))

    def h_assign(self, f, o, a, e):
        """std::vector::assign"""
        x = self.x
        v = x.load(o)
        a0 = x.rd(a[0])
        if isinstance(a0, Rec) and a0.t == 'iter':
            x.store(o, self.range_vec(a0, x.rd(a[1]), v.et))
            return
        if isinstance(a0, Vec):
            x.store(o, self.conv_elems(a0, v.et))
            return
        val = self.coerce_t(x.rd(a[1]), v.et)
        x.store(o, Vec(v.et, a0, map_leaves(lambda l: K(IntSort(), l), val)))

    def h_begin(self, f, o, a, e):
        """std::vector::begin std::vector::cbegin std::array::begin std::array::cbegin std::initializer_list::begin std::begin std::cbegin std::vector::data std::array::data"""
        return self.mk_iter(self.arr_lv(o if o is not None else a[0]), IntVal(0))

    def h_end(self, f, o, a, e):
        """std::vector::end std::vector::cend std::array::end std::array::cend std::initializer_list::end std::end std::cend"""
        x = self.x
        o = self.arr_lv(o if o is not None else a[0])
        return self.mk_iter(o, self.length(x.load(o)))

    def h_vec_assign_op(self, f, o, a, e):
        """std::vector::operator= std::deque::operator= std::array::operator= std::basic_string::operator= std::complex::operator= std::pair::operator= std::function::operator= std::tuple::operator="""
        x = self.x
        t = x.p.recs[f['rec']]['t']
        n = x.p.recname(t)
        move = bool(f['params']) and x.p.T(f['params'][0]['t']).get('rv')
        v = x.rd(a[0])
        if n == 'std::complex' and is_expr(v):
            v = Rec(t, {'re': x.coerce(v, RealSort()), 'im': RealVal(0)})
        elif n in ('std::vector', 'std::deque') and isinstance(v, Vec):
            if not (isinstance(a[0], LV) and isinstance(o, LV) and a[0].same(o)):
                v = x.copy_val(a[0], t, move)
            v = self.conv_elems(v, x.p.targ(t))
        elif n == 'std::function' and isinstance(v, Rec):
            v = FnVal(None, v)
        x.store(o, v)
        return o

    def h_vec_swap(self, f, o, a, e):
        """std::vector::swap std::swap"""
        x = self.x
        if o is None:
            o, b = a[0], a[1]
        else:
            b = a[0]
        v, w = x.load(o), x.load(b)
        x.store(o, w)
        x.store(b, v)

    def deep_eq(self, v, w):
        x = self.x
        if is_expr(v):
            return v == w
        if isinstance(v, Rec):
            return And(*[self.deep_eq(v.f[k], w.f[k]) for k in v.f]) if v.f else BoolVal(True)
        if isinstance(v, Vec):
            k = fresh_const('q', IntSort())
            el = map_leaves(lambda l: sel(l, k), v.data)
            er = map_leaves(lambda l: sel(l, k), w.data)
            if is_int_value(simplify(v.len)) and is_int_value(simplify(w.len)) and simplify(v.len).as_long() <= 8:
                if simplify(v.len).as_long() != simplify(w.len).as_long():
                    return BoolVal(False)
                cs = []
                for i in range(simplify(v.len).as_long()):
                    cs.append(self.deep_eq(map_leaves(lambda l: sel(l, IntVal(i)), v.data), map_leaves(lambda l: sel(l, IntVal(i)), w.data)))
                return And(*cs) if cs else BoolVal(True)
            return And(v.len == w.len, ForAll([k], Implies(And(k >= 0, k < v.len), self.deep_eq(el, er))))
        raise Unsupported('comparison of %r' % (v,))

    def h_eqop(self, f, o, a, e):
        """std::vector::operator== std::operator== std::operator!= std::array::operator== std::optional::operator=="""
        x = self.x
        l = [x.rd(q) for q in (([o] if o is not None else []) + list(a))]
        neg = f['name'].endswith('!=')
        v, w = l[0], l[1]
        t0 = x.p.noref(f['params'][0]['t']) if f['params'] else None
        if isinstance(v, (PtrLV, NullPtr, Choice)) or isinstance(w, (PtrLV, NullPtr, Choice)):
            r = x.ptr_eq(v, w)
        elif isinstance(v, Rec) and v.t == 'iter':
            r = x.compare('==', v, w)
        elif isinstance(v, Rec) and x.p.k(v.t) == 'rec' and x.p.recname(v.t) == 'std::complex' or isinstance(w, Rec) and x.p.k(w.t) == 'rec' and x.p.recname(w.t) == 'std::complex':
            v, w = self.cplx(v), self.cplx(w)
            r = And(v[0] == w[0], v[1] == w[1])
        elif isinstance(v, Rec) and x.p.recname(v.t) == 'std::optional':
            if isinstance(w, Opaque):
                r = Not(v.f['has'])
            elif isinstance(w, Rec) and w.t == v.t:
                r = And(v.f['has'] == w.f['has'], Implies(v.f['has'], self.deep_eq(v.f['val'], w.f['val'])))
            else:
                r = And(v.f['has'], self.deep_eq(v.f['val'], w))
        else:
            while isinstance(v, Rec) and not isinstance(w, Rec) and any(k.startswith('@') for k in v.f):
                v = [v.f[k] for k in v.f if k.startswith('@')][0]
            r = self.deep_eq(v, w)
        return Not(r) if neg else r

    def h_fill(self, f, o, a, e):
        """std::fill std::array::fill"""
        x = self.x
        if o is not None:
            o = self.arr_lv(o)
            v = x.load(o)
            x.store(o, Vec(v.et, v.len, map_leaves(lambda l: K(IntSort(), l), self.coerce_t(x.rd(a[0]), v.et))))
            return
        b, en, val = x.rd(a[0]), x.rd(a[1]), x.rd(a[2])
        lv = b.f['c'].lv
        v = x.load(lv)
        lo, hi = b.f['i'], en.f['i']
        x.oblige('safety', And(lo >= 0, lo <= hi, hi <= v.len), 'iterator range is valid')
        k = fresh_const('fl', IntSort())
        val = self.coerce_t(val, v.et)
        x.store(lv, Vec(v.et, v.len, self.zip2(lambda l, z: Lambda([k], mk_ite(And(k >= lo, k < hi), z, sel(l, k))), v.data, val)))

    def h_erase(self, f, o, a, e):
        """std::vector::erase"""
        x = self.x
        v = x.load(o)
        b = x.rd(a[0]).f['i']
        en = x.rd(a[1]).f['i'] if len(a) > 1 else simplify(b + 1)
        x.oblige('safety', And(b >= 0, b <= en, en <= v.len), 'erase range is valid')
        if len(a) == 1:
            x.oblige('safety', b < v.len, 'erase position is valid')
        k = fresh_const('er', IntSort())
        d = simplify(en - b)
        x.store(o, Vec(v.et, simplify(v.len - d), map_leaves(lambda l: Lambda([k], mk_ite(k < b, sel(l, k), sel(l, k + d))), v.data)))
        return self.mk_iter(o, b)

    def h_pop_front(self, f, o, a, e):
        """std::deque::pop_front"""
        x = self.x
        v = x.load(o)
        x.oblige('safety', v.len > 0, 'pop_front() of a non-empty deque')
        if x.st.dead:
            return None
        k = fresh_const('pf', IntSort())
        x.store(o, Vec(v.et, simplify(v.len - 1), map_leaves(lambda l: Lambda([k], sel(l, k + 1)), v.data)))

    def h_insert(self, f, o, a, e):
        """std::vector::insert"""
        x = self.x
        v = x.load(o)
        pos = x.rd(a[0]).f['i']
        k = fresh_const('in', IntSort())
        a1 = x.rd(a[1])
        if isinstance(a1, Rec) and a1.t == 'iter':
            src = x.load(a1.f['c'].lv)
            lo, hi = a1.f['i'], x.rd(a[2]).f['i']
            x.oblige('safety', And(lo >= 0, lo <= hi, hi <= src.len), 'iterator range is valid')
            n = simplify(hi - lo)
            data = self.zip2(lambda l, s: Lambda([k], mk_ite(k < pos, sel(l, k), mk_ite(k < pos + n, sel(s, lo + k - pos), sel(l, k - n)))), v.data, src.data)
            x.store(o, Vec(v.et, simplify(v.len + n), data))
            return self.mk_iter(o, pos)
        val = self.conv(a[1], v.et, f)
        data = self.zip2(lambda l, z: Lambda([k], mk_ite(k < pos, sel(l, k), mk_ite(k == pos, z, sel(l, k - 1)))), v.data, val)
        x.store(o, Vec(v.et, simplify(v.len + 1), data))
        return self.mk_iter(o, pos)

    def h_bitref(self, f, o, a, e):
        """std::_Bit_reference::operator= std::_Bit_reference::operator_bool"""
        x = self.x
        if f['name'] == 'operator=':
            x.store(o, x.truth(x.rd(a[0])))
            return o
        return x.rd(o)

    # ---- algorithms ----------------------------------------------------------------------------------------------
    def h_move(self, f, o, a, e):
        """std::move std::forward std::as_const std::addressof std::__addressof std::ref std::cref"""
        if 'addressof' in f['name']:
            return PtrLV(a[0])
        if len(a) == 3:
            return self.h_copy(f, o, a, e)
        return a[0]

    def rng(self, b, en):
        x = self.x
        lv = b.f['c'].lv
        v = x.load(lv)
        x.oblige('safety', And(b.f['i'] >= 0, b.f['i'] <= en.f['i'], en.f['i'] <= self.length(v)), 'iterator range is valid')
        return lv, v, b.f['i'], en.f['i']

    def less(self, cmp, u, w):
        """u < w by the comparator value cmp (None: operator<)"""
        x = self.x
        if cmp is None:
            return x.compare('<', u, w)
        return x.truth(x.rd(x.call_value(cmp, [x.root(u), x.root(w)])))

    def elem(self, v, k):
        return map_leaves(lambda l: sel(l, k), v.data)

    def with_k(self, lo, hi, fn, name='k'):
        """evaluate fn at a symbolic index lo<=k<hi in a scratch state"""
        x = self.x
        k = fresh_const(name, IntSort())
        s = x.st
        x.st = s.copy()
        x.st.assume(k >= lo)
        x.st.assume(k < hi)
        x.quiet += 1
        r = fn(k)
        x.quiet -= 1
        x.st = s
        return k, r

    def h_max_element(self, f, o, a, e):
        """std::max_element std::min_element"""
        x = self.x
        b, en = x.rd(a[0]), x.rd(a[1])
        cmp = x.rd(a[2]) if len(a) > 2 else None
        lv, v, lo, hi = self.rng(b, en)
        if cmp is None and is_expr(v.data):
            # the same question about the same contents has the same answer
            key = (f['name'], v.data.get_id(), simplify(lo).get_id(), simplify(hi).get_id())
            hit = self.argext.get(key)
            if hit is None:
                hit = self.argext[key] = (fresh_const('argext', IntSort()), v.data, simplify(lo), simplify(hi))
            r = hit[0]
        else:
            r = fresh_const('argext', IntSort())
        x.pr.fact(x.st.pc, And(r >= lo, r <= hi))
        x.pr.fact(x.st.pc, Implies(lo < hi, r < hi))
        mx = f['name'] == 'max_element'
        k, c = self.with_k(lo, hi, lambda k: self.less(cmp, self.elem(v, r), self.elem(v, k)) if mx else self.less(cmp, self.elem(v, k), self.elem(v, r)))
        x.pr.fact(x.st.pc, ForAll([k], Implies(And(k >= lo, k < hi), Not(c))))
        k, c = self.with_k(lo, hi, lambda k: self.less(cmp, self.elem(v, k), self.elem(v, r)) if mx else self.less(cmp, self.elem(v, r), self.elem(v, k)))
        x.pr.fact(x.st.pc, ForAll([k], Implies(And(k >= lo, k < r), c)))
        return self.mk_iter(lv, r)

    def h_upper_bound(self, f, o, a, e):
        """std::upper_bound std::lower_bound"""
        x = self.x
        b, en, val = x.rd(a[0]), x.rd(a[1]), x.rd(a[2])
        cmp = x.rd(a[3]) if len(a) > 3 else None
        lv, v, lo, hi = self.rng(b, en)
        up = f['name'] == 'upper_bound'

        def after(k):  # element k lies after the bound
            return self.less(cmp, val, self.elem(v, k)) if up else Not(self.less(cmp, self.elem(v, k), val))
        # precondition: partitioned
        j = fresh_const('pj', IntSort())
        k, ck = self.with_k(lo, hi, after)
        cj = substitute(ck, (k, j))
        kk = fresh_const('pk', IntSort())
        x.oblige('safety', ForAll([j, kk], Implies(And(j >= lo, j < kk, kk < hi, cj), substitute(ck, (k, kk)))), '%s: range is partitioned (sorted)' % f['name'])
        r = fresh_const('bound', IntSort())
        x.pr.fact(x.st.pc, And(r >= lo, r <= hi))
        x.pr.fact(x.st.pc, ForAll([k], Implies(And(k >= r, k < hi), ck)))
        x.pr.fact(x.st.pc, ForAll([k], Implies(And(k >= lo, k < r), Not(ck))))
        x.pr.fact(x.st.pc, Implies(r < hi, substitute(ck, (k, r))))
        x.pr.fact(x.st.pc, Implies(r > lo, Not(substitute(ck, (k, r - 1)))))
        # the same fact as a count (lemma sum_partition, proved by induction in lemmas.py)
        if is_int_value(simplify(lo)) and simplify(lo).as_long() == 0 and SUMN.isdisjoint(free_syms(ck)):
            x.pr.fact(x.st.pc, r == mk_sum(mk_ite(ck, IntVal(0), IntVal(1)), k, hi))
        return self.mk_iter(lv, r)

    def h_sort(self, f, o, a, e):
        """std::sort std::stable_sort std::shuffle"""
        x = self.x
        b, en = x.rd(a[0]), x.rd(a[1])
        lv, v, lo, hi = self.rng(b, en)
        if x.mode == 'bmc':
            n = simplify(hi - lo)
        if not is_expr(v.data):
            raise Unsupported('sort of records')
        name = f['name']
        cmp = x.rd(a[2]) if len(a) > 2 and name != 'shuffle' else None
        if not (is_int_value(simplify(lo)) and simplify(lo).as_long() == 0):
            raise Unsupported('sort of a subrange')
        s = fresh_const('sorted', v.data.sort())
        pi = Function(fresh_name('perm'), IntSort(), IntSort())
        pj = Function(fresh_name('perminv'), IntSort(), IntSort())
        k, j = Ints('sk!k sk!j')
        inr = lambda q: And(q >= 0, q < hi)
        x.pr.fact(x.st.pc, ForAll([k], Implies(inr(k), And(inr(pi(k)), Select(s, k) == sel(v.data, pi(k)), pj(pi(k)) == k)), patterns=[Select(s, k)]))
        x.pr.fact(x.st.pc, ForAll([k], Implies(inr(k), And(inr(pj(k)), pi(pj(k)) == k)), patterns=[pj(k)]))
        if name != 'shuffle':
            kk, c = self.with_k(lo, hi, lambda q: self.less(cmp, Select(s, q), Select(s, j)))
            x.pr.fact(x.st.pc, ForAll([k, j], Implies(And(0 <= k, k < j, j < hi), Not(substitute(substitute(c, (kk, Int('sk!t'))), (j, k), (Int('sk!t'), j))))))
        orig = v.data
        if not is_const(orig):
            oc = fresh_const('unsorted', orig.sort())
            kq = Int('sk!q')
            x.pr.fact((), ForAll([kq], Select(oc, kq) == sel(orig, kq), patterns=[Select(oc, kq)]))
            orig = oc
        x.pr.perms.append((s, orig, hi))
        x.store(lv, Vec(v.et, v.len, s))

    def h_copy(self, f, o, a, e):
        """std::copy"""
        x = self.x
        b, en, d = x.rd(a[0]), x.rd(a[1]), x.rd(a[2])
        lv, v, lo, hi = self.rng(b, en)
        dl = d.f['c'].lv
        w = x.load(dl)
        di = d.f['i']
        x.oblige('safety', And(di >= 0, di + (hi - lo) <= self.length(w)), 'copy destination large enough')
        k = fresh_const('cp', IntSort())
        x.store(dl, Vec(w.et, w.len, self.zip2(lambda l, s: Lambda([k], mk_ite(And(k >= di, k < di + hi - lo), sel(s, lo + k - di), sel(l, k))), w.data, v.data)))
        return d.with_('i', simplify(di + hi - lo))

    def h_iota(self, f, o, a, e):
        """std::iota"""
        x = self.x
        lv, v, lo, hi = self.rng(x.rd(a[0]), x.rd(a[1]))
        s = x.rd(a[2])
        k = fresh_const('io', IntSort())
        x.store(lv, Vec(v.et, v.len, Lambda([k], mk_ite(And(k >= lo, k < hi), x.coerce(s + k - lo, v.data.sort().range()), sel(v.data, k)))))

    def h_quant(self, f, o, a, e):
        """std::all_of std::any_of std::none_of"""
        x = self.x
        lv, v, lo, hi = self.rng(x.rd(a[0]), x.rd(a[1]))
        fn = x.rd(a[2])
        k, c = self.with_k(lo, hi, lambda k: x.truth(x.rd(x.call_value(fn, [x.root(self.elem(v, k))]))))
        r = And(k >= lo, k < hi)
        if f['name'] == 'all_of':
            return ForAll([k], Implies(r, c))
        if f['name'] == 'any_of':
            return Exists([k], And(r, c))
        return ForAll([k], Implies(r, Not(c)))

    def h_count(self, f, o, a, e):
        """std::count std::count_if"""
        x = self.x
        lv, v, lo, hi = self.rng(x.rd(a[0]), x.rd(a[1]))
        t = x.rd(a[2])
        if f['name'] == 'count':
            k, c = self.with_k(IntVal(0), hi - lo, lambda k: self.deep_eq(self.elem(v, lo + k), t))
        else:
            k, c = self.with_k(IntVal(0), hi - lo, lambda k: x.truth(x.rd(x.call_value(t, [x.root(self.elem(v, lo + k))]))))
        return mk_sum(mk_ite(c, IntVal(1), IntVal(0)), k, simplify(hi - lo))

    def h_find(self, f, o, a, e):
        """std::find std::find_if"""
        x = self.x
        lv, v, lo, hi = self.rng(x.rd(a[0]), x.rd(a[1]))
        t = x.rd(a[2])
        hit = (lambda k: self.deep_eq(self.elem(v, k), t)) if f['name'] == 'find' else (lambda k: x.truth(x.rd(x.call_value(t, [x.root(self.elem(v, k))]))))
        k, c = self.with_k(lo, hi, hit)
        r = fresh_const('found', IntSort())
        x.pr.fact(x.st.pc, And(r >= lo, r <= hi, Implies(r < hi, substitute(c, (k, r)))))
        x.pr.fact(x.st.pc, ForAll([k], Implies(And(k >= lo, k < r), Not(c))))
        return self.mk_iter(lv, r)

    def h_transform(self, f, o, a, e):
        """std::transform"""
        x = self.x
        lv, v, lo, hi = self.rng(x.rd(a[0]), x.rd(a[1]))
        if len(a) == 4:
            d, fn = x.rd(a[2]), a[3]
            k, c = self.with_k(IntVal(0), hi - lo, lambda k: x.rd(x.call_value(fn, [x.root(self.elem(v, lo + k))])))
        else:
            b2, d, fn = x.rd(a[2]), x.rd(a[3]), a[4]
            w2 = x.load(b2.f['c'].lv)
            x.oblige('safety', b2.f['i'] + hi - lo <= self.length(w2), 'second range long enough')
            k, c = self.with_k(IntVal(0), hi - lo, lambda k: x.rd(x.call_value(fn, [x.root(self.elem(v, lo + k)), x.root(self.elem(w2, b2.f['i'] + k))])))
        dl, di = d.f['c'].lv, d.f['i']
        w = x.load(dl)
        x.oblige('safety', And(di >= 0, di + (hi - lo) <= self.length(w)), 'transform destination large enough')
        q = fresh_const('tr', IntSort())
        c = self.coerce_t(c, w.et)
        new = map_leaves(lambda l: l, c)
        x.store(dl, Vec(w.et, w.len, self.zip2(lambda l, s: Lambda([q], mk_ite(And(q >= di, q < di + hi - lo), substitute(s, (k, q - di)), sel(l, q))), w.data, new)))
        return d.with_('i', simplify(di + hi - lo))

    def fold_plus(self, init, k, c, n):
        """init + sum of c over k < n, leaf by leaf"""
        x = self.x

        def add(i, b):
            if i.sort() == RealSort() or i.sort() == IntSort():
                return i + mk_sum(x.coerce(b, i.sort()), k, n)
            raise Unsupported('reduce over this type')
        return self.zip2(add, init, c)

    def h_transform_reduce(self, f, o, a, e):
        """std::transform_reduce std::reduce"""
        x = self.x
        lv, v, lo, hi = self.rng(x.rd(a[0]), x.rd(a[1]))
        n = simplify(hi - lo)
        ts = [x.p.T(x.p.noref(q['t'])).get('s', '') for q in f['params']]
        if f['name'] == 'reduce':
            if len(a) == 4 and 'std::plus' not in ts[3]:
                raise Unsupported('reduce with another operation than plus')
            k, c = self.with_k(IntVal(0), n, lambda k: self.elem(v, lo + k))
            init = x.rd(a[2]) if len(a) > 2 else map_leaves(lambda l: RealVal(0) if l.sort() == RealSort() else IntVal(0), c)
            return self.fold_plus(init, k, c, n)
        if len(a) == 5 and 'std::plus' in ts[3]:
            k, c = self.with_k(IntVal(0), n, lambda k: x.rd(x.call_value(a[4], [x.root(self.elem(v, lo + k))])))
            return self.fold_plus(x.rd(a[2]), k, c, n)
        raise Unsupported('this form of transform_reduce')

    def h_minmax_il(self, f, o, a, e):
        """std::max std::min"""
        x = self.x
        v = x.rd(a[0])
        n = simplify(v.len).as_long()
        r = self.elem(v, IntVal(0))
        for i in range(1, n):
            w = self.elem(v, IntVal(i))
            c = r < w if f['name'] == 'max' else w < r
            r = mk_ite(c, w, r)
        return r

    def h_clamp(self, f, o, a, e):
        """std::clamp"""
        x = self.x
        if len(a) > 3:
            raise Unsupported('std::clamp with a comparison')
        v, lo, hi = x.rd(a[0]), x.rd(a[1]), x.rd(a[2])
        x.oblige('safety', lo <= hi, 'std::clamp bounds are ordered')
        if x.st.dead:
            return None
        return mk_ite(v < lo, lo, mk_ite(hi < v, hi, v))

    # ---- optional / variant / smart pointers / function -------------------------------------------------------------
    def h_opt_bool(self, f, o, a, e):
        """std::optional::has_value std::optional::operator_bool std::optional::(conv)"""
        return self.x.load(o).f['has']

    def h_opt_deref(self, f, o, a, e):
        """std::optional::operator* std::optional::operator->"""
        x = self.x
        x.oblige('safety', x.load(o).f['has'], 'optional holds a value')
        if x.st.dead:
            return None
        lv = x.lv_sub(o, ('f', 'val'))
        return PtrLV(lv) if f['name'] == 'operator->' else lv

    def h_opt_value(self, f, o, a, e):
        """std::optional::value"""
        x = self.x
        x.throw_if(Not(x.load(o).f['has']), 'std::bad_optional_access')
        return None if x.st.dead else x.lv_sub(o, ('f', 'val'))

    def h_opt_value_or(self, f, o, a, e):
        """std::optional::value_or"""
        x = self.x
        v = x.load(o)
        return merge_val(v.f['has'], v.f['val'], self.conv(a[0], x.p.targ(x.p.recs[f['rec']]['t']), f))

    def h_opt_assign(self, f, o, a, e):
        """std::optional::operator= std::optional::emplace"""
        x = self.x
        t = x.p.recs[f['rec']]['t']
        inner = x.p.targ(t)
        v = x.rd(a[0]) if a else None
        if isinstance(v, Opaque) and v.tag == 'nullopt':
            x.store(o, x.load(o).with_('has', BoolVal(False)))
            return o
        if isinstance(v, Rec) and v.t == t:
            move = bool(x.p.T(f['params'][0]['t']).get('rv'))
            new = x.copy_val(a[0], t, move)
            if not x.st.dead:
                x.store(o, new)
            return o
        new = self.conv(a[0], inner, f)
        if x.st.dead:
            return None
        x.store(o, Rec(t, {'has': BoolVal(True), 'val': new}))
        return o

    def h_opt_reset(self, f, o, a, e):
        """std::optional::reset"""
        self.x.store(o, self.x.load(o).with_('has', BoolVal(False)))

    def h_mkopt(self, f, o, a, e):
        """std::make_optional"""
        return Rec(f['ret'], {'has': BoolVal(True), 'val': self.conv(a[0], self.x.p.targ(f['ret']), f)})

    def h_var_index(self, f, o, a, e):
        """std::variant::index"""
        return self.x.load(o).f['idx']

    def alt_of(self, f, t):
        """variant alternative named by the function's first template argument"""
        ta = f['targs'][0]
        if 'i' in ta:
            return int(ta['i'])
        return self.x.p.targs(t).index(ta['t'])

    def h_var_get(self, f, o, a, e):
        """std::get"""
        x = self.x
        v = x.rd(a[0])
        if isinstance(v, Rec) and x.p.k(v.t) == 'rec' and x.p.recname(v.t) == 'std::variant':
            i = self.alt_of(f, v.t)
            x.throw_if(v.f['idx'] != i, 'std::bad_variant_access')
            return None if x.st.dead else x.lv_sub(x.as_lv(a[0]), ('f', 'a%d' % i))
        i = int(f['targs'][0]['i']) if 'i' in f['targs'][0] else None
        if isinstance(v, Vec) or isinstance(v, PyList):
            return x.lv_sub(x.as_lv(a[0]), ('i', IntVal(i)))
        if isinstance(v, Rec):
            key = ('first', 'second')[i] if 'first' in v.f else str(i)
            return x.lv_sub(x.as_lv(a[0]), ('f', key))
        raise Unsupported('std::get')

    def h_var_get_if(self, f, o, a, e):
        """std::get_if"""
        x = self.x
        lv = x.deref(x.rd(a[0]))
        v = x.load(lv)
        i = self.alt_of(f, v.t)
        c = simplify(v.f['idx'] == i)
        return merge_val(c, PtrLV(x.lv_sub(lv, ('f', 'a%d' % i))), NullPtr())

    def h_holds(self, f, o, a, e):
        """std::holds_alternative"""
        v = self.x.rd(a[0])
        return v.f['idx'] == self.alt_of(f, v.t)

    def h_var_assign(self, f, o, a, e):
        """std::variant::operator= std::variant::emplace"""
        x = self.x
        t = x.p.recs[f['rec']]['t']
        v = x.rd(a[0])
        if isinstance(v, Rec) and v.t == t:
            x.store(o, v)
        else:
            x.store(o, self.variant_set(x.load(o), t, a[0]))
        return o

    def h_visit(self, f, o, a, e):
        """std::visit"""
        x = self.x
        lv = x.as_lv(a[1])
        v = x.load(lv)
        ts = x.p.targs(v.t)

        def go(i):
            one = lambda: x.call_value(a[0], [x.lv_sub(lv, ('f', 'a%d' % i))])
            if i == len(ts) - 1:
                return one()
            return x.branch(v.f['idx'] == i, one, lambda: go(i + 1))
        return go(0)

    def h_up_get(self, f, o, a, e):
        """std::unique_ptr::get std::shared_ptr::get std::unique_ptr::operator-> std::shared_ptr::operator->"""
        return self.x.rd(o)

    def h_up_star(self, f, o, a, e):
        """std::unique_ptr::operator* std::shared_ptr::operator*"""
        return self.x.deref(self.x.rd(o))

    def h_up_bool(self, f, o, a, e):
        """std::unique_ptr::operator_bool std::shared_ptr::operator_bool std::__shared_ptr::operator_bool"""
        return self.x.truth(self.x.rd(o))

    def h_up_assign(self, f, o, a, e):
        """std::unique_ptr::operator= std::shared_ptr::operator="""
        x = self.x
        t = x.p.recs[f['rec']]['t']
        v = x.rd(a[0])
        src = x.p.noref(f['params'][0]['t'])
        if x.p.recname(src) == 'std::unique_ptr':
            if isinstance(a[0], (LV, LVChoice)):
                if isinstance(a[0], LV) and isinstance(o, LV) and a[0].same(o):
                    return o
                x.store(a[0], NullPtr())
            v = self.upcast_ptr(v, x.p.targ(src), x.p.targ(t))
        x.store(o, v)
        return o

    def h_up_reset(self, f, o, a, e):
        """std::unique_ptr::reset std::shared_ptr::reset"""
        v = self.x.rd(a[0]) if a else NullPtr()
        self.x.store(o, v)

    def h_up_release(self, f, o, a, e):
        """std::unique_ptr::release"""
        v = self.x.load(o)
        self.x.store(o, NullPtr())
        return v

    def h_fn_call(self, f, o, a, e):
        """std::function::operator()"""
        return self.x.call_value(self.x.load(o), a)

    def h_fn_bool(self, f, o, a, e):
        """std::function::operator_bool"""
        return self.x.truth(self.x.load(o))

    def h_pair(self, f, o, a, e):
        """std::make_pair std::make_tuple std::tie"""
        x = self.x
        t = f['ret']
        if f['name'] == 'make_pair':
            return Rec(t, {'first': x.rd(a[0]), 'second': x.rd(a[1])})
        if f['name'] == 'make_tuple':
            return Rec(t, {str(i): x.rd(q) for i, q in enumerate(a)})
        raise Unsupported('std::tie')

    # ---- strings ---------------------------------------------------------------------------------------------------
    def h_str_empty(self, f, o, a, e):
        """std::basic_string::empty"""
        return self.x.load(o) == 0

    def h_str_len(self, f, o, a, e):
        """std::basic_string::size std::basic_string::length"""
        return self.x.ranged(STRLEN(self.x.load(o)), None)

    def h_str_c(self, f, o, a, e):
        """std::basic_string::c_str std::basic_string::data"""
        return self.x.load(o)

    def h_str_cat(self, f, o, a, e):
        """std::operator+ std::basic_string::operator+= std::basic_string::append"""
        x = self.x
        if o is not None:
            v = CAT(x.load(o), x.coerce(x.rd(a[0]), IntSort()))
            x.fact(v > 0, False)
            x.store(o, v)
            return o
        l = [x.rd(q) for q in a]
        if all(is_expr(q) and q.sort() == IntSort() for q in l):
            return CAT(l[0], l[1])
        if isinstance(l[0], Rec) and x.p.k(l[0].t) == 'rec' or isinstance(l[1], Rec):
            return self.h_cplx_arith(f, o, a, e)
        raise Unsupported('operator+')

    def h_tostr(self, f, o, a, e):
        """std::to_string"""
        v = self.x.rd(a[0])
        return TOSTRI(v) if v.sort() == IntSort() else TOSTRR(v)

    def h_osstr(self, f, o, a, e):
        """std::basic_ostringstream::str std::basic_stringstream::str"""
        return self.x.fresh(f['ret'], 'str') if self.x.p.k(f['ret']) != 'void' else None

    # ---- complex -----------------------------------------------------------------------------------------------------
    def cplx(self, v):
        x = self.x
        if isinstance(v, Rec):
            return v.f['re'], v.f['im']
        return x.coerce(v, RealSort()), RealVal(0)

    def ctype(self, *vs):
        for v in vs:
            if isinstance(v, Rec):
                return v.t
        return None

    def h_cplx_part(self, f, o, a, e):
        """std::complex::real std::complex::imag std::real std::imag"""
        x = self.x
        key = 're' if f['name'] == 'real' else 'im'
        if o is not None and a:
            x.store(x.lv_sub(o, ('f', key)), x.coerce(x.rd(a[0]), RealSort()))
            return None
        v = x.rd(o if o is not None else a[0])
        return self.cplx(v)[0 if key == 're' else 1]

    def h_conj(self, f, o, a, e):
        """std::conj"""
        v = self.x.rd(a[0])
        re, im = self.cplx(v)
        t = f['ret']
        if self.x.p.k(t) == 'flt':
            return re
        return Rec(t, {'re': re, 'im': -im})

    def h_norm(self, f, o, a, e):
        """std::norm"""
        re, im = self.cplx(self.x.rd(a[0]))
        return re * re + im * im

    def h_cplx_arith(self, f, o, a, e):
        """std::operator- std::operator* std::operator/ std::complex::operator+= std::complex::operator-= std::complex::operator*= std::complex::operator/="""
        x = self.x
        l = [x.rd(q) for q in (([o] if o is not None else []) + list(a))]
        if isinstance(l[0], Rec) and l[0].t == 'iter':
            return self.iter_arith(f['name'][8:], l[0], l[1])
        op = f['name'][8]
        t = self.ctype(*l)
        if t is None:
            raise Unsupported('operator%s' % op)
        if len(l) == 1:
            re, im = self.cplx(l[0])
            return Rec(t, {'re': -re, 'im': -im}) if op == '-' else l[0]
        (ar, ai), (br, bi) = self.cplx(l[0]), self.cplx(l[1])
        if op == '+':
            r = (ar + br, ai + bi)
        elif op == '-':
            r = (ar - br, ai - bi)
        elif op == '*':
            if not isinstance(l[1], Rec):
                r = (ar * br, ai * br)
            elif not isinstance(l[0], Rec):
                r = (ar * br, ar * bi)
            else:
                r = (ar * br - ai * bi, ar * bi + ai * br)
        else:
            if not isinstance(l[1], Rec):
                r = (ar / br, ai / br)
            else:
                d = br * br + bi * bi
                r = ((ar * br + ai * bi) / d, (ai * br - ar * bi) / d)
        r = Rec(t, {'re': simplify(r[0]), 'im': simplify(r[1])})
        if o is not None:
            x.store(o, r)
            return o
        return r

    # ---- cmath -------------------------------------------------------------------------------------------------------
    def cabs(self, re, im):
        x = self.x
        re, im = simplify(re), simplify(im)
        if is_rational_value(im) and im.as_fraction() == 0:
            return mk_ite(re >= 0, re, -re)
        r = CABS(re, im)
        key = ('cabs', r.get_id())
        if key not in x.input_ints:
            x.input_ints[key] = r
            x.pr.fact((), And(r >= 0, r * r == re * re + im * im))
        return r

    def sqrt(self, v):
        x = self.x
        v = simplify(v)
        if is_rational_value(v):
            f = v.as_fraction()
            import math
            if f >= 0:
                n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
                if n * n == f.numerator and d * d == f.denominator:
                    return RealVal(str(Fraction(n, d)))
        r = SQRT(v)
        key = ('sqrt', r.get_id())
        if key not in x.input_ints:
            x.input_ints[key] = r
            x.pr.fact((), Implies(v >= 0, And(r >= 0, r * r == v)))
        return r

    def h_math1(self, f, o, a, e):
        """std::sqrt sqrt sqrtl std::exp exp std::log log std::cos cos std::sin sin std::abs abs fabs std::fabs labs std::floor floor std::ceil ceil std::round round"""
        x = self.x
        n = f['name'].rstrip('l') if f['name'] in ('sqrtl', 'expl', 'logl') else f['name']
        v = x.rd(a[0])
        if n in ('abs', 'fabs', 'labs'):
            if isinstance(v, Rec):
                re, im = self.cplx(v)
                if is_rational_value(simplify(im)) and simplify(im).as_fraction() == 0:
                    return If(re >= 0, re, -re)
                return self.cabs(re, im)
            return mk_ite(v >= 0, v, -v)
        v = x.coerce(v, RealSort())
        if n == 'sqrt':
            return self.sqrt(v)
        if n in ('floor', 'ceil', 'round'):
            return ToReal(ToInt(v)) if n == 'floor' else -ToReal(ToInt(-v)) if n == 'ceil' else mk_ite(v >= 0, ToReal(ToInt(v + RealVal('0.5'))), -ToReal(ToInt(-v + RealVal('0.5'))))
        v = simplify(v)
        F = {'exp': EXP, 'log': LOG, 'cos': COS, 'sin': SIN}[n]
        r = F(v)
        key = (n, r.get_id())
        if key not in x.input_ints:
            x.input_ints[key] = r
            if n == 'exp':
                x.pr.fact((), And(r > 0, Implies(v == 0, r == 1), Implies(v >= 0, r >= 1), Implies(v <= 0, r <= 1)))
            if n == 'cos':
                x.pr.fact((), And(r >= -1, r <= 1, Implies(v == 0, r == 1), Implies(v == self.PI, r == -1), Implies(2 * v == self.PI, r == 0)))
            if n == 'sin':
                x.pr.fact((), And(r >= -1, r <= 1, Implies(v == 0, r == 0)))
        return r

    def h_pow(self, f, o, a, e):
        """std::pow pow powl"""
        x = self.x
        b, ex = x.coerce(x.rd(a[0]), RealSort()), x.coerce(x.rd(a[1]), RealSort())
        ex = simplify(ex)
        if is_rational_value(ex) and ex.as_fraction() in (0, 1, 2, 3):
            r = RealVal(1)
            for _ in range(int(ex.as_fraction())):
                r = r * b
            return r
        r = POW(simplify(b), ex)
        key = ('pow', r.get_id())
        if key not in x.input_ints:
            x.input_ints[key] = r
            x.pr.fact((), And(Implies(ex == 0, r == 1), Implies(ex == 1, r == b), Implies(b > 0, r > 0), Implies(b == 1, r == 1)))
        return r

    def h_fmax(self, f, o, a, e):
        """fmax std::fmax fmin std::fmin"""
        x = self.x
        u, v = x.coerce(x.rd(a[0]), RealSort()), x.coerce(x.rd(a[1]), RealSort())
        return mk_ite(u >= v, u, v) if 'max' in f['name'] else mk_ite(u <= v, u, v)

    def h_isfinite(self, f, o, a, e):
        """std::isfinite isfinite std::isnan isnan std::isinf isinf"""
        v = self.x.rd(a[0])
        n = f['name']
        ext = [s for s in free_syms(v) if s.startswith('ext_')]
        if not ext:
            if v.eq(NAN):
                return BoolVal(n == 'isnan')
            if v.eq(INF):
                return BoolVal(n == 'isinf')
            return BoolVal(n == 'isfinite')
        if n == 'isfinite':
            return FIN(v)
        if n == 'isnan':
            self.x.fact(Implies(NANP(v), Not(FIN(v))), False)
            return NANP(v)
        return And(Not(FIN(v)), Not(NANP(v)))

    def h_nextafter(self, f, o, a, e):
        """std::nextafter nextafter nextafterl"""
        x = self.x
        v, w = x.rd(a[0]), x.rd(a[1])
        r = fresh_const('nextafter', RealSort())
        self.nexts[str(r)] = (v, w)
        ab = mk_ite(v >= 0, v, -v)
        x.pr.fact((), If(w < v, And(r >= w, r < v, v - r <= ab * RealVal('1/1000000000000') + DBL_MIN), If(w > v, And(r <= w, r > v, r - v <= ab * RealVal('1/1000000000000') + DBL_MIN), r == v)))
        return r

    def h_limits(self, f, o, a, e):
        """std::numeric_limits::max std::numeric_limits::min std::numeric_limits::epsilon std::numeric_limits::infinity std::numeric_limits::lowest std::numeric_limits::quiet_NaN"""
        x = self.x
        n = f['name']
        t = f['ret']
        if x.p.k(t) == 'flt':
            return {'max': DBL_MAX, 'min': DBL_MIN, 'epsilon': EPS, 'infinity': INF, 'lowest': -DBL_MAX, 'quiet_NaN': NAN}[n]
        lo, hi = x.int_range(t)
        return IntVal(hi if n == 'max' else lo)

    # ---- random --------------------------------------------------------------------------------------------------------
    def h_dist(self, f, o, a, e):
        """std::uniform_real_distribution::operator() std::uniform_int_distribution::operator()"""
        x = self.x
        d = x.load(o)
        g = a[0]
        gt = x.rd(g)
        isreal = 'real' in f['cq']
        u = None
        if isinstance(gt, Rec) and 'us' in gt.f and 'pos' in gt.f:
            # vc::Rng: the next given draw
            u = Select(gt.f['us'].data, gt.f['pos'])
            x.store(x.lv_sub(g, ('f', 'pos')), gt.f['pos'] + 1)
        if isreal:
            if u is not None:
                lo, hi = d.f['a'], d.f['b']
                if is_rational_value(simplify(lo)) and is_rational_value(simplify(hi)):
                    return simplify(lo + (hi - lo) * u)
                r = fresh_const('rand', RealSort())
                x.pr.fact(x.st.pc, r == lo + (hi - lo) * u)
                for na, (E, towards) in self.nexts.items():
                    if str(hi) == na and towards.eq(lo):
                        # hi is just below E = lo + W
                        W = simplify(E - lo, som=True)
                        x.pr.fact(x.st.pc, Implies(And(hi <= E, lo <= hi), And(r <= lo + u * W, r >= lo + u * W - (E - hi))))
                x.pr.fact(x.st.pc, And(Implies(lo <= hi, And(lo <= r, r <= hi)), Implies(lo < hi, r < hi), Implies(u == 0, r == lo)))
                return r
            r = fresh_const('rand', RealSort())
            x.pr.fact((), And(r >= 0, r < 1))
            return simplify(d.f['a'] + (d.f['b'] - d.f['a']) * r)
        r = fresh_const('randi', IntSort())
        x.pr.fact(x.st.pc, And(r >= d.f['a'], r <= d.f['b']))
        return r

    def h_engine(self, f, o, a, e):
        """std::mersenne_twister_engine::seed std::mersenne_twister_engine::operator() std::random_device::operator() std::mersenne_twister_engine::discard"""
        x = self.x
        return x.fresh(f['ret'], 'rnd') if x.p.k(f['ret']) != 'void' else None

    def h_void(self, f, o, a, e):
        """printf fprintf fflush std::terminate_never"""
        return IntVal(0)

    # ---- specification vocabulary ------------------------------------------------------------------------------------
    def intrinsic(self, f, e):
        x = self.x
        n = f['name']
        A = e['args']

        def lit(k):
            q = A[k]
            while q['k'] in ('cast', 'mat'):
                q = q['e']
            return q.get('v', '?')
        if n in ('any_size', 'any_int'):
            lo, hi = x.rv(A[1]), x.rv(A[2])
            c = fresh_const(lit(0), IntSort())
            x.st.assume(c >= lo)
            x.st.assume(c <= hi)
            x.range_fact(c, f['ret'])
            x.add_input((lit(0), 'i', c, None))
            return c
        if n == 'any_string':
            c = fresh_const(lit(0), IntSort())
            x.pr.fact((), And(c >= 0, c < 1000))
            x.add_input((lit(0), 'i', c, None))
            return c
        if n == 'any_bool':
            c = fresh_const(lit(0), BoolSort())
            x.add_input((lit(0), 'b', c, None))
            return c
        if n in ('any_double', 'any_ext_double'):
            c = fresh_const(('ext_' if n != 'any_double' else '') + lit(0), RealSort())
            if n == 'any_double':
                x.pr.fact((), And(c <= RealVal('1e100'), c >= RealVal('-1e100')))
            x.add_input((lit(0), 'd', c, None))
            return c
        if n in ('uf', 'uf_nonneg'):
            # an arbitrary function of its arguments (the same at every call)
            a = [x.rv(e) for e in A[1:]]
            r = Function('uf.' + lit(0), *([RealSort()] * (len(a) + 1)))(*a)
            if n == 'uf_nonneg':
                x.pr.fact((), r >= 0)
            return r
        if n in ('any_doubles', 'any_sizes', 'any_ints', 'any_units', 'any_nonneg'):
            ln = x.rv(A[1])
            t = f['ret']
            et = x.p.targ(t)
            s = x.sort_of(et)
            c = fresh_const(lit(0), ArraySort(IntSort(), s))
            k = Int('in!k')
            if n == 'any_units':
                x.pr.fact((), ForAll([k], And(Select(c, k) >= 0, Select(c, k) < 1), patterns=[Select(c, k)]))
            elif n == 'any_nonneg':
                x.pr.fact((), ForAll([k], And(Select(c, k) >= 0, Select(c, k) <= RealVal('1e100')), patterns=[Select(c, k)]))
            elif n != 'any_doubles':
                lo, hi = x.rv(A[2]), x.rv(A[3])
                x.pr.fact(x.st.pc, ForAll([k], And(Select(c, k) >= lo, Select(c, k) <= hi), patterns=[Select(c, k)]))
            else:
                x.pr.fact((), ForAll([k], And(Select(c, k) >= RealVal('-1e100'), Select(c, k) <= RealVal('1e100')), patterns=[Select(c, k)]))
            x.add_input((lit(0), 'D' if s == RealSort() else 'I', c, ln))
            return Vec(et, ln, c)
        if n == 'complexes':
            a, b = x.rv(A[0]), x.rv(A[1])
            et = x.p.targ(f['ret'])
            return Vec(et, a.len, Rec(et, {'re': a.data, 'im': b.data}))
        if n in ('any_table', 'any_itable', 'any_stable'):
            r, cl = x.rv(A[1]), x.rv(A[2])
            t = f['ret']
            it = x.p.targ(t)
            et = x.p.targ(it)
            c = fresh_const(lit(0), ArraySort(IntSort(), ArraySort(IntSort(), x.sort_of(et))))
            k, l = Ints('in!k in!l')
            s2 = Select(Select(c, k), l)
            lo, hi = (x.rv(A[3]), x.rv(A[4])) if n != 'any_table' else (RealVal('-1e100'), RealVal('1e100'))
            x.pr.fact((), ForAll([k, l], And(s2 >= lo, s2 <= hi), patterns=[s2]))
            x.add_input((lit(0), 'TD' if n == 'any_table' else 'TI', c, (r, cl)))
            return Vec(it, r, Vec(et, K(IntSort(), cl), c))
        if n == 'require':
            c = x.rv(A[0])
            if not x.st.dead:
                if has_quant(c):
                    x.pr.fact(x.st.pc, c)
                    x.st.pc = x.st.pc + (c,)
                else:
                    x.st.assume(simplify(c))
            return None
        if n == 'assume':
            c = x.rv(A[0])
            x.assumed.add('%s: vc::assume' % x.loc())
            if not x.st.dead:
                x.st.assume(c if has_quant(c) else simplify(c))
            return None
        if n == 'check':
            c = x.rv(A[0])
            if x.st.dead:
                return None
            x.oblige('check', c, lit(1))
            return None
        if n in ('eq', 'close'):
            a, b = x.rv(A[0]), x.rv(A[1])
            if x.st.dead:
                return None
            if isinstance(a, Rec) or isinstance(b, Rec):
                a, b = self.cplx(a), self.cplx(b)
                return And(a[0] == b[0], a[1] == b[1])
            return x.compare('==', a, b)
        if n == 'le':
            return x.compare('<=', x.rv(A[0]), x.rv(A[1]))
        if n == 'none_alive':
            t = x.p.T(f['params'][0]['t'])['to']
            al = x.st.store.get(('alive', x.p.T(t)['s']))
            if al is None:
                return BoolVal(True)
            a = Const('live!a', Addr)
            return ForAll([a], Not(sel(al, a)))
        if n == 'tractable':
            x.rv(A[0])
            return None
        if n == 'reach':
            if not x.quiet:
                x.covers.append((lit(0), x.st.pc))
            return None
        if n in ('sum', 'count', 'forall', 'exists'):
            ln = x.rv(A[0])
            fn = x.ev(A[1])
            if x.st.dead:
                return None
            k = fresh_const('q', IntSort())
            s = x.st
            x.st = s.copy()
            x.st.assume(k >= 0)
            x.st.assume(k < ln)
            v = x.rd(x.call_value(fn, [k]))
            dead = x.st.dead
            x.st = s
            if dead or v is None:
                return {'sum': RealVal(0), 'count': IntVal(0), 'forall': BoolVal(True), 'exists': BoolVal(False)}[n]
            if n == 'sum':
                return mk_sum(x.coerce(v, RealSort()), k, ln)
            if n == 'count':
                return mk_sum(mk_ite(x.truth(v), IntVal(1), IntVal(0)), k, ln)
            v = x.truth(v)
            if is_int_value(simplify(ln)) and simplify(ln).as_long() <= 6:
                ins = [substitute(v, (k, IntVal(i))) for i in range(simplify(ln).as_long())]
                return And(*ins) if n == 'forall' else Or(*ins)
            r = And(k >= 0, k < ln)
            return ForAll([k], Implies(r, v)) if n == 'forall' else Exists([k], And(r, v))
        if n == 'each':
            ln = x.rv(A[0])
            fn = x.ev(A[1])
            if x.st.dead:
                return None
            k = fresh_const('each', IntSort())
            s = x.st
            x.st = s.copy()
            x.st.assume(k >= 0)
            x.st.assume(k < ln)
            x.call_value(fn, [k])
            x.st = s
            return None
        if n == 'induct':
            ln = x.rv(A[0])
            fn = x.ev(A[1])
            lab = lit(2)
            s = x.st

            def at(j, assumes):
                x.st = s.copy()
                for c in assumes:
                    x.st.assume(c)
                v = x.truth(x.rd(x.call_value(fn, [j])))
                st = x.st
                x.st = s
                return v, st
            v, st = at(IntVal(0), [])
            x.st = st
            x.oblige('lemma', v, lab + ' (base)')
            x.st = s
            j = fresh_const('ind', IntSort())
            v, st = at(j, [j >= 0, j < ln])
            w, st2 = at(simplify(j + 1), [j >= 0, j < ln, v])
            x.st = st2
            x.oblige('lemma', w, lab + ' (step)')
            x.st = s
            v, st = at(ln, [])
            x.st = s
            x.st.assume(v)
            k = fresh_const('ind', IntSort())
            v, st = at(k, [k >= 0, k <= ln])
            x.st = s
            x.pr.fact(x.st.pc, ForAll([k], Implies(And(k >= 0, k <= ln), v)))
            return None
        if n == 'throws':
            fn = x.ev(A[0])
            x.sinks.append([])
            x.call_value(fn, [])
            thrown = x.sinks.pop()
            lst = []
            if not x.st.dead:
                lst.append((x.st, BoolVal(False)))
            lst += [(st, BoolVal(True)) for st, _ in thrown]
            if not lst:
                return None
            x.st, v = x.merge_all(lst)
            return v
        h = x.contracts.get('vc::' + n)
        if h:
            return h(x, f, None, A, e)[0]
        raise Unsupported('vc::' + n)


def conv_name(f):
    return f['name']
