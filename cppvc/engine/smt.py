"""Queries: ground instances of the definition of finite sums, congruence of sums, solver calls, statistics."""
import time
from fractions import Fraction
from val import *

ARI = ArraySort(IntSort(), IntSort())
ARR = ArraySort(IntSort(), RealSort())
PSI = Function('psumI', ARI, IntSort(), IntSort())
PSR = Function('psumR', ARR, IntSort(), RealSort())
PMI = Function('pmaxI', ARI, IntSort(), IntSort(), IntSort())    # max of h0 and a[0..n)
PMR = Function('pmaxR', ARR, IntSort(), RealSort(), RealSort())
ARB = ArraySort(IntSort(), BoolSort())
PL = Function('plast', ARB, IntSort(), IntSort())                 # last k < n with c[k], or -1
BIG = 1 << 64
import os
SLOW = os.environ.get('CPPVC_SLOW')
DEBUG = os.environ.get("CPPVC_DEBUG")


def frac(v):
    return v.as_fraction() if is_rational_value(v) else Fraction(v.as_long())


def rv(x):
    return RealVal(x)


def split_const(t, k):
    """t = c*rest with c free of k"""
    if is_mul(t):
        kn = k.decl().name()
        cs = [a for a in t.children() if kn not in free_syms(a)]
        rs = [a for a in t.children() if kn in free_syms(a)]
        if cs and rs:
            c = cs[0]
            for a in cs[1:]:
                c = c * a
            r = rs[0]
            for a in rs[1:]:
                r = r * a
            return c, r
    if is_app(t) and t.decl().kind() == Z3_OP_UMINUS:
        c, r = split_const(t.arg(0), k)
        return -c, r
    if is_app(t) and t.decl().kind() == Z3_OP_DIV:
        kn = k.decl().name()
        if kn not in free_syms(t.arg(1)):
            c, r = split_const(t.arg(0), k)
            return c / t.arg(1), r
    return (RealVal(1) if t.sort() == RealSort() else IntVal(1)), t


def mk_sum(body, k, n):
    """sum_{k=0}^{n-1} body   (k an Int constant free in body)"""
    body = simplify(body)
    isr = body.sort() == RealSort()
    kn = k.decl().name()
    zero = RealVal(0) if isr else IntVal(0)
    n = simplify(n)
    if is_int_value(n):
        if n.as_long() <= 0:
            return zero
        if n.as_long() <= 8:
            r = zero
            for j in range(n.as_long()):
                r = r + substitute(body, (k, IntVal(j)))
            return simplify(r)
    if kn not in free_syms(body):
        if is_num(body) and frac(body) == 0:
            return zero
        return (ToReal(n) if isr else n) * body
    if is_add(body):
        r = None
        for a in body.children():
            s = mk_sum(a, k, n)
            r = s if r is None else r + s
        return r
    c, r = split_const(body, k)
    if not r.eq(body):
        return c * mk_sum(r, k, n)
    if is_ite(body):
        # canonical polarity: else-branch zero where possible
        a, b = body.arg(1), body.arg(2)
        if is_num(a) and frac(a) == 0 and not (is_num(b) and frac(b) == 0):
            cn = simplify(Not(body.arg(0)))
            body = If(cn, b, a)
            a, b = b, a
        if is_num(b) and frac(b) == 0:
            if isr and is_num(a):
                f = frac(a)
                s = mk_sum_raw(If(body.arg(0), IntVal(1), IntVal(0)), k, n)
                return RealVal(str(f)) * ToReal(s)
            if not isr and is_num(a) and a.as_long() != 1:
                return a * mk_sum_raw(If(body.arg(0), IntVal(1), IntVal(0)), k, n)
            if kn not in free_syms(a) and not is_num(a):
                s = mk_sum_raw(If(body.arg(0), IntVal(1), IntVal(0)), k, n)
                return a * (ToReal(s) if isr else s)
    if isr and is_app(body) and body.decl().kind() == Z3_OP_TO_REAL:
        return ToReal(mk_sum(body.arg(0), k, n))
    return mk_sum_raw(body, k, n)


SUMK = Int('sum!k')


def mk_sum_raw(body, k, n):
    lam = Lambda([k], body)
    return (PSR if body.sort() == RealSort() else PSI)(lam, n)


SUMN = frozenset(('psumI', 'psumR', 'pmaxI', 'pmaxR', 'plast'))


def small(e, limit):
    n, st = 0, [e]
    while st:
        t = st.pop()
        n += 1
        if n > limit:
            return False
        st.extend(t.children() if is_app(t) else [t.body()] if is_quantifier(t) else [])
    return True


def sel_indices(g):
    out, seen, st = [], set(), [g]
    while st:
        t = st.pop()
        if t.get_id() in seen or is_quantifier(t):
            continue
        seen.add(t.get_id())
        if is_app(t):
            if t.decl().kind() == Z3_OP_SELECT and t.arg(1).sort() == IntSort() and all(not o.eq(t.arg(1)) for o in out):
                out.append(t.arg(1))
            st.extend(t.children())
    return out


def collect_sums(es):
    out = {}
    seen = set()
    stack = [e for e in es if not SUMN.isdisjoint(free_syms(e))]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if is_quantifier(x):
            # sums under binders that do not mention the bound variables are still ground
            stack.append(x.body())
            continue
        if is_app(x):
            if x.decl().name() in SUMN and not has_var(x):
                out[x.get_id()] = x
            stack.extend(x.children())
    return list(out.values())


def int_consts(e):
    out = {}
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if is_quantifier(x):
            st.append(x.body())
        elif is_app(x):
            if x.num_args() == 0 and x.sort() == IntSort() and x.decl().kind() == Z3_OP_UNINTERPRETED:
                out[x.get_id()] = x
            st.extend(x.children())
    return list(out.values())[:4]


INEXACT = SUMN | {'sqrt', 'cabs', 'pow', 'exp', 'log', 'cos', 'sin'}


def depends_on(e, k):
    return k.decl().name() in free_syms(e)


def record_max(body, k):
    """the running maxima m = pmax(f, k, h0) such that body is  f[k] > m"""
    out = []
    b, neg = body, False
    while is_not(b):
        b, neg = b.arg(0), not neg
    if is_app(b) and b.num_args() == 2 and b.decl().kind() in (Z3_OP_LE, Z3_OP_GE, Z3_OP_LT, Z3_OP_GT):
        for m, o in ((b.arg(0), b.arg(1)), (b.arg(1), b.arg(0))):
            if is_app(m) and m.decl().name() in ('pmaxI', 'pmaxR') and m.arg(1).eq(k) and not depends_on(m.arg(0), k) and not depends_on(m.arg(2), k):
                s = Solver()
                s.set('timeout', 500)
                v = fresh_const('rm', m.sort())
                bb = substitute(body, (m, v))
                s.add(bb != (sel(m.arg(0), k) > v))
                if s.check() == unsat:
                    out.append(m)
    return out


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0


class Prover:
    def __init__(self):
        self.facts = []   # (guards, fact, symset)
        self.perms = []   # (sorted array const, original array expr)
        self.stats = Stats()
        self.cache = {}
        self.ver = 0

    def mark(self):
        return len(self.facts)

    def since(self, m):
        return self.facts[m:]

    def reset(self, m):
        if len(self.facts) != m:
            del self.facts[m:]
            self.ver += 1

    def fact(self, guards, f):
        f = f if is_expr(f) else BoolVal(f)
        if is_true(f):
            return
        self.facts.append((tuple(guards), f, free_syms(f)))
        self.ver += 1

    def relevant(self, seeds, pcids, narrow=False):
        syms = set()
        for e in seeds:
            syms |= free_syms(e)
        out = []
        todo = []
        junk = []
        for g, f, fs in self.facts:
            if any(n.startswith(('uninit!', 'q!')) for n in fs):
                junk.append((g, f, fs))
                continue
            todo.append((g, f, fs))
        # ranges of uninitialised storage: only when the query mentions it
        todo += [t for t in junk if all(n in syms for n in t[2] if n.startswith(('uninit!', 'q!')))]
        changed = True
        while changed:
            changed = False
            rest = []
            for g, f, fs in todo:
                if ((newest(fs) in syms) if narrow and fs else (fs & syms) or not fs):
                    gg = [x for x in g if x.get_id() not in pcids]
                    out.append(Implies(And(*gg), f) if gg else f)
                    new = fs
                    for x in gg:
                        new = new | free_syms(x)
                    if not new <= syms:
                        syms |= new
                        changed = True
                else:
                    rest.append((g, f, fs))
            todo = rest
        return out

    def sum_lemmas(self, terms, extra_rounds=1):
        lem = []
        done = set()
        todo = collect_sums(terms)
        for rnd in range(extra_rounds + 1):
            new = []
            for p in todo:
                if p.get_id() in done:
                    continue
                done.add(p.get_id())
                a, e = p.arg(0), p.arg(1)
                F = p.decl()
                if F.name() not in ('psumI', 'psumR'):
                    e1 = simplify(e - 1)
                    x = sel(a, e1)
                    kk = fresh_const('fk', IntSort())
                    if F.name() == 'plast':
                        prev = F(a, e1)
                        lem.append(If(e <= 0, p == -1, p == If(x, e1, prev)))
                        lem.append(And(p >= -1, Or(p < e, p == -1), Implies(p >= 0, sel(a, p))))
                        body = sel(a, kk)
                        if depends_on(body, kk):
                            lem.append(ForAll([kk], Implies(And(kk > p, kk >= 0, kk < e), Not(body))))
                        # records of a running maximum
                        for m in record_max(body, kk):
                            f, h0 = m.arg(0), m.arg(2)
                            full = m.decl()(f, e, h0)
                            fb = sel(f, kk)
                            lem.append(Implies(p >= 0, full == sel(f, p)))
                            lem.append(Implies(p < 0, full == h0))
                            lem.append(ForAll([kk], Implies(And(p >= 0, kk >= 0, kk < p), fb < sel(f, p))))
                            if rnd < extra_rounds:
                                new.append(full)
                    else:
                        prev = F(a, e1, p.arg(2))
                        lem.append(If(e <= 0, p == p.arg(2), p == If(x > prev, x, prev)))
                        lem.append(p >= p.arg(2))
                        body = sel(a, kk)
                        lem.append(ForAll([kk], Implies(And(kk >= 0, kk < e), body <= p)))
                        w = Function('pwit' + F.name()[-1], F.domain(0), IntSort(), F.range(), IntSort())(a, e, p.arg(2))
                        lem.append(Or(p == p.arg(2), And(w >= 0, w < e, p == sel(a, w))))
                    if rnd < extra_rounds:
                        new.append(prev)
                        new += collect_sums([x])
                    continue
                zero = RealVal(0) if F.name() == 'psumR' else IntVal(0)
                e1 = simplify(e - 1)
                prev = F(a, e1)
                x = sel(a, e1)
                lem.append(If(e <= 0, p == zero, p == prev + x))
                if rnd < extra_rounds:
                    new.append(prev)
                    new += collect_sums([x])
            todo = new
        return lem

    def raw_check(self, asserts, timeout, quick=False):
        t = time.time()
        if quick and any(nonlinear(a) for a in asserts):
            # products as opaque terms, then a short attempt with them
            for nl, ms in ((False, 200), (True, 60)):
                s = Solver()
                s.set('timeout', ms)
                s.set('arith.nl', nl)
                for a in asserts:
                    s.add(a)
                r = s.check()
                if r == unsat:
                    break
            self.stats.queries += 1
            self.stats.time += time.time() - t
            return r, s
        if timeout > 0.6 and any(nonlinear(a) for a in asserts):
            # products as opaque terms first
            s = Solver()
            s.set('timeout', int(timeout * 400))
            s.set('arith.nl', False)
            for a in asserts:
                s.add(a)
            if s.check() == unsat:
                self.stats.queries += 1
                self.stats.time += time.time() - t
                return unsat, s
        s = Solver()
        s.set('timeout', int(timeout * 1000))
        for a in asserts:
            s.add(a)
        r = s.check()
        self.stats.queries += 1
        self.stats.time += time.time() - t
        if SLOW and time.time() - t > 0.5:
            import traceback
            if SLOW != '1':
                open('%s/slow%d.txt' % (SLOW, self.stats.queries), 'w').write('\n---- '.join(str(a) for a in asserts))
            print('SLOW %.2f %s' % (time.time() - t, r), [f.name + ':%d' % f.lineno for f in traceback.extract_stack()[-5:-1]], str(asserts[-1])[:300])
        return r, s

    def prove(self, pc, goal, timeout=10.0, tactic=True, depth=0, want_model=True):
        """returns ('proved',None) | ('refuted',model) | ('unknown',reason)"""
        goal = simplify(goal) if not is_quantifier(goal) else goal
        if is_true(goal):
            return 'proved', None
        pc = [p for p in pc if not is_true(p)]
        for p in pc:
            if is_false(p):
                return 'proved', None
            if p.eq(goal):
                return 'proved', None
        key = (tuple(p.get_id() for p in pc), goal.get_id(), self.ver, tactic)
        c = self.cache.get(key)
        if c is not None:
            return c[0]
        res = self._prove(pc, goal, timeout, tactic, depth)
        if res[0] != 'unknown':
            self.cache[key] = (res, pc, goal)
        return res

    def _prove(self, pc, goal, timeout, tactic, depth):
        pcids = {p.get_id() for p in pc}
        seeds = list(pc) + [goal]
        rel = self.relevant(seeds, pcids)
        ng = Not(goal)
        if is_quantifier(goal) and goal.is_forall():
            vs = [fresh_const('sk', goal.var_sort(i)) for i in range(goal.num_vars())]
            ng = Not(substitute_vars(goal.body(), *reversed(vs)))
        # quantifier-free part first: usually enough, and fast
        nar = self.relevant(seeds, pcids, narrow=True)
        light = [e for e in nar + list(pc) if not has_quant(e)] + [ng]
        if len(light) <= len(rel) + len(pc) and not collect_sums(light):
            r, s = self.raw_check(light, min(timeout, 0.7), quick=not tactic)
            if r == unsat:
                return 'proved', None
        if not tactic and any(nonlinear(e) for e in rel + light):
            timeout = min(timeout, 0.5)
        if tactic and timeout >= 1 and any(has_idiv(e) for e in light) and self.div_check(light, min(timeout, 3.0)):
            return 'proved', None
        if tactic and depth == 0 and not is_quantifier(goal) and first_ite(goal) is not None and any(nonlinear(e) for e in light) and not collect_sums([goal]):
            if self.by_paths([e for e in rel if not has_quant(e)], list(pc), goal, time.time() + max(6.0, min(timeout, 15.0))):
                return 'proved', None
        base = rel + list(pc) + [ng]
        lem = self.sum_lemmas(base)
        sums = collect_sums(base + lem)
        r, s = self.raw_check(base + lem, min(timeout, 1.5) if sums and tactic else timeout)
        if r == unsat:
            return 'proved', None
        extra = []
        if tactic and sums and depth < 3:
            core = collect_sums(base)
            for cs in ([core, sums] if len(sums) > len(core) else [sums]):
                extra = self.sum_tactic(base, cs, timeout, depth)
                if extra:
                    own = free_syms(ng)
                    lean = [p for p in pc if free_syms(p) <= own and not has_quant(p)] + [e for e in extra if free_syms(e) <= own] + [ng]
                    if self.raw_check(lean, min(timeout, 2.0))[0] == unsat:
                        return 'proved', None
                    r2, s2 = self.raw_check(base + lem + extra, timeout)
                    if r2 == unsat:
                        return 'proved', None
                    r, s = r2, s2
        if r == sat:
            m = s.model()
            bad = [e for e in base if is_false(m.eval(e, model_completion=True))]
            if not bad:
                return 'refuted', m
            if DEBUG:
                print('MODEL-CHECK', [str(e)[:300] for e in bad])
            return 'unknown', 'the solver reported a model that does not satisfy the query'
        if tactic and timeout >= 4 and depth == 0:
            if self.inst_check(base + lem + (extra or []), 4.0):
                return 'proved', None
        return 'unknown', s.reason_unknown()

    def by_paths(self, facts, pc, goal, end):
        """one query per program path that reaches the clause"""
        done, todo = [], [[c for p in pc for c in conjuncts(p)]]
        while todo:
            if len(todo) + len(done) > 40 or time.time() > end:
                return False
            p = todo.pop()
            ors = [e for e in p if is_or(e) and any(is_and(d) for d in e.children()) and big_term(e, 60)]
            if not ors:
                done.append(p)
                continue
            o = ors[0]
            rest = [e for e in p if not e.eq(o)]
            ids = {e.get_id() for e in rest}
            for d in o.children():
                cs = conjuncts(d)
                if any(negated(c).get_id() in ids for c in cs):
                    continue
                todo.append(rest + [c for c in cs if c.get_id() not in ids])
        for p in done:
            known = [(e, BoolVal(True)) for e in p] + [(e.arg(0), BoolVal(False)) for e in p if is_not(e)]
            g = simplify(substitute(goal, *known))
            small = [e for e in p if not big_term(e, 60)]
            dead, q = False, small
            for e in p:
                if big_term(e, 60):
                    e2 = simplify(substitute(e, *[k for k in known if not (k[0].eq(e) or is_not(e) and k[0].eq(e.arg(0)))])) if not is_quantifier(e) and (is_not(e) and is_or(e.arg(0)) or e.decl().kind() == Z3_OP_ITE) else e
                    if is_false(e2):
                        dead = True
                        break
                    if not is_true(e2):
                        q = q + [e2]
            if dead:
                continue
            hyps = facts + [e for e in q if not has_quant(e)]
            if not self.split_check(hyps, g, end):
                return False
        return True

    def split_check(self, hyps, goal, end, depth=0):
        """by cases over the conditions in the goal; in each case rewrite with the equations that define a sequence element"""
        if time.time() > end:
            return False
        goal = simplify(goal)
        if is_true(goal):
            return True
        c = first_ite(goal)
        if DEBUG:
            print('SPLIT', depth, 'on', str(c)[:200].replace('\n', ' '), 'size', len(str(goal)), 'left %.1f' % (end - time.time()))
        if c is not None and depth < 14:
            for v in (True, False):
                g2 = substitute(goal, (c, BoolVal(v)))
                h = simplify(c if v else Not(c))
                if is_false(h):
                    continue
                for d in (h.children() if is_or(h) else [h]):
                    new = conjuncts(d)
                    new = [e for e in new if not has_quant(e)]
                    small = [e for e in new if len(free_syms(e)) < 12]
                    if depth and small and self.raw_check([e for e in hyps if any(free_syms(e) & free_syms(f) for f in small)] + small, 0.2, quick=True)[0] == unsat:
                        continue
                    if not self.split_check(hyps + new, g2, end, depth + 1):
                        return False
            return True
        its = []
        for e in hyps:
            if is_eq(e) and e.arg(0).sort() == IntSort():
                for a, b in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                    if is_const(a) and a.decl().name().startswith('it!') and not contains(b, a) and not any(a.eq(q[0]) for q in its):
                        its.append((a, b))
                        break
        les = {(e.arg(0).get_id(), e.arg(1).get_id()) if e.decl().kind() == Z3_OP_LE else (e.arg(1).get_id(), e.arg(0).get_id()): e for e in hyps
               if is_app(e) and e.decl().kind() in (Z3_OP_LE, Z3_OP_GE) and e.arg(0).sort() == IntSort()}
        for (i, j), e in les.items():
            if (j, i) in les:
                for a, b in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                    if is_const(a) and a.decl().kind() == Z3_OP_UNINTERPRETED and a.decl().name().startswith('it!') and not any(a.eq(q[0]) for q in its):
                        its.append((a, b))
                        break
        if its:
            hyps = [substitute(e, *its) for e in hyps]
            goal = simplify(substitute(goal, *its))
        eqs = []
        for e in hyps:
            if is_eq(e) and e.arg(0).sort() in (RealSort(), IntSort()):
                for a, b in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                    if is_app(a) and a.decl().kind() == Z3_OP_UNINTERPRETED and a.decl().name().startswith('seq') and first_ite(b) is None and not contains(b, a):
                        eqs.append((a, b))
                        break
        g = goal
        sub = lambda e: substitute(e, *eqs) if eqs else e
        g = simplify(sub(sub(g)), som=True)
        if is_true(g):
            return True
        hs = [simplify(sub(sub(e)), som=True) for e in hyps]
        hs = [e for e in hs if not is_true(e)]
        for t in roots(g):
            hs.append(simplify(Implies(t.arg(0) >= 0, And(t >= 0, t * t == t.arg(0)))))
        own = free_syms(g)
        for sel in (lambda e: free_syms(e) <= own, lambda e: free_syms(e) & own and first_ite(e) is None, lambda e: True):
            q = [e for e in hs if sel(e)]
            if self.raw_check(q + [Not(g)], 1.0, quick=True)[0] == unsat or self.raw_check(q + [Not(g)], 2.0)[0] == unsat:
                return True
        if DEBUG:
            print('SPLIT leaf', str(g)[:600], 'ITS', its, 'EQS', [str(a) for a, b in eqs])

        return False

    def inst_check(self, base, timeout):
        """ground instances of the quantified assertions at the index terms that occur, then without quantifiers (sound for unsat)"""
        ground, quants = [], []

        def norm(e, guard):
            # guard -> e
            if is_and(e):
                for c in e.children():
                    norm(c, guard)
            elif is_not(e) and is_quantifier(e.arg(0)) and not e.arg(0).is_lambda():
                q = e.arg(0)
                vs = [fresh_const('sk', q.var_sort(i)) for i in range(q.num_vars())]
                if q.is_exists():
                    quants.append((guard, vs, Not(substitute_vars(q.body(), *reversed(vs)))))
                else:
                    norm(Not(substitute_vars(q.body(), *reversed(vs))), guard)
            elif is_quantifier(e) and not e.is_lambda():
                vs = [fresh_const('sk', e.var_sort(i)) for i in range(e.num_vars())]
                b = substitute_vars(e.body(), *reversed(vs))
                if e.is_forall():
                    quants.append((guard, vs, b))
                else:
                    norm(b, guard)
            elif is_implies(e) and has_quant(e) and not has_quant(e.arg(0)):
                norm(e.arg(1), guard + [e.arg(0)])
            elif is_not(e) and is_not(e.arg(0)):
                norm(e.arg(0).arg(0), guard)
            elif is_not(e) and is_or(e.arg(0)):
                for c in e.arg(0).children():
                    norm(Not(c), guard)
            elif not has_quant(e):
                ground.append(Implies(And(*guard), e) if guard else e)
            elif is_not(e) and is_implies(e.arg(0)):
                norm(e.arg(0).arg(0), guard)
                norm(Not(e.arg(0).arg(1)), guard)
            elif is_or(e):
                qs = [c for c in e.children() if has_quant(c)]
                if len(qs) == 1:
                    norm(qs[0], guard + [Not(c) for c in e.children() if not c.eq(qs[0])])
        for e in base:
            norm(e, [])
        quants = [(g, vs, b) for g, vs, b in quants if len(vs) <= 2 and all(v.sort() == IntSort() for v in vs) and not has_quant(b)]
        if not quants:
            inst = []
        else:
            terms, seen = [], set()
            idx = {}

            def scan(e):
                st = [e]
                while st:
                    t = st.pop()
                    if t.get_id() in seen:
                        continue
                    seen.add(t.get_id())
                    if is_quantifier(t):
                        continue
                    if is_app(t):
                        k = t.decl().kind()
                        if k == Z3_OP_SELECT or (k == Z3_OP_UNINTERPRETED and t.num_args() and t.decl().name() not in SUMN):
                            for a in t.children():
                                if a.sort() == IntSort() and not is_int_value(a) and a.get_id() not in idx and len(idx) < 14:
                                    idx[a.get_id()] = a
                                    terms.append(a)
                        elif t.decl().name() in SUMN and quants:
                            # positions next to the end of a fold
                            for a in (simplify(t.arg(1) - 1), simplify(t.arg(1))):
                                if not is_int_value(a) and a.get_id() not in idx and len(idx) < 18:
                                    idx[a.get_id()] = a
                                    terms.append(a)
                        st.extend(t.children())
            for e in reversed(ground):
                scan(e)
            inst = []
            for a in list(terms):
                if is_const(a) and a.decl().name().startswith('bound!'):
                    terms.append(simplify(a - 1))
            for g, vs, b in quants:
                if len(vs) == 1:
                    combos = [(t,) for t in terms]
                else:
                    combos = [(t, u) for t in terms[:8] for u in terms[:8]]
                for cb in combos:
                    i = substitute(b, *zip(vs, cb))
                    inst.append(Implies(And(*g), i) if g else i)
        light = ground + inst
        if inst and collect_sums(inst):
            light = light + [l for l in self.sum_lemmas(inst, 0) if not has_quant(l)]
        r, s = self.raw_check(light, timeout)
        if r == unsat:
            return True
        if any(has_idiv(e) for e in light) and self.div_check(light, timeout):
            return True
        return self.nra_check(light, timeout)

    def div_check(self, asserts, timeout):
        """integer quotients by a constant become named integers, and products x*y of two inputs that occur only together
        become one named integer (both generalise the query: sound for unsat)"""
        muls, seen = [], set()

        def scan(t):
            if t.get_id() in seen:
                return
            seen.add(t.get_id())
            if is_app(t):
                if t.decl().kind() == Z3_OP_MUL and t.sort() == IntSort():
                    muls.append([c for c in t.children() if is_const(c) and not is_int_value(c)])
                for c in t.children():
                    scan(c)
        for a in asserts:
            scan(a)
        atoms = {}
        for m in muls:
            for c in m:
                atoms.setdefault(c.get_id(), [c, 0])
        pairs = []
        used = set()
        ids = {k: frozenset(n for n, m in enumerate(muls) if any(c.get_id() == k for c in m)) for k in atoms}
        for a in ids:
            for b in ids:
                if a < b and a not in used and b not in used and ids[a] == ids[b] and all(sum(c.get_id() == a for c in muls[n]) == 1 == sum(c.get_id() == b for c in muls[n]) for n in ids[a]):
                    used |= {a, b}
                    pairs.append((atoms[a][0], atoms[b][0], FreshConst(IntSort(), 'prod')))
        side, memo, quot = [], {}, {}
        for a, b, v in pairs:
            side += [Implies(And(a >= 0, b >= 0), v >= 0), Implies(And(a >= 1, b >= 1), And(v >= a, v >= b)), Implies(Or(a == 0, b == 0), v == 0)]

        def go(t):
            i = t.get_id()
            if i in memo:
                return memo[i][1]
            r = t
            if is_app(t) and t.num_args():
                d = t.decl().kind()
                if d == Z3_OP_MUL and t.sort() == IntSort():
                    ch = list(t.children())
                    for a, b, v in pairs:
                        if any(c.eq(a) for c in ch):
                            ch = [c for c in ch if not c.eq(a) and not c.eq(b)] + [v]
                    ch = [go(c) for c in ch]
                    r = Product(ch) if len(ch) > 1 else ch[0]
                elif d == Z3_OP_IDIV and is_int_value(t.arg(1)) and t.arg(1).as_long() > 0:
                    k, e = t.arg(1).as_long(), go(t.arg(0))
                    key = simplify(e, som=True).sexpr() + '/%d' % k
                    r = quot.get(key)
                    if r is None:
                        r = quot[key] = FreshConst(IntSort(), 'quot')
                        even = False
                        if k == 2 and e.decl().kind() == Z3_OP_MUL and e.num_args() == 2:
                            x = simplify(e.arg(0) - e.arg(1), som=True)
                            even = is_int_value(x) and abs(x.as_long()) == 1
                        side.append(2 * r == e if even else And(k * r <= e, e < k * r + k))
                else:
                    cs = [go(c) for c in t.children()]
                    if any(not c.eq(o) for c, o in zip(cs, t.children())):
                        r = And(*cs) if d == Z3_OP_AND else Or(*cs) if d == Z3_OP_OR else Sum(cs) if d == Z3_OP_ADD else Product(cs) if d == Z3_OP_MUL else Distinct(*cs) if d == Z3_OP_DISTINCT else substitute(t, *[(o, c) for o, c in zip(t.children(), cs)]) if d == Z3_OP_SUB and len(cs) > 2 else t.decl()(*cs)
            memo[i] = (t, r)
            return r
        try:
            fs = [go(a) for a in asserts]
        except Z3Exception:
            return False
        s = Solver()
        s.set('timeout', int(timeout * 1000))
        for f in fs + side:
            s.add(f)
        t = time.time()
        r = s.check()
        self.stats.queries += 1
        self.stats.time += time.time() - t
        return r == unsat

    def nra_check(self, asserts, timeout):
        """everything that is not real arithmetic or Boolean structure becomes an arbitrary value (sound for unsat), for the nonlinear solver"""
        if time.time() - getattr(self, 'nra_t', 0) < 0:
            return False
        sub, memo = {}, {}

        def opaque(t):
            # ToReal(int), select, uninterpreted, ...
            k = t.sexpr() if t.sort() == IntSort() else None
            v = sub.get(t.get_id())
            if v is None:
                v = (t, FreshConst(t.sort(), 'nr'))
                sub[t.get_id()] = v
            return v[1]

        def go(t):
            i = t.get_id()
            if i in memo:
                return memo[i][1]
            r = t
            if is_app(t):
                d = t.decl().kind()
                if t.sort() == RealSort():
                    if d in (Z3_OP_ADD, Z3_OP_SUB, Z3_OP_MUL, Z3_OP_DIV, Z3_OP_UMINUS, Z3_OP_ITE, Z3_OP_POWER):
                        r = t.decl()(*[go(c) for c in t.children()]) if d not in (Z3_OP_ADD, Z3_OP_MUL) else (Sum([go(c) for c in t.children()]) if d == Z3_OP_ADD else Product([go(c) for c in t.children()]))
                        if d == Z3_OP_DIV:
                            n, m = go(t.arg(0)), go(t.arg(1))
                            if is_rational_value(m):
                                r = n / m
                            else:
                                r = opaque(t)
                                side.append(Or(m == 0, r * m == n))
                    elif is_rational_value(t):
                        r = t
                    elif d == Z3_OP_TO_REAL and is_int_value(t.arg(0)):
                        r = RealVal(t.arg(0).as_long())
                    else:
                        r = opaque(t)
                elif t.sort() == BoolSort():
                    if d in (Z3_OP_LE, Z3_OP_GE, Z3_OP_LT, Z3_OP_GT, Z3_OP_EQ, Z3_OP_DISTINCT) and t.arg(0).sort() == IntSort():
                        a, b = ints(t.arg(0)), ints(t.arg(1))
                        r = t.decl().kind()
                        r = {Z3_OP_LE: a <= b, Z3_OP_GE: a >= b, Z3_OP_LT: a < b, Z3_OP_GT: a > b, Z3_OP_EQ: a == b, Z3_OP_DISTINCT: a != b}[r]
                    elif d in (Z3_OP_AND, Z3_OP_OR, Z3_OP_NOT, Z3_OP_IMPLIES, Z3_OP_ITE, Z3_OP_XOR) or (d in (Z3_OP_LE, Z3_OP_GE, Z3_OP_LT, Z3_OP_GT, Z3_OP_EQ, Z3_OP_DISTINCT) and t.arg(0).sort() in (RealSort(), BoolSort())):
                        cs = [go(c) for c in t.children()]
                        r = And(*cs) if d == Z3_OP_AND else Or(*cs) if d == Z3_OP_OR else t.decl()(*cs)
                    elif is_true(t) or is_false(t):
                        r = t
                    else:
                        r = opaque(t)
            memo[i] = (t, r)
            return r

        def ints(t):
            # integers relaxed to reals, consistently with ToReal
            if is_int_value(t):
                return RealVal(t.as_long())
            d = t.decl().kind()
            if d == Z3_OP_ADD:
                return Sum([ints(c) for c in t.children()])
            if d == Z3_OP_MUL:
                return Product([ints(c) for c in t.children()])
            if d == Z3_OP_SUB:
                return ints(t.arg(0)) - ints(t.arg(1))
            if d == Z3_OP_UMINUS:
                return -ints(t.arg(0))
            if d == Z3_OP_ITE:
                return If(go(t.arg(0)), ints(t.arg(1)), ints(t.arg(2)))
            return go(ToReal(t))
        side = []
        try:
            fs = [go(a) for a in asserts]
        except Exception:
            return False
        g = Goal()
        for f in fs + side:
            g.add(f)
        s = Then('simplify', 'solve-eqs', 'qfnra').solver() if False else Tactic('qfnra').solver()
        s.set('timeout', int(timeout * 1000))
        for f in fs + side:
            s.add(f)
        t = time.time()
        r = s.check()
        self.stats.queries += 1
        self.stats.time += time.time() - t
        if SLOW and time.time() - t > 0.5:
            print('SLOW nra %.2f %s' % (time.time() - t, r))
        return r == unsat

    def sum_tactic(self, base, sums, timeout, depth):
        """sound consequences about finite sums: permutation invariance, congruence, sign, monotonicity"""
        perm = []
        ctx = list(base)
        cands = [(p, p.arg(0), p.arg(1)) for p in sums]
        for p in sums:
            for so, orig, hi in self.perms:
                if so.decl().name() in free_syms(p.arg(0)) and decided_eq(p.arg(1), hi) is True:
                    k = fresh_const('pk', IntSort())
                    b = sel(p.arg(0), k)
                    b2 = substitute(b, (Select(so, k), Select(orig, k)))
                    if so.decl().name() not in free_syms(b2):
                        perm.append((p.decl()(Lambda([k], simplify(b2)), p.arg(1)), p))
        eqs = []
        if depth == 0:
            # a search result that is one of the inputs
            cs = {}
            for p in sums:
                if p.decl().name() == 'plast':
                    for c in int_consts(base[-1]):
                        lean = [b for b in base[:-1] if SUMN.isdisjoint(free_syms(b)) and not nonlinear(b)] + self.sum_lemmas([p]) + [p != c]
                        if self.raw_check(lean, 0.8)[0] == unsat or self.inst_check(lean, 0.8) or self.raw_check(base[:-1] + self.sum_lemmas([p]) + [p != c], 1.5)[0] == unsat:
                            cs[p.get_id()] = (p, c)
                            break
            if cs:
                sub = list(cs.values())
                eqs += [p == c for p, c in sub]
                eqs += [substitute(b, *sub) for b in base if 'plast' in free_syms(b)]
        for q, p in perm:
            eqs.append(q == p)
            cands.append((q, q.arg(0), q.arg(1)))
        qf = [x for x in ctx if not has_quant(x)]
        qs = [x for x in ctx if is_quantifier(x) and x.is_forall() and x.num_vars() == 1 and x.var_sort(0) == IntSort()]
        budget = [time.time() + max(4.0, timeout)]

        def at(k, e, g, t):
            if is_true(g):
                return True
            if time.time() > budget[0]:
                return False
            idx = [k] + [i for i in sel_indices(g) if not i.eq(k)][:4]
            inst = [substitute_vars(x.body(), i) for x in qs for i in idx]
            own = free_syms(g)
            lean = [x for x in inst if free_syms(x) <= own and not has_quant(x)] + [k >= 0, k < e]
            if self.raw_check(lean + [Not(g)], 0.3)[0] == unsat:
                return True
            return self.prove_ctx(qf + inst + [k >= 0, k < e], g, t, depth + 1)

        sign = {}

        def nonneg(a, e):
            # the sign of the terms of a is the same question for every upper end
            if a.get_id() not in sign:
                k = fresh_const('ck', IntSort())
                sign[a.get_id()] = at(k, k + 1, simplify(sel(a, k) >= 0), 0.3), []
            ok, tried = sign[a.get_id()]
            if ok or len(tried) > 2:
                return ok
            tried.append(e)
            k = fresh_const('ck', IntSort())
            return at(k, e, simplify(sel(a, k) >= 0), 0.5)
        for p, a, e in cands:
            if p.decl().name() not in ('psumI', 'psumR'):
                continue
            k = fresh_const('ck', IntSort())
            if nonneg(a, e):
                eqs.append(p >= 0)
                if p.decl().name() == 'psumI' and at(k, e, simplify(sel(a, k) <= 1), 0.5):
                    eqs.append(Implies(e >= 0, p <= e))
                for q, b, f in cands:
                    if not q.eq(p) and a.eq(b):
                        eqs.append(Implies(f <= e, q <= p))
                        if not has_quant(a.body() if is_quantifier(a) else a):
                            eqs.append(Implies(And(f >= 0, f < e), q + sel(a, f) <= p))
                eqs.append(Implies(e >= 1, sel(a, IntVal(0)) <= p))
        lin = [x for x in qf if SUMN.isdisjoint(free_syms(x)) and not nonlinear(x) and small(x, 120)]
        for i in range(len(cands)):
            for j in range(i + 1, len(cands)):
                p, a, e = cands[i]
                q, b, f = cands[j]
                if p.eq(q) or p.decl().name() != q.decl().name() or any(not p.arg(m).eq(q.arg(m)) for m in range(2, p.num_args())):
                    continue
                same_e = decided_eq(e, f)
                if same_e is None:
                    if time.time() > budget[0]:
                        continue
                    rr, _ = self.raw_check(lin + [e != f], 0.15)
                    same_e = rr == unsat
                if not same_e:
                    continue
                if a.eq(b):
                    eqs.append(p == q)
                    continue
                k = fresh_const('ck', IntSort())
                if at(k, e, simplify(sel(a, k) == sel(b, k)), 1.0):
                    eqs.append(p == q)
        return eqs

    def prove_ctx(self, ctx, g, timeout, depth):
        lem = self.sum_lemmas(ctx[-2:] + [g])
        r, _ = self.raw_check(ctx + lem + [Not(g)], timeout)
        if r == unsat:
            return True
        if depth < 3:
            sums = collect_sums([g])
            if sums:
                ex = self.sum_tactic(ctx, sums, timeout, depth)
                if ex:
                    r, _ = self.raw_check(ctx + lem + ex + [Not(g)], timeout)
                    return r == unsat
        return False

    def feasible(self, pc, timeout=0.5):
        pc = [p for p in pc if not is_true(p)]
        if any(is_false(p) for p in pc):
            return False
        key = ('f',) + tuple(p.get_id() for p in pc) + (self.ver,)
        c = self.cache.get(key)
        if c is not None:
            return c[0]
        rel = [f for f in self.relevant(pc, {p.get_id() for p in pc}, narrow=True) if not has_quant(f)]
        r, _ = self.raw_check(rel + [p for p in pc if not has_quant(p)], timeout, quick=True)
        v = r != unsat
        self.cache[key] = (v, pc)
        return v


def contains(e, t):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.eq(t):
            return True
        if x.get_id() not in seen:
            seen.add(x.get_id())
            todo += x.children()
    return False


def first_ite(e, lim=5000):
    """the condition of an outermost ite in e"""
    todo = [e]
    while todo and lim:
        t = todo.pop(0)
        lim -= 1
        if is_app(t) and t.decl().kind() == Z3_OP_ITE:
            return t.arg(0)
        todo += t.children()
    return None


def roots(e):
    """the square roots that occur in e"""
    out, todo, seen = [], [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if is_app(x) and x.decl().kind() == Z3_OP_UNINTERPRETED and x.decl().name() == 'sqrt':
            out.append(x)
        todo += x.children()
    return out


def negated(e):
    return e.arg(0) if is_not(e) else Not(e)


def big_term(e, n):
    todo = [e]
    while todo:
        t = todo.pop()
        n -= 1
        if n < 0:
            return True
        todo += t.children()
    return False


def conjuncts(e):
    if is_and(e):
        return [d for c in e.children() for d in conjuncts(c)]
    return [e]


def has_idiv(e, cache={}):
    r = cache.get(e.get_id())
    if r is None:
        k = is_app(e) and e.decl().kind()
        r = (k == Z3_OP_IDIV and not is_int_value(e.arg(0)) and nonlinear(e.arg(0)), e)
        if not r[0] and is_app(e):
            r = (any(has_idiv(c) for c in e.children()), e)
        cache[e.get_id()] = r
    return r[0]


def nonlin_q(es):
    return any(has_quant(e) and nonlinear(e) for e in es)


def nonlinear(e, cache={}):
    key = e.get_id()
    r = cache.get(key)
    if r is None:
        r = False
        seen, st = set(), [e]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if is_quantifier(x):
                st.append(x.body())
                continue
            if is_app(x):
                k = x.decl().kind()
                if k == Z3_OP_MUL and sum(not (is_rational_value(c) or is_int_value(c)) for c in x.children()) > 1 or k == Z3_OP_DIV and not is_rational_value(x.arg(1)):
                    r = True
                    break
                st.extend(x.children())
        cache[key] = (e, r)
        return r
    return r[1]


def newest(fs, cache={}):
    r = cache.get(fs)
    if r is None:
        best, r = -2, None
        for n in fs:
            try:
                c = int(n.replace('@', '').rsplit('!', 1)[1]) if '!' in n else -1
            except ValueError:
                c = -1
            if c > best:
                best, r = c, n
        cache[fs] = r
    return r


def has_quant(e, cache={}):
    key = e.get_id()
    r = cache.get(key)
    if r is None:
        r = (e, has_quant0(e))
        cache[key] = r
    return r[1]


def has_quant0(e):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if is_quantifier(x) and not x.is_lambda():
            return True
        if is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return False
