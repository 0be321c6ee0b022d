"""Loops.  For every loop the engine looks for closed forms of the variables it modifies as functions of the number `it` of
completed iterations (counters, finite sums, point-wise array updates, flags, last values); what has no closed form is kept as
an unknown sequence constrained by candidate invariants (Houdini).  Every closed form and every candidate is *checked* by
induction (base, step) against one symbolic execution of the loop body; nothing unchecked is used."""
import os
import time
from exec import *

DBG = os.environ.get('CPPVC_DEBUG')


class Giveup(Unsupported):
    pass


class Iter:
    """result of one generic iteration"""
    pass


def split(r, base):
    """r = ite(G, V, base)"""
    if r.eq(base):
        return BoolVal(False), base
    if is_ite(r):
        g1, v1 = split(r.arg(1), base)
        g2, v2 = split(r.arg(2), base)
        c = r.arg(0)
        if is_false(g1) and is_false(g2):
            return BoolVal(False), base
        if is_false(g1):
            return simplify(And(Not(c), g2)), v2
        if is_false(g2):
            return simplify(And(c, g1)), v1
        return simplify(Or(And(c, g1), And(Not(c), g2))), mk_ite(c, v1, v2)
    return BoolVal(True), r


def delta(r, h):
    """d with r = h + d, by pushing through ites; None if h is not an additive part everywhere"""
    if r.eq(h):
        return RealVal(0) if h.sort() == RealSort() else IntVal(0)
    if is_ite(r):
        a, b = delta(r.arg(1), h), delta(r.arg(2), h)
        if a is None or b is None:
            return None
        return mk_ite(r.arg(0), a, b)
    d = simplify(r - h, som=True)
    if depends(d, h):
        if is_add(r):
            # h + ite(.., h-free)
            rest = [c for c in r.children() if not c.eq(h)]
            if len(rest) == len(r.children()) - 1:
                d2 = rest[0] if len(rest) == 1 else Sum(rest)
                if not depends(d2, h):
                    return d2
            # one ite child containing h, e.g. ite(c, h, h+1) + ...
            dep = [c for c in r.children() if depends(c, h)]
            if len(dep) == 1:
                d1 = delta(dep[0], h)
                if d1 is not None and not depends(d1, h):
                    return Sum([d1] + [c for c in r.children() if not c.eq(dep[0])])
        return None
    return d


def depends(e, h):
    """does term e contain the term h (a constant or function application)"""
    if is_const(h):
        return h.decl().name() in free_syms(e)
    seen = set()
    st = [e]
    while st:
        y = st.pop()
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        if y.eq(h):
            return True
        if is_quantifier(y):
            st.append(y.body())
        else:
            st.extend(y.children())
    return False


def lift_ite(e):
    """(x == ite(c,a,b)) -> ite(c, x==a, x==b) at the top of atoms, and Addr equalities by components"""
    cache = {}

    def go(t):
        k = t.get_id()
        if k in cache:
            return cache[k][1]
        r = t
        if is_quantifier(t) or not is_app(t):
            pass
        elif t.decl().kind() == Z3_OP_EQ and t.arg(0).sort() == Addr:
            a, b = t.arg(0), t.arg(1)
            if is_ite(b):
                r = go(simplify(Or(And(b.arg(0), a == b.arg(1)), And(Not(b.arg(0)), a == b.arg(2)))))
            elif is_ite(a):
                r = go(b == a)
            else:
                if is_app(a) and a.decl().name() == 'A' and a.num_args() == 4:
                    a, b = b, a
                if is_app(b) and b.decl().name() == 'A' and b.num_args() == 4:
                    r = And(Addr.is_A(a), Addr.site(a) == b.arg(0), Addr.k1(a) == b.arg(1), Addr.k2(a) == b.arg(2), Addr.k3(a) == b.arg(3))
        elif t.decl().kind() in (Z3_OP_AND, Z3_OP_OR, Z3_OP_NOT, Z3_OP_ITE) and t.sort() == BoolSort():
            ch = [go(c) for c in t.children()]
            k2 = t.decl().kind()
            r = And(*ch) if k2 == Z3_OP_AND else Or(*ch) if k2 == Z3_OP_OR else Not(ch[0]) if k2 == Z3_OP_NOT else And(Implies(ch[0], ch[1]), Implies(Not(ch[0]), ch[2]))
        cache[k] = (t, r)
        return r
    return go(e)


def atoms(e):
    out = []
    seen = set()
    st = [e]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if is_quantifier(t):
            continue
        if is_app(t) and t.sort() == BoolSort() and t.decl().kind() in (Z3_OP_AND, Z3_OP_OR, Z3_OP_NOT, Z3_OP_ITE, Z3_OP_IMPLIES):
            st.extend(t.children())
        elif is_app(t) and t.sort() == BoolSort():
            out.append(t)
    return out


def linear_in(e, it):
    """e = c*it + r with numeric c, r free of it; returns (c, r) or None"""
    r0 = simplify(substitute(e, (it, IntVal(0))))
    r1 = simplify(substitute(e, (it, IntVal(1))))
    c = simplify(r1 - r0, som=True)
    if not is_int_value(c):
        return None
    d = simplify(e - (c * it + r0), som=True)
    if is_int_value(d) and d.as_long() == 0:
        return c.as_long(), r0
    return None


def lin_sym(e, it):
    """e = c*it + r with symbolic c free of it"""
    r0 = simplify(substitute(e, (it, IntVal(0))), som=True)
    r1 = simplify(substitute(e, (it, IntVal(1))), som=True)
    c = simplify(r1 - r0, som=True)
    if depends(c, it):
        return None
    d = simplify(e - (c * it + r0), som=True)
    if is_int_value(d) and d.as_long() == 0:
        return c, r0
    return None


class LoopEngine:
    def __init__(self, x):
        self.x = x
        self.depth = 0
        self.budget = None

    # ---- one iteration -------------------------------------------------------------------------------------------
    def iterate(self, fns, state, it=None, loud=False):
        x = self.x
        cond_fn, body_fn, inc_fn = fns
        fr = x.frames[-1]
        ctx = LoopCtx(len(fr.scopes))
        fr.loops.append(ctx)
        rets0, fr.returns = fr.returns, []
        x.sinks.append([])
        env0 = dict(fr.env)
        roots0 = list(fr.roots)
        scopes0 = [list(s) for s in fr.scopes]
        if it is not None:
            x.iters.append(it)
        x.st = state
        if not loud:
            x.quiet += 1
        r = Iter()
        try:
            c = cond_fn()
            r.cond = None
            r.exit = None
            r.next = None
            if not x.st.dead:
                c = simplify(c) if not has_quant(c) else c
                r.cond = c
                r.pre_pc = x.st.pc
                ex = x.st.copy()
                ex.assume(simplify(Not(c)))
                if not ex.dead and x.pr.feasible(ex.pc):
                    r.exit = ex
                x.st = x.st.copy()
                x.st.assume(c)
                if not x.st.dead and x.pr.feasible(x.st.pc):
                    body_fn()
                    lst = [(s, None) for s in [x.st] + ctx.conts if not s.dead]
                    if lst:
                        x.st, _ = x.merge_all(lst)
                        if inc_fn:
                            inc_fn()
                        if not x.st.dead:
                            r.next = x.st
            r.breaks = [s for s in ctx.breaks if not s.dead]
            r.rets = [(s, v) for s, v in fr.returns if not s.dead]
            r.throws = x.sinks[-1]
        finally:
            if not loud:
                x.quiet -= 1
            if it is not None:
                x.iters.pop()
            x.sinks.pop()
            fr.loops.pop()
            fr.returns = rets0
            fr.scopes = scopes0
            fr.env = env0
            fr.roots = roots0
        return r

    def run(self, stmt, cond_fn, body_fn, inc_fn):
        x = self.x
        if x.st.dead:
            return
        fns = (cond_fn, body_fn, inc_fn)
        if self.concrete(fns):
            return
        if x.mode == 'bmc':
            return self.bounded(fns)
        self.depth += 1
        try:
            self.summarise(stmt, fns)
        finally:
            self.depth -= 1

    def concrete(self, fns, limit=16):
        """complete unrolling when the trip count is decided by constants"""
        x = self.x
        s0 = x.st.copy()
        nob, nr, nth, nf = len(x.obls), len(x.frames[-1].returns), len(x.sinks[-1]), len(x.covers)
        nin = len(x.inputs)
        inp0 = dict(x.input_ints)
        ver = x.pr.mark()
        brk = []
        # cheap test of the first condition
        for n in range(limit + 1):
            r0 = self.peek(fns[0])
            if r0 is None:
                break
            if is_false(r0):
                self.iter_concrete_end(fns[0])
                out = [(s, None) for s in [x.st] + brk if not s.dead]
                if out:
                    x.st, _ = x.merge_all(out)
                return True
            if not is_true(r0):
                break
            r = self.iterate(fns, x.st, loud=True)
            x.frames[-1].returns += r.rets
            x.sinks[-1] += r.throws
            brk += r.breaks
            if r.next is None:
                if brk:
                    x.st, _ = x.merge_all([(s, None) for s in brk])
                else:
                    x.st = State(x.st.store, x.st.pc, True)
                return True
            x.st = r.next
        # restore
        del x.obls[nob:]
        del x.frames[-1].returns[nr:]
        del x.sinks[-1][nth:]
        del x.covers[nf:]
        del x.inputs[nin:], x.input_pc[nin:]
        x.input_ints = inp0
        x.pr.reset(ver)
        x.st = s0
        return False

    def peek(self, cond_fn):
        """value of the condition in the current state if it is a literal (state unchanged)"""
        x = self.x
        s0 = x.st
        x.st = s0.copy()
        x.quiet += 1
        x.sinks.append([])
        env0 = dict(x.frames[-1].env)
        try:
            c = cond_fn()
            if x.st.dead or c is None:
                return None
            c = simplify(c) if not has_quant(c) else c
            if is_true(c) or is_false(c):
                return c
            return None
        finally:
            x.quiet -= 1
            x.sinks.pop()
            x.st = s0
            x.frames[-1].env = env0

    def iter_concrete_end(self, cond_fn):
        self.x.st = self.x.st.copy()
        cond_fn()

    def bounded(self, fns):
        """bmc mode: at most x.unroll iterations"""
        x = self.x
        exits = []
        for n in range(x.unroll + 1):
            r = self.iterate(fns, x.st, loud=True)
            x.frames[-1].returns += r.rets
            x.sinks[-1] += r.throws
            if r.exit is not None:
                exits.append(r.exit)
            exits += r.breaks
            if r.next is None:
                break
            x.st = r.next
        x.bounded = True
        if not exits:
            x.st = State(x.st.store, x.st.pc, True)
            return
        x.st, _ = x.merge_all([(s, None) for s in exits])

    # ---- state leaves --------------------------------------------------------------------------------------------
    def leafmap(self, store, keys):
        out = {}
        for k in keys:
            for p, l in leaves(store[k]):
                out[(k, p)] = l
        return out

    def with_leaves(self, store, vals):
        s = dict(store)
        for (k, p), v in vals.items():
            s[k] = set_leaf(s[k], p, v)
        return s

    # ---- summary ---------------------------------------------------------------------------------------------------
    def summarise(self, stmt, fns):
        x = self.x
        t0 = time.time()
        S0 = x.st
        pc0 = S0.pc
        ns0 = x.nsite
        base = dict(S0.store)
        mark0 = x.pr.mark()
        inp0 = dict(x.input_ints)
        it = fresh_const('it', IntSort())
        x.pr.fact((), it >= 0)
        mark1 = x.pr.mark()

        def gen(vals, extra, loud=False, keep=False):
            """generic iteration from base with leaves vals under pc0+extra"""
            m = x.pr.mark()
            i0 = dict(x.input_ints)
            nin = len(x.inputs)
            x.nsite = ns0
            st = State(self.with_leaves(base, vals), pc0, False)
            for c in extra:
                st.assume(c) if not has_quant(c) else setattr(st, 'pc', st.pc + (c,))
            r = self.iterate(fns, st, it, loud)
            r.facts = x.pr.since(m)
            if not keep:
                x.pr.reset(m)
                x.input_ints = i0
                del x.inputs[nin:], x.input_pc[nin:]
            return r

        # (1) modified leaves
        mod = {}
        hs = {}
        for rnd in range(12):
            ctr0 = x_ctr()
            r = gen(hs, [])
            outs = [s for s in ([r.next] if r.next is not None else [])]
            newkeys = [k for s in outs + ([r.exit] if r.exit else []) + r.breaks for k in s.store if isinstance(k, (tuple, str)) and k not in base]
            if newkeys:
                for s in outs + ([r.exit] if r.exit else []) + r.breaks:
                    for k in s.store:
                        if isinstance(k, (tuple, str)) and k not in base:
                            if k[0] == 'alive':
                                base[k] = K(Addr, BoolVal(False))
                            elif isinstance(k, str):
                                base[k] = s.store[k]
                            else:
                                base[k] = map_leaves(lambda l: fresh_const('heap', l.sort()), s.store[k])
                continue
            if r.next is None:
                break
            keys = list(base)
            old = self.leafmap(self.with_leaves(base, hs), keys)
            changed = False
            for k in keys:
                if k not in r.next.store:
                    raise Giveup('loop destroys a location')
                cur, nxt = self.with_leaves(base, hs)[k], r.next.store[k]
                if cur is nxt or val_same(cur, nxt):
                    continue
                a, b = dict(leaves(cur)), dict(leaves(nxt))
                if a.keys() != b.keys():
                    raise Giveup('loop changes the shape of a value')
                for p in a:
                    if val_same(a[p], b[p]):
                        continue
                    if (k, p) in hs:
                        continue
                    if not is_expr(a[p]) or not is_expr(b[p]):
                        raise Giveup('loop changes a reference')
                    h = fresh_const('h', a[p].sort())
                    hs[(k, p)] = h
                    changed = True
                    x.pr.fact((), h >= 0) if p and p[-1] == '#len' and a[p].sort() == IntSort() else None
            if not changed:
                break
        else:
            raise Giveup('loop: modified set does not stabilise')
        h0 = {j: self.leafmap(base, [j[0]])[j] for j in hs}
        if DBG:
            print('  ' * self.depth, 'LOOP at', x.loc(), 'modified', {str(k): h for k, h in hs.items()})
        if r.next is None:
            # body never completes normally: at most one (partial) iteration
            x.st = State(base, pc0, False)
            x.nsite = ns0
            r = self.iterate(fns, x.st, None, loud=True)
            self.finish_once(r)
            return

        # (2),(3) solve
        start_ctr = x_ctr()
        closed = {}      # leaf -> closed form over `it`
        unk = {}         # leaf -> unknown sequence application S(it)
        invs = []        # extra invariant facts over it
        cond_cands = []
        approx = False

        def vals():
            v = dict(hs)
            v.update(closed)
            v.update(unk)
            return v

        def generalise(r, upto):
            """symbols created inside the iteration become functions of it"""
            return

        progress = True
        rounds = 0
        dropped = set()
        bound_tried = set()
        while progress and rounds < 12:
            rounds += 1
            progress = False
            ctr0 = x_ctr()
            r = gen(vals(), [it >= 0] + invs)
            if r.next is None:
                break
            self.fix_fresh(r, it, ctr0)
            # bounds implied by the condition, to rule out wrap-around
            for cnd in self.bound_cands(r.cond, hs, closed, it):
                key = cnd.sexpr()
                if key in bound_tried:
                    continue
                bound_tried.add(key)
                if self.inductive(cnd, r, hs, h0, closed, unk, it, pc0, invs):
                    invs.append(cnd)
                    progress = True
            if progress:
                continue
            nl = self.leafmap(r.next.store, {k for k, _ in hs})
            pend = [j for j in hs if j not in closed and j not in unk]
            others = [hs[j] for j in pend]
            weak = []
            for j in pend:
                if j in dropped:
                    continue
                h = hs[j]
                R = nl[j]
                if self.hides(R, start_ctr):
                    # an inner loop's unknown sequence may hide a dependence on h: only as a last resort
                    weak.append((j, R))
                    continue
                cf = self.solve(h, h0[j], R, it, [o for o in others if not o.eq(h)], list(r.next.pc[len(pc0):]), r)
                if cf is not None:
                    closed[j] = cf
                    progress = True
            if not progress:
                for j, R in weak:
                    if depends(R, hs[j]):
                        continue
                    cf = self.solve(hs[j], h0[j], R, it, [o for o in others if not o.eq(hs[j])], list(r.next.pc[len(pc0):]), r)
                    if cf is not None:
                        closed[j] = cf
                        progress = True
                        break
            if not progress and pend:
                # give up on one pending leaf: unknown sequence (the one least depended upon last)
                cand = [j for j in pend]
                j = self.pick_unknown(cand, hs, nl)
                f = Function(fresh_name('seq'), IntSort(), hs[j].sort())
                unk[j] = f(it)
                progress = True
                approx = True

        # (4) inductive check of all closed forms together
        while True:
            ctr0 = x_ctr()
            r = gen(vals(), [it >= 0] + invs, keep=True)
            if r.next is None:
                # infeasible under the invariants: zero iterations
                break
            self.fix_fresh(r, it, ctr0)
            nl = self.leafmap(r.next.store, {k for k, _ in hs})
            bad = []
            for j in list(closed):
                ok = self.check_closed(j, closed[j], h0[j], nl[j], it, pc0, r)
                if not ok:
                    bad.append(j)
            if not bad:
                break
            if DBG:
                print('  ' * self.depth, 'closed forms rejected', bad)
                for j in bad:
                    print('REJ', closed[j], '\nSTEP', nl[j], '\nH0', h0[j])
            for j in bad:
                del closed[j]
                f = Function(fresh_name('seq'), IntSort(), hs[j].sort())
                unk[j] = f(it)
                approx = True
            invs = [c for c in invs if self.inductive(c, r, hs, h0, closed, unk, it, pc0, [])]
        if DBG:
            for j in closed:
                print('  ' * self.depth, '  closed', j, ':=', str(closed[j])[:300].replace('\n', ' '))
            for j in unk:
                print('  ' * self.depth, '  unknown', j, 'step', str(nl[j])[:300].replace('\n', ' ') if r.next is not None else '')

        # (5) candidate invariants for unknown sequences
        hinv = []
        if unk and r.next is not None:
            if not self.x.havoc_only:
                hinv = self.houdini(unk, closed, h0, nl, it, pc0, r, invs, hs)
            for j in unk:
                if hs[j].sort().kind() == Z3_ARRAY_SORT:
                    hinv += self.segments(unk[j], h0[j], nl[j], it, pc0, r, list(unk.values()))
            if DBG:
                print('  ' * self.depth, '  houdini', hinv)
        x.pr.reset(mark1)
        x.input_ints = dict(inp0)
        # the invariants in terms of the iteration number
        vv = vals()
        sb = [(hs[j], vv[j]) for j in hs if not hs[j].eq(vv[j])]
        seen_inv, invs2 = set(), []
        for c in invs:
            if sb and not has_quant(c):
                c = simplify(substitute(c, *sb))
            elif sb:
                c = substitute(c, *sb)
            if is_true(c) or c.get_id() in seen_inv:
                continue
            seen_inv.add(c.get_id())
            invs2.append(c)
        invs = invs2

        # (6) the generic iteration, loud
        n_inv = len(closed) + len(invs) + len(hinv)
        where = x.loc()
        if not x.quiet:
            x.loops_proved.append({'at': where, 'fn': x.where(), 'closed': len(closed), 'invariants': len(invs) + len(hinv), 'unknown': len(unk)})
        if unk:
            for j in unk:
                x.pr.fact((), Implies(it == 0, unk[j] == h0[j]))
        live_prev = []
        ctr0 = x_ctr()
        quiet_r = gen(vals(), [it >= 0] + invs + hinv)
        if quiet_r.next is not None:
            self.fix_fresh(quiet_r, it, ctr0)
            searching = bool(quiet_r.breaks or quiet_r.rets or quiet_r.throws)
            Ls = [c for c in quiet_r.next.pc[len(pc0):] if not c.eq(it >= 0) and not self.has_local_unknown(c, hs)]
            small = [c for c in Ls if small_term(c, 60) and depends(c, it)]
            if small:
                Lp = substitute(mk_and(small), (it, it - 1))
                live_prev.append(simplify(Or(it == 0, Lp)) if not has_quant(Lp) else Or(it == 0, Lp))
            if Ls and (searching or self.cond_depends_seq(quiet_r.cond, it)):
                k = fresh_const('lk', IntSort())
                Lk = substitute(mk_and(Ls), (it, k))
                live_prev.append(ForAll([k], Implies(And(k >= 0, k < it), Lk)))
        if approx and not x.quiet:
            x.approx.append('loop at %s: %d variables without closed form' % (where, len(unk)))
        if unk and quiet_r.next is not None:
            # previous step of the unknown sequences
            nlq = self.leafmap(quiet_r.next.store, {k for k, _ in hs})
            for j in unk:
                st = nlq[j]
                if not self.has_local_unknown(st, hs):
                    live_prev.append(Or(it == 0, unk[j] == substitute(st, (it, it - 1))))
            for f in quiet_r.facts:
                pass
        facts_prev = []
        ctr0 = x_ctr()
        r = gen(vals(), [it >= 0] + invs + hinv + live_prev, loud=True, keep=True)
        self.fix_fresh(r, it, ctr0, keep=True)
        x.frames[-1].returns += r.rets
        x.sinks[-1] += r.throws
        if r.throws and not x.quiet:
            pass
        if r.exit is None and not r.breaks:
            x.st = State(base, pc0, True)
            return
        ex = r.exit
        if ex is not None and not unk_in_cond(r.cond, unk):
            ex = self.trip(r, ex, it, pc0, only=not (r.breaks or r.rets or r.throws))
        outs = ([ex] if ex is not None else []) + r.breaks
        x.st, _ = x.merge_all([(s, None) for s in outs])
        # drop locals of the body
        if not x.st.dead:
            for k in list(x.st.store):
                if k not in base and not isinstance(k, tuple) and not self.escapes(k):
                    pass
        if DBG:
            print('  ' * self.depth, 'LOOP done in %.2fs' % (time.time() - t0))

    def hides(self, R, start):
        for n in free_syms(R):
            if n.startswith('seq!'):
                m = n[4:].split('@')[0].split('!')[0]
                if m.isdigit() and int(m) > start:
                    return True
        return False

    def escapes(self, k):
        return True

    def finish_once(self, r):
        x = self.x
        x.frames[-1].returns += r.rets
        x.sinks[-1] += r.throws
        outs = ([r.exit] if r.exit is not None else []) + r.breaks + ([r.next] if r.next is not None else [])
        if not outs:
            x.st = State(x.st.store, x.st.pc, True)
            return
        x.st, _ = x.merge_all([(s, None) for s in outs])

    def has_local_unknown(self, e, hs):
        names = {h.decl().name() for h in hs.values()}
        return bool(free_syms(e) & names)

    def cond_depends_seq(self, c, it):
        """condition other than a comparison linear in it"""
        if c is None:
            return False
        for a in atoms(c):
            if depends(a, it):
                if a.decl().kind() in (Z3_OP_LE, Z3_OP_GE, Z3_OP_LT, Z3_OP_GT, Z3_OP_EQ, Z3_OP_DISTINCT) and a.arg(0).sort() == IntSort():
                    if lin_sym(a.arg(0) - a.arg(1), it) is not None:
                        continue
                return True
        return False

    def pick_unknown(self, cand, hs, nl):
        # prefer a leaf whose own recurrence blocks itself (self dependent and not additive)
        def score(j):
            deps = sum(1 for o in cand if o != j and depends(nl[j], hs[o]))
            return (deps, hs[j].sort().kind() == Z3_ARRAY_SORT, str(j))
        return min(cand, key=score)

    # ---- symbols created in an iteration -----------------------------------------------------------------------
    def fix_fresh(self, r, it, ctr0, keep=False):
        """turn solver symbols created during the generic iteration into functions of the iteration number"""
        x = self.x
        states = [s for s in [r.next, r.exit] + r.breaks if s is not None] + [s for s, _ in r.rets] + [s for s, _ in r.throws]
        names = {}

        def scan(e):
            for n in free_syms(e):
                if n not in names and sym_ctr(n) > ctr0:
                    names[n] = DECLS[n]
        for s in states:
            for c in s.pc:
                scan(c)
            for k, v in s.store.items():
                for _, l in leaves(v):
                    if is_expr(l):
                        scan(l)
        for g, f, _ in r.facts:
            scan(f)
            for c in g:
                scan(c)
        # bound names only: quantifier variables are de Bruijn, so whatever is left is free
        if r.cond is not None:
            scan(r.cond)
        if not names:
            return
        subc, subf = [], []
        for n, d in names.items():
            if d.arity() == 0:
                F = Function('%s@' % n, IntSort(), d.range())
                subc.append((d(), F(it)))
            else:
                F = Function('%s@' % n, IntSort(), *[d.domain(i) for i in range(d.arity())], d.range())
                subf.append((d, F(it, *[Var(i, d.domain(i)) for i in range(d.arity())])))

        def sb(e):
            if not (free_syms(e) & names.keys()):
                return e
            if subf:
                e = substitute_funs(e, *subf)
            if subc:
                e = substitute(e, *subc)
            return e
        for s in states:
            s.pc = tuple(sb(c) for c in s.pc)
            s.store = {k: map_terms(sb, v) for k, v in s.store.items()}
        if r.cond is not None:
            r.cond = sb(r.cond)
        r.rets = [(s, map_terms(sb, v) if v is not None and not isinstance(v, LVChoice) else v) for s, v in r.rets]
        # facts about them, for every iteration
        for g, f, _ in r.facts:
            ff = free_syms(f)
            if not (ff & names.keys()) and not any(free_syms(c) & names.keys() for c in g):
                continue
            g2 = tuple(sb(c) for c in g)
            f2 = sb(f)
            x.pr.fact(g2, f2)
            k = fresh_const('fk', IntSort())
            body = Implies(And(k >= 0, *[substitute(c, (it, k)) for c in g2]), substitute(f2, (it, k)))
            try:
                x.pr.fact((), ForAll([k], body))
            except Exception:
                pass
        if keep:
            for o in x.obls:
                if any(free_syms(c) & names.keys() for c in o.pc) or (free_syms(o.goal) & names.keys()):
                    o.pc = tuple(sb(c) for c in o.pc)
                    o.goal = sb(o.goal)
            x.inputs = [(n, k, sb(c), None if l is None else tuple(sb(q) for q in l) if isinstance(l, tuple) else sb(l)) for n, k, c, l in x.inputs]
            x.input_pc = [tuple(sb(c) for c in pc) for pc in x.input_pc]
            x.covers = [(n, tuple(sb(c) for c in pc)) for n, pc in x.covers]

    # ---- solving one recurrence -----------------------------------------------------------------------------------
    def solve(self, h, h0, R, it, others, pcs, r):
        x = self.x
        if any(depends(R, o) for o in others):
            # maybe only through irrelevant parts
            return None
        s = h.sort()
        if s.kind() == Z3_ARRAY_SORT:
            return self.solve_array(h, h0, R, it, pcs)
        if s == BoolSort():
            return self.solve_bool(h, h0, R, it)
        if not depends(R, h):
            # last value
            return mk_ite(it == 0, h0, substitute(R, (it, it - 1)))
        if s in (IntSort(), RealSort()):
            d = delta(R, h)
            if d is None:
                R2 = simplify(R)
                d = delta(R2, h)
            if d is None or depends(d, h):
                m = self.solve_max(h, h0, R, it)
                return m if m is not None else self.solve_last(h, h0, R, it)
            if not depends(d, it):
                c = simplify(d)
                if s == IntSort():
                    return simplify(h0 + c * it)
                return simplify(h0 + c * ToReal(it))
            k = fresh_const('k', IntSort())
            return h0 + mk_sum(substitute(d, (it, k)), k, it)
        return None

    def solve_max(self, h, h0, R, it):
        """running maximum / minimum:  h' = max(h, f(it)), possibly guarded"""
        x = self.x
        fs = []

        def add(t):
            if t.sort() == h.sort() and not depends(t, h) and not any(t.eq(q) for q in fs):
                fs.append(t)

        def go(t):
            if not depends(t, h):
                add(t)
            elif is_ite(t):
                go(t.arg(1))
                go(t.arg(2))
        for c in ite_conds(R):
            if depends(c, h):
                for a in atoms(c):
                    if a.num_args() == 2:
                        for u, v in ((a.arg(0), a.arg(1)), (a.arg(1), a.arg(0))):
                            if v.eq(h) and u.sort() == h.sort():
                                add(u)
        go(R)
        if not fs:
            return None
        guard = BoolVal(True)
        gs = [c for c in ite_conds(R) if not depends(c, h)][:2]
        for f in fs[:5]:
          for g in [guard] + [q for c in gs for q in (c, Not(c))]:
            for sgn in (1, -1):
                want = If(g, If(f > h if sgn == 1 else f < h, f, h), h)
                if x.pr.raw_check([R != want], 0.5)[0] == unsat:
                    k = fresh_const('k', IntSort())
                    b = f if is_true(g) else If(g, f, h0)
                    b = substitute(b, (it, k))
                    F = PMR if h.sort() == RealSort() else PMI
                    if sgn == 1:
                        return F(Lambda([k], b), it, h0)
                    return -F(Lambda([k], -b), it, -h0)
        return None

    def solve_last(self, h, h0, R, it):
        """conditional overwrite:  h' = c(it) ? v(it) : h"""
        R = simplify(R) if not is_ite(R) else R
        keep = []
        vals = []

        def go(t, g):
            if is_ite(t):
                if depends(t.arg(0), h):
                    return False
                return go(t.arg(1), g + [t.arg(0)]) and go(t.arg(2), g + [Not(t.arg(0))])
            if t.eq(h):
                keep.append(And(*g) if g else BoolVal(True))
                return True
            if depends(t, h):
                return False
            vals.append((And(*g) if g else BoolVal(True), t))
            return True
        if not go(R, []) or not keep or not vals:
            return None
        c = simplify(Not(Or(*keep)))
        k = fresh_const('k', IntSort())
        p = PL(Lambda([k], substitute(c, (it, k))), it)
        v = vals[-1][1]
        for g, t in reversed(vals[:-1]):
            v = If(g, t, v)
        return If(p < 0, h0, substitute(v, (it, p)))

    def solve_bool(self, h, h0, R, it):
        if not depends(R, h):
            return mk_ite(it == 0, h0, substitute(R, (it, it - 1)))
        # R = ite-tree over h: value when h true / false
        rt = simplify(substitute(R, (h, BoolVal(True))))
        rf = simplify(substitute(R, (h, BoolVal(False))))
        k = fresh_const('bk', IntSort())
        rng = And(k >= 0, k < it)
        if is_true(rt):
            # h stays true; set when rf
            if depends(rf, it):
                return Or(h0, Exists([k], And(rng, substitute(rf, (it, k)))))
            return Or(h0, And(it > 0, rf))
        if is_false(rf):
            if depends(rt, it):
                return And(h0, ForAll([k], Implies(rng, substitute(rt, (it, k)))))
            return And(h0, Or(it == 0, rt))
        return None

    def solve_array(self, h, h0, R, it, pcs):
        """pointwise conditional update"""
        x = self.x
        if not depends(R, h):
            R1 = substitute(R, (it, it - 1))
            return If(it == 0, h0, R1)
        xs = []
        s = h.sort()
        e, b, b0 = R, h, h0
        while s.kind() == Z3_ARRAY_SORT:
            v = fresh_const('x', s.domain())
            xs.append(v)
            e, b, b0 = sel(e, v), sel(b, v), sel(b0, v)
            s = s.range()
        e0 = simplify(e)
        if xs and xs[0].sort() == IntSort():
            # the whole sequence moves by a constant (pop_front)
            for u in subterms(e0):
                if is_sel(u) and u.arg(0).eq(h):
                    c = simplify(u.arg(1) - xs[0])
                    if is_int_value(c) and c.as_long() != 0 and simplify(b_at(h, xs, c)).eq(e0):
                        r = h0
                        r = sel(h0, simplify(xs[0] + c * it))
                        for v in xs[1:]:
                            r = sel(r, v)
                        for v in reversed(xs):
                            r = Lambda([v], r)
                        return r
        e = self.push_select(e, h, xs)
        G, V = split(e, b)
        if is_false(G):
            return h0
        # dependence of V and G on h other than at xs
        other = lambda t: depends(replace_term(t, b, fresh_const('self', b.sort())), h)

        def lam(body):
            for v in reversed(xs):
                body = Lambda([v], body)
            return body
        G = lift_ite(G)
        G = simplify(G)
        inv = None
        if True:
            inv = self.find_inverse(G, it, xs, pcs)
        if inv is not None and not depends(G, h) and not other(V):
            Gk = substitute(G, (it, inv))
            Vk = replace_term(substitute(V, (it, inv)), b, b0)
            return lam(mk_ite(simplify(And(inv >= 0, inv < it, Gk)), Vk, b0))
        if inv is not None and not depends(G, h) and len(xs) == 1 and xs[0].sort() == IntSort():
            # running recurrence  a[i] = a[i-1] + t
            Vi = substitute(V, (it, inv))
            d = None
            if V.sort() in (IntSort(), RealSort()):
                reps = [(u, Select(h, simplify(u.arg(1)))) for u in subterms(Vi) if is_sel(u) and u.arg(0).eq(h)]
                if reps:
                    Vi = substitute(Vi, *reps)
                d = simplify(Vi - Select(h, simplify(xs[0] - 1)), som=True)
            if d is not None and not depends(d, h):
                # value at position x >= p0: h0[p0-1] + sum_{p0 <= k <= x} d(k)
                p0 = simplify(xs[0] - inv)
                if not depends(p0, xs[0]):
                    k = fresh_const('k', IntSort())
                    dk = substitute(d, (xs[0], k))
                    val = sel(h0, simplify(p0 - 1)) + mk_sum(dk, k, simplify(xs[0] + 1)) - mk_sum(dk, k, p0)
                    return lam(mk_ite(simplify(And(inv >= 0, inv < it)), simplify(val), b0))
            return None
        if not depends(G, h) and b.sort() in (IntSort(), RealSort()):
            d = delta(V, b)
            if d is not None and not depends(d, h):
                k = fresh_const('k', IntSort())
                zero = RealVal(0) if b.sort() == RealSort() else IntVal(0)
                t = mk_ite(G, d, zero)
                if depends(t, it):
                    return lam(b0 + mk_sum(substitute(t, (it, k)), k, it))
                return lam(b0 + (ToReal(it) if b.sort() == RealSort() else it) * t)
        if not depends(G, h) and not depends(V, h):
            # idempotent: neither guard nor value depends on the iteration
            if not depends(G, it) and not depends(V, it):
                return lam(mk_ite(And(it > 0, G), V, b0))
        if inv is not None:
            # each cell is written in one iteration only; guess that what the update reads was not overwritten before
            Gk = substitute(substitute(G, (it, inv)), (h, h0))
            Vk = substitute(substitute(V, (it, inv)), (h, h0))
            return lam(mk_ite(simplify(And(inv >= 0, inv < it, Gk)), Vk, b0))
        return None

    def segments(self, u, h0, R, it, pc0, r, unks):
        """an array in which iteration k writes the cells {x: G(k, x)} with V(k, x), disjoint from the cells of the other iterations:
        after `it` iterations every cell of iteration k < it holds V(k, x)   (disjointness is the inductive step, proved here)"""
        x = self.x
        xs, s, e, b, b0 = [], u.sort(), R, u, h0
        while s.kind() == Z3_ARRAY_SORT:
            if s.domain() != IntSort():
                return []
            v = fresh_const('x', s.domain())
            xs.append(v)
            e, b, b0 = sel(e, v), sel(b, v), sel(b0, v)
            s = s.range()
        G, V = split(self.push_select(e, u, xs), b)
        G = simplify(lift_ite(G))
        if is_false(G) or any(depends(G, q) or depends(V, q) for q in unks) or not depends(G, it):
            return []
        k = fresh_const('sg', IntSort())
        Gk = substitute(G, (it, k))
        local = [c for c in r.next.pc[len(pc0):] if not has_quant(c) and not any(depends(c, q) for q in unks) and depends(c, it)]
        prev = [substitute(c, (it, k)) for c in local]
        st = x.pr.prove(list(r.next.pc) + prev + [k >= 0, k < it, Gk, G], BoolVal(False), 6.0)[0]
        if DBG:
            print('  ' * self.depth, '  segments', st, str(G)[:200])
        if st != 'proved':
            return []
        if not x.quiet:
            o = Obl('invariant', 'iterations write disjoint cells', x.loc(), pc0, BoolVal(True), x.where(), [])
            o.status = 'proved'
            x.obls.append(o)
        live = mk_and([c for c in prev if small_term(c, 60)] + [k >= 0, k < it])
        return [ForAll([k] + xs, Implies(And(live, Gk), b == substitute(V, (it, k))))]

    def push_select(self, e, h, xs):
        """under x == t, read h[t] as h[x] (so that untouched cells are recognised)"""
        names = {v.get_id(): v for v in xs}

        def go(e, depth):
            if not is_ite(e) or depth > 14:
                return e
            c, a, b = e.arg(0), e.arg(1), e.arg(2)
            conj = list(c.children()) if is_and(c) else [c]
            sub = []
            for q in conj:
                if is_eq(q):
                    l, r = q.arg(0), q.arg(1)
                    if r.get_id() in names:
                        l, r = r, l
                    if l.get_id() in names and not r.eq(l):
                        sub.append((l, r))
            for v, t in sub:
                reps = []
                for u in subterms(a):
                    if is_sel(u) and u.arg(1).eq(t) and depends(u.arg(0), h):
                        reps.append((u, Select(u.arg(0), v)))
                if reps:
                    a = substitute(a, *reps)
            return mk_ite(c, go(a, depth + 1), go(b, depth + 1))
        return go(e, 0)

    def find_inverse(self, G, it, xs, pcs):
        """term inv(xs) with  G(it,xs) => it == inv"""
        x = self.x
        cands = []
        if not depends(G, it):
            return None
        for a in atoms(G):
            if a.num_args() != 2 or a.arg(0).sort() != IntSort():
                continue
            if not depends(a, it):
                continue
            d = simplify(a.arg(0) - a.arg(1))
            li = linear_in(d, it)
            if li is not None and abs(li[0]) == 1:
                c, rest = li
                cands.append(simplify(-rest if c == 1 else rest))
            else:
                ls = lin_sym(d, it)
                if ls is not None:
                    # x ~ C*it + r:  it = x div C
                    C = ls[0]
                    for v in xs:
                        if v.sort() == IntSort() and depends(d, v):
                            C1 = simplify(C if str(C)[0] != '-' else -C)
                            for CC in (C, simplify(-C)):
                                cands.append(v / CC)
        seen = set()
        for c in cands:
            if c.get_id() in seen or depends(c, it):
                continue
            seen.add(c.get_id())
            if x.pr.prove(list(x.st.pc) + list(pcs) + [it >= 0, G], it == c, 2.0, tactic=False)[0] == 'proved':
                return c
        return None

    # ---- induction checks ---------------------------------------------------------------------------------------
    def check_closed(self, j, C, h0, R, it, pc0, r):
        x = self.x
        t = 6.0
        C0 = substitute(C, (it, IntVal(0)))
        C1 = substitute(C, (it, it + 1))
        ok = self.same(list(pc0), C0, h0, t) and self.same(list(r.next.pc), C1, R, t)
        if not x.quiet:
            o = Obl('invariant', 'closed form of %s (base and step)' % (j,), x.loc(), pc0, BoolVal(True), x.where(), [])
            o.status = 'proved' if ok else 'dropped'
            if ok:
                x.obls.append(o)
        return ok

    def same(self, pc, a, b, t):
        x = self.x
        s = a.sort()
        extra = []
        while s.kind() == Z3_ARRAY_SORT:
            v = fresh_const('x', s.domain())
            a, b = sel(a, v), sel(b, v)
            s = s.range()
        g = a == b
        if a.eq(b):
            return True
        return x.pr.prove(pc, g, t)[0] == 'proved'

    def bound_cands(self, cond, hs, closed, it):
        """from a condition  a < b or a != b: the invariant a <= b (and b <= a)"""
        out = []
        if cond is None:
            return out
        for a in atoms(cond):
            if a.num_args() == 2 and a.arg(0).sort() == IntSort() and a.decl().kind() in (Z3_OP_LE, Z3_OP_GE, Z3_OP_LT, Z3_OP_GT, Z3_OP_EQ, Z3_OP_DISTINCT):
                u, v = a.arg(0), a.arg(1)
                out.append(simplify(u <= v))
                out.append(simplify(v <= u))
                out.append(simplify(u <= v + 1))
                out.append(simplify(v <= u + 1))
        return [c for c in out if not is_true(c) and not is_false(c)]

    def inductive(self, cnd, r, hs, h0, closed, unk, it, pc0, invs):
        x = self.x
        cur = {**hs, **closed, **unk}
        nl = self.leafmap(r.next.store, {k for k, _ in hs})

        def inst(e, vals, itv):
            # unknown leaf symbols -> values; it -> itv
            sub = [(hs[j], vals[j]) for j in hs if j not in closed and j not in unk]
            fsub = [(unk[j], vals[j]) for j in unk]
            for a, b in fsub:
                e = replace_term(e, a, b)
            return substitute(e, *sub, (it, itv)) if sub else substitute(e, (it, itv))
        b = inst(cnd, h0, IntVal(0))
        if x.pr.prove(list(pc0), b, 1.5, tactic=False)[0] != 'proved':
            return False
        s = inst(cnd, nl, it + 1)
        return x.pr.prove(list(r.next.pc) + list(invs) + [cnd], s, 1.5, tactic=False)[0] == 'proved'

    def samples(self, pc0, terms):
        """a few concrete states before the loop, to discard candidates that do not hold there (only ever discards)"""
        x = self.x
        if not any(nonlinear(t) for t in list(pc0) + list(terms) if is_expr(t)):
            return []
        import random
        rnd = random.Random(7)
        names = set()
        for t in list(pc0) + list(terms):
            names |= free_syms(t)
        reals = [DECLS[n]() for n in names if n in DECLS and DECLS[n].arity() == 0 and DECLS[n].range() == RealSort()]
        out = []
        for k in range(8):
            s = Solver()
            s.set('timeout', 150)
            for c in x.pr.relevant(list(pc0) + [t == t for t in terms if is_expr(t)], {p.get_id() for p in pc0}, narrow=True):
                if not has_quant(c):
                    s.add(c)
            for c in pc0:
                if not has_quant(c):
                    s.add(c)
            for v in reals:
                s.add(v == Fraction(rnd.randint(-9, 9) if k % 2 else rnd.randint(0, 9), 4))
            if s.check() == sat:
                out.append(s.model())
            if len(out) >= 4:
                break
        return out

    def generalised(self, sc, pc0, r, invs, it):
        """relations between unknown sequences that hold initially by construction: where the initial value of q is a term
        over the initial value of u, the candidate is q == that term with u in place of its initial value"""
        x = self.x
        t_end = time.time() + 30
        U = [a for a in sc if a[3] and a[0].sort() in (IntSort(), RealSort())]
        alive = []
        for q in U:
            if is_num(q[1]):
                continue
            for u in U:
                if u is q or is_num(u[1]) or u[0].sort() != q[0].sort() and False:
                    continue
                if q[1].eq(u[1]) or not depends(q[1], u[1]) or not (is_const(u[1]) or is_sel(u[1])):
                    continue
                tm = q[1]
                f = lambda i, q=q, u=u, tm=tm: (q[i], simplify(substitute(tm, (u[1], u[i])), som=True) if i else substitute(tm, (u[1], u[i])))
                alive.append(f)
        if not alive or len(alive) > 60:
            return []
        facts = []
        first = [Or(it > 0, A[0] == A[1]) for A in sc if A[3]]
        pcs = list(r.next.pc) + list(invs) + first
        changed = True
        while alive and changed and time.time() < t_end:
            changed = False
            sub = []
            seen = set()
            for f in alive:
                a, b = f(0)
                if is_app(a) and a.get_id() not in seen and not depends(b, a):
                    seen.add(a.get_id())
                    sub.append((a, b))
            hyp = [f(0)[0] == f(0)[1] for f in alive]
            for f in list(alive):
                a, b = f(2)
                g = a == b
                for _ in range(3):
                    g = substitute(g, *sub)
                g = simplify(push_eq(simplify(g, som=True)), som=True)
                if is_true(g):
                    continue
                hp = [simplify(substitute(substitute(c, *sub), *sub), som=True) if not has_quant(c) else c for c in pcs]
                if x.pr.prove(hp + hyp, g, 2.0, tactic=False)[0] != 'proved':
                    alive.remove(f)
                    changed = True
                    break
        if time.time() >= t_end:
            return []
        out = []
        for f in alive:
            a, b = f(0)
            out.append(a == b)
        if DBG:
            print('  ' * self.depth, '  generalised', out)
        return out

    def houdini(self, unk, closed, h0, nl, it, pc0, r, invs, hs):
        x = self.x
        sc = []   # (term at it, term at 0, term at it+1, sort)
        for j in unk:
            if hs[j].sort() in (IntSort(), RealSort(), BoolSort()):
                sc.append((unk[j], h0[j], nl[j], True))
        for j in closed:
            if hs[j].sort() in (IntSort(), RealSort(), BoolSort()):
                sc.append((closed[j], h0[j], substitute(closed[j], (it, it + 1)), False))
        pool = list(sc)
        # constants of the surrounding state that occur in the step terms
        names = set()
        for t in (IntVal(0), RealVal(0), RealVal(1), IntVal(1)):
            pool.append((t, t, t, False))
        seen = set()
        for j in unk:
            for t in subterms(nl[j]):
                if t.sort() in (IntSort(), RealSort()) and not depends(t, it) and not any(depends(t, u) for u in unk.values()) and not is_num(t) and t.get_id() not in seen and len(seen) < 14:
                    if is_const(t) or is_sel(t):
                        seen.add(t.get_id())
                        pool.append((t, t, t, False))
        # scalar inputs of the contract (bounds that the clauses inside the loop may mention)
        for nm, kind, c, ln in x.inputs:
            if kind in ('i', 'd') and is_const(c) and c.get_id() not in seen and len(seen) < 20:
                seen.add(c.get_id())
                pool.append((c, c, c, False))
        n = len(pool)
        rel = []
        for a in range(n):
            for b in range(n):
                if a == b or not (pool[a][3] or pool[b][3]):
                    continue
                A, B = pool[a], pool[b]
                if A[0].sort() != B[0].sort():
                    continue
                if A[0].sort() == BoolSort():
                    if a < b:
                        rel.append(lambda i, A=A, B=B: A[i] == B[i])
                        rel.append(lambda i, A=A, B=B: A[i] != B[i])
                    rel.append(lambda i, A=A, B=B: Implies(A[i], B[i]))
                else:
                    if a < b:
                        rel.append(lambda i, A=A, B=B: A[i] == B[i])
                    rel.append(lambda i, A=A, B=B: A[i] <= B[i])
                    if is_num(A[0]) or is_num(B[0]):
                        rel.append(lambda i, A=A, B=B: A[i] < B[i])
        # what was known of the initial value, and the initial value itself as a bound
        known = []
        for U in sc:
            if not U[3] or is_num(U[1]) or U[0].sort() == BoolSort():
                continue
            if not (is_const(U[1]) or is_sel(U[1])):
                for g in (lambda i, U=U: U[i] <= U[1], lambda i, U=U: U[i] >= U[1]):
                    known.append(g)
            for c in [d for p in pc0 for d in conjuncts(p)]:
                if not has_quant(c) and small_term(c, 80) and depends(c, U[1]) and not is_eq(c) and len(known) < 60:
                    known.append(lambda i, U=U, c=c: substitute(c, (U[1], U[i])))
        itv = lambda i: it if i == 0 else IntVal(0) if i == 1 else it + 1
        for u in unk.values():
            if u.sort() == BoolSort():
                U = [p for p in sc if p[0].eq(u)][0]
                rel.append(lambda i, U=U: U[i] == (itv(i) > 0))
                rel.append(lambda i, U=U: U[i])
                rel.append(lambda i, U=U: Not(U[i]))
        bools = [p for p in sc if p[0].sort() == BoolSort()]
        alive = []
        guarded = []
        gens = self.generalised(sc, pc0, r, invs, it)
        if gens:
            invs = list(invs) + gens
        first = [Or(it > 0, A[0] == A[1]) for A in sc if A[3]]

        def fixpoint(alive, pcs, t_end):
            """iterate to a fixpoint; use one solver model to drop many at once"""
            while alive:
                if time.time() > t_end:
                    return []
                hyp = [f(0) for f in alive]
                drop = []
                # quick simultaneous refutation
                res, model = x.pr.prove(pcs + hyp, mk_and([f(2) for f in alive]), 4.0, tactic=False)
                if res == 'proved':
                    break
                if res == 'refuted':
                    for f in alive:
                        try:
                            v = model.eval(f(2), model_completion=True)
                        except Exception:
                            v = None
                        if v is None or not is_true(simplify(v)):
                            drop.append(f)
                if not drop:
                    for f in alive:
                        if time.time() > t_end:
                            return []
                        if x.pr.prove(pcs + hyp, f(2), 1.5, tactic=False)[0] != 'proved':
                            drop.append(f)
                if not drop:
                    break
                alive = [f for f in alive if f not in drop]
            return alive
        nonlin = any(nonlinear(nl[j]) for j in unk if is_expr(nl[j]))
        if nonlin and known:
            al = [f for f in known if x.pr.prove(list(pc0), f(1), 0.8, tactic=False)[0] == 'proved']
            kept = [f(0) for f in fixpoint(al, list(r.next.pc) + list(invs) + first, time.time() + 25)]
            gens = gens + kept
            invs = list(invs) + kept
        elif known:
            rel = known + rel
        t_end = time.time() + (20 if nonlin else 40)
        models = self.samples(pc0, [a[1] for a in sc])
        for f in rel:
            if time.time() > t_end:
                break
            g1 = f(1)
            no = False
            for m in models:
                if is_false(simplify(m.eval(g1, model_completion=True))):
                    no = True
                    break
            if not no and x.pr.prove(list(pc0), g1, 0.8, tactic=False)[0] == 'proved':
                alive.append(f)
            else:
                iseq = f(0).decl().kind() == Z3_OP_EQ
                guarded.append((0 if iseq else 1, lambda i, f=f: Or(itv(i) == 0, f(i))))
                for b in bools:
                    guarded.append((0 if iseq else 2, lambda i, f=f, b=b: Implies(b[i], f(i))))
        guarded = [g for _, g in sorted(guarded, key=lambda q: q[0])]
        alive += guarded[:240]
        alive2 = []
        gset = set(guarded)
        for f in alive[:400]:
            if f in gset:
                if x.pr.prove(list(pc0), f(1), 0.5, tactic=False)[0] != 'proved':
                    continue
            alive2.append(f)
        alive = alive2
        # iteration 0 starts from the state before the loop
        alive = fixpoint(alive, list(r.next.pc) + list(invs) + first, t_end)
        # remove trivially implied ones
        out = list(first) + gens
        for f in alive:
            g = f(0)
            if not is_true(simplify(g)):
                out.append(g)
        return out

    # ---- exit ------------------------------------------------------------------------------------------------------
    def trip(self, r, ex, it, pc0, only):
        """eliminate the iteration counter from the exit state when the trip count has a closed form"""
        x = self.x
        cands = []
        for a in atoms(r.cond):
            if a.num_args() == 2 and a.arg(0).sort() == IntSort() and depends(a, it):
                ls = lin_sym(simplify(a.arg(0) - a.arg(1)), it)
                if ls is None:
                    continue
                c, rest = ls
                if is_int_value(c) and c.as_long() in (1, -1):
                    b = simplify(-rest if c.as_long() == 1 else rest)
                    cands += [b, simplify(b + 1), simplify(b - 1)]
                elif is_int_value(c):
                    cands.append(simplify((-rest + c - 1) / c if c.as_long() > 0 else (rest + (-c) - 1) / (-c)))
        for b in cands:
            if depends(b, it):
                continue
            for T in (b, If(b > 0, b, IntVal(0))):
                if x.pr.prove(list(ex.pc), it == T, 2.0, tactic=False)[0] == 'proved':
                    sb = lambda e: simp_keep(substitute(e, (it, T))) if depends(e, it) else e
                    st = State({k: map_terms(sb, v) for k, v in ex.store.items()}, ex.pc)
                    if only:
                        # the loop facts hold at it=T; keep those that do not become trivial
                        pcs = []
                        for c in ex.pc[len(pc0):]:
                            c2 = sb(c)
                            if not has_quant(c2):
                                c2 = simplify(c2)
                            if not is_true(c2):
                                pcs.append(c2)
                        st.pc = tuple(pc0) + tuple(pcs)
                    else:
                        st.pc = ex.pc + (it == T,)
                    return st
        return ex


def b_at(h, xs, c):
    r = Select(h, simplify(xs[0] + c))
    for v in xs[1:]:
        r = Select(r, v)
    return r


def push_eq(g):
    """distribute an equality over the ites of both sides that share a condition"""
    if not is_eq(g):
        return g
    a, b = g.arg(0), g.arg(1)
    for s in (a, b):
        c = first_ite(s)
        if c is not None:
            t = [simplify(substitute(g, (c, BoolVal(v))), som=True) for v in (True, False)]
            return And(Implies(c, push_eq(t[0])), Implies(Not(c), push_eq(t[1])))
    return g


def sym_ctr(n, cache={}):
    c = cache.get(n)
    if c is None:
        c = -1
        if '!' in n:
            try:
                c = int(n.rsplit('!', 1)[1])
            except ValueError:
                c = -1
        cache[n] = c
    return c


def ite_conds(e):
    out = []
    st = [e]
    while st:
        t = st.pop()
        if is_ite(t):
            if not any(t.arg(0).eq(o) for o in out):
                out.append(t.arg(0))
            st += [t.arg(1), t.arg(2)]
    return out


def small_term(e, limit):
    n, st, seen = 0, [e], set()
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        n += 1
        if n > limit:
            return False
        if is_quantifier(t):
            st.append(t.body())
        else:
            st.extend(t.children())
    return True


def simp_keep(e):
    return e if is_lam(e) else e


def unk_in_cond(c, unk):
    return False


def subterms(e):
    out = []
    seen = set()
    st = [e]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if is_quantifier(t) or is_var(t):
            continue
        out.append(t)
        st.extend(t.children())
    return out


def replace_term(e, a, b):
    if a.eq(b):
        return e
    return substitute(e, (a, b))


def x_ctr():
    import val
    return val._ctr[0]
