import os
"""Run one goal of a contract file: symbolic execution, then discharge of every obligation."""
import json
import sys
import time
import traceback
sys.path.insert(0, __file__.rsplit('/', 1)[0])
from exec import *
import stl


def num(v):
    """python number of a z3 value"""
    if is_int_value(v):
        return v.as_long()
    if is_rational_value(v):
        return float(v.as_fraction())
    if is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    if is_true(v):
        return 1
    if is_false(v):
        return 0
    return 0


def tape_of(x, model, goal, label, maxlen=64):
    lines = ['goal %s' % goal, 'label %s' % label]
    for (name, kind, c, ln), pc in zip(x.inputs, x.input_pc):
        if not all(is_true(model.eval(q, model_completion=True)) for q in pc if not has_quant(q)):
            continue   # not drawn on this path
        if any('@' in s for s in free_syms(c)):
            return None
        if kind in ('TD', 'TI'):
            r, cl = (num(model.eval(q, model_completion=True)) for q in ln)
            if r * cl > 5000:
                return None
            vs = []
            for k in range(r):
                for l in range(cl):
                    v = num(model.eval(Select(Select(c, IntVal(k)), IntVal(l)), model_completion=True))
                    vs.append(repr(float(v)) if kind == 'TD' else str(v))
            lines.append('in %s %s' % (name, ' '.join(vs)))
            continue
        if kind in ('i', 'd', 'b'):
            v = num(model.eval(c, model_completion=True))
            lines.append('in %s %s' % (name, repr(v) if isinstance(v, float) else v))
        else:
            n = num(model.eval(ln, model_completion=True))
            if n > 5000:
                return None
            vs = []
            for k in range(n):
                v = num(model.eval(Select(c, IntVal(k)), model_completion=True))
                vs.append(repr(float(v)) if kind == 'D' else str(v))
            lines.append('in %s %s' % (name, ' '.join(vs)))
    return '\n'.join(lines) + '\n'


def lines_iter(x, model, lines, name, c):
    return None


def small_model(x, pr, o, timeout):
    """a counterexample with small sizes, for replay"""
    pcids = {p.get_id() for p in o.pc}
    base = pr.relevant(list(o.pc) + [o.goal], pcids) + list(o.pc)
    if is_quantifier(o.goal):
        return None
    base = base + [Not(o.goal)]
    lem = pr.sum_lemmas(base, extra_rounds=6)
    for cap in (4, 12):
        caps = []
        for name, kind, c, ln in x.inputs:
            if kind == 'i':
                caps.append(Or(c <= cap, c >= BIG // 4))
            if ln is not None:
                caps += [q <= cap for q in (ln if isinstance(ln, tuple) else (ln,))]
            if kind == 'd':
                caps.append(And(c >= -1000, c <= 1000))
        r, s = pr.raw_check(base + lem + caps, timeout)
        if r == sat:
            return s.model()
    return None


def run_goal(prog_path, goal, opts):
    t0 = time.time()
    out = {'goal': goal, 'obligations': [], 'error': None}
    p = Prog(prog_path)
    pr = Prover()
    mode = opts.get('mode', 'prove')
    x = Exec(p, pr, mode=mode, unroll=opts.get('unroll', 3))
    x.havoc_only = bool(opts.get('havoc'))     # loops whose modified variables need no invariant
    x.bounded = False
    fid = [f['id'] for f in p.funcs.values() if f['qname'] == 'goal::' + goal and 'body' in f]
    if not fid:
        out['error'] = 'goal not found'
        return out
    try:
        x.call_fn(fid[0], None, [])
        for st, exc in x.sinks[0]:
            nm = exc if isinstance(exc, str) else p.T(exc).get('s', '?')
            o = Obl('check', 'no exception escapes (%s)' % nm, '', st.pc, BoolVal(False), goal, list(x.approx))
            x.obls.append(o)
    except Unsupported as ex:
        out['error'] = 'unsupported: %s' % ex
        out['trace'] = traceback.format_exc()[-1500:]
    except Exception as ex:
        out['error'] = 'engine: %r' % ex
        out['trace'] = traceback.format_exc()[-3000:]
    out['exec_s'] = time.time() - t0
    tmo = opts.get('timeout', 10.0)
    deadline = t0 + opts.get('budget', 120.0)
    for o in x.obls:
        if o.status is None:
            t1 = time.time()
            if time.time() > deadline:
                o.status, o.why = 'unknown', 'time budget'
            else:
                res, m = pr.prove(list(o.pc), o.goal, tmo)
                o.status = res
                if res == 'refuted':
                    o.model = m
                elif res == 'unknown':
                    o.why = str(m)
            o.time = time.time() - t1
        d = {'kind': o.kind, 'label': o.label, 'loc': o.loc, 'fn': o.fn, 'status': o.status, 't': round(o.time, 3)}
        if o.status == 'refuted' and any(not INEXACT.isdisjoint(free_syms(c)) for c in pr.relevant(list(o.pc) + [o.goal], set()) + list(o.pc) + [o.goal]):
            o.approx = list(o.approx or []) + ['uninterpreted functions in the query']
        if o.approx:
            d['approx'] = o.approx
        if o.status == 'unknown':
            d['why'] = o.why
        if os.environ.get('CPPVC_DUMPPC') and o.status != 'proved':
            print('PC', *[str(c) for c in o.pc], 'GOAL', o.goal, 'FACTS', *[str(f) for f in pr.relevant(list(o.pc) + [o.goal], set())], sep='\n---- ')
        if o.status == 'refuted' and os.environ.get('CPPVC_DEBUG'):
            mm = o.model
            print('EVAL', o.goal.decl().name(), [mm.eval(c, model_completion=True) for c in o.goal.children()], [ (n, mm.eval(c, model_completion=True)) for n, k, c, l in x.inputs])
        if o.status == 'refuted':
            try:
                sm = small_model(x, pr, o, 5.0)
                d['tape'] = tape_of(x, sm if sm is not None else o.model, goal, o.label)
            except Exception as ex:
                d['tape_error'] = repr(ex)
            d['goal_text'] = str(o.goal)[:600]
            d['model'] = {n: str(o.model.eval(c, model_completion=True))[:200] for n, k, c, l in x.inputs if k in ('i', 'd', 'b')} if o.model is not None else {}
        out['obligations'].append(d)
    covers = []
    for n, pc in x.covers:
        covers.append((n, pr.feasible([c for c in pc], 3.0)))
    out['covers'] = covers
    out['functions'] = x.used
    out['trusted'] = sorted(x.trusted)
    out['assumed'] = sorted(x.assumed)
    out['loops'] = x.loops_proved
    out['approx'] = x.approx
    out['bounded'] = x.bounded
    out['queries'] = pr.stats.queries
    out['solver_s'] = round(pr.stats.time, 3)
    out['time'] = round(time.time() - t0, 3)
    return out


if __name__ == '__main__':
    prog, goal = sys.argv[1], sys.argv[2]
    opts = json.loads(sys.argv[3]) if len(sys.argv) > 3 else {}
    r = run_goal(prog, goal, opts)
    if opts.get('json'):
        json.dump(r, sys.stdout)
    else:
        print('GOAL', goal, 'error:', r['error'], r.get('trace', '')[-600:] if opts.get('tr') else '')
        for o in r['obligations']:
            if o['status'] != 'proved' or opts.get('v'):
                print('  %-8s %-9s %s  [%s %s] %s' % (o['status'], o['kind'], o['label'], o['loc'], o['fn'], o.get('why', '')), o.get('goal_text', '')[:300], o.get('tape', ''))
        print('  proved %d / %d   covers %s  loops %s approx %s  queries %d solver %.1fs total %.1fs' % (sum(o['status'] == 'proved' for o in r['obligations']), len(r['obligations']), r.get('covers'), len(r.get('loops', [])), r.get('approx'), r.get('queries', 0), r.get('solver_s', 0), r.get('time', 0)))
