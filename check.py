#!/usr/bin/env python3
"""check.py ID [quick|thorough]     decide one property on /repo's current tree
check.py replay FILE               replay a recorded counterexample against the real code
check.py setup                     build the front end

Deciding step: every obligation of contracts/ID.cpp, generated from /repo's current source, is discharged by the
verifier in cppvc/ (all inputs, all iterations).  See DESIGN.md for what happens when an obligation is not discharged.
"""
import concurrent.futures as cf
import glob
import json
import os
import re
import resource
import subprocess
import sys
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.path.join(V, 'build')
DUMP = os.path.join(B, 'cppvc-dump')
PY = 'python3-vt'
INCS = ['-I' + REPO + '/include', '-I' + V + '/include', '-I' + V + '/stubs']
STUBNOTE = ''


def setup():
    os.makedirs(B, exist_ok=True)
    subprocess.run(['bash', os.path.join(V, 'cppvc/dump/build.sh')], check=True)


def limit(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    return f


def run(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace', **kw)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        o = e.stdout
        return 124, (o.decode(errors='replace') if isinstance(o, bytes) else o) or ''


def goals_of(pid):
    txt = open(os.path.join(V, 'contracts', pid + '.cpp')).read()
    return re.findall(r'^GOAL\((\w+)\)', txt, re.M)


def bounded_goals_of(pid):
    """BGOAL: clauses executed on the real code with generated inputs only (bounded, never counted as proved)"""
    return re.findall(r'^BGOAL\((\w+)\)', open(os.path.join(V, 'contracts', pid + '.cpp')).read(), re.M)


def options(pid):
    """//!opt goal key=value   in the contract file"""
    o = {}
    for g, k, v in re.findall(r'^//!opt (\w+) (\w+)=(\S+)', open(os.path.join(V, 'contracts', pid + '.cpp')).read(), re.M):
        o.setdefault(g, {})[k] = float(v) if '.' in v else int(v)
    return o


def dump(pid):
    out = os.path.join(B, pid + '.json')
    return run([DUMP, out, os.path.join(V, 'contracts', pid + '.cpp'), '--keep', REPO, '--keep', V, '--', '-std=c++20', '-DNDEBUG', '-DVC_VERIFY'] + INCS, 120) + (out,)


def failed_goal(g, why):
    return {'goal': g, 'obligations': [], 'error': 'verifier: ' + why, 'covers': [], 'functions': {}, 'trusted': [], 'assumed': [], 'loops': [], 'approx': []}


def goal(prog, g, opts, wall, procs=None):
    p = subprocess.Popen([PY, os.path.join(V, 'cppvc/engine/goalrun.py'), prog, g, json.dumps(dict(opts, json=1))], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', preexec_fn=limit(12))
    if procs is not None:
        procs.add(p)
    try:
        o, _ = p.communicate(timeout=wall)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return failed_goal(g, 'time limit')
    finally:
        if procs is not None:
            procs.discard(p)
    try:
        return json.loads(o[o.index('{'):])
    except Exception:
        return failed_goal(g, 'rc %d: %s' % (p.returncode, o[-400:]))


def native(pid):
    exe = os.path.join(B, 'native-' + pid)
    rc, o = run(['g++', '-std=c++20', '-O1', '-g', '-w', '-DNDEBUG', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fsanitize-undefined-trap-on-error',
                 '-fno-omit-frame-pointer'] + INCS + [os.path.join(V, 'contracts', pid + '.cpp'), '-o', exe], 400)
    return rc, o, exe


def replay_tape(exe, tape):
    rc, o = run([exe, 'tape', tape], 60)
    m = re.search(r'REPLAY-FAILS (\w+): (.*)', o)
    if m:
        return True, m.group(2)
    if rc not in (0, 3):
        m = re.search(r'^label (.*)$', o, re.M)
        return True, m.group(1) if m else 'crash (rc %d)' % rc
    return False, o.strip().splitlines()[-1] if o.strip() else ''


def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    quick = tier == 'quick'
    os.makedirs(B, exist_ok=True)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    rdir = os.path.join(B, 'replay')
    os.makedirs(rdir, exist_ok=True)
    setup()
    known = []
    kf = os.path.join(V, 'known-findings.txt')
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r'finding: property=(\S+) goal=(\S+) label="([^"]*)" (.*)', l)
            if m and m.group(1) == pid:
                known.append((m.group(2), m.group(3), m.group(4)))
    rc, o, prog = dump(pid)
    goals = goals_of(pid)
    bgoals = bounded_goals_of(pid)
    viol = []      # (goal, label, loc, tape or None, text)
    failed_ob = []
    bounded = []
    res = {}
    if rc != 0:
        viol.append((goals[0], 'the code no longer provides the functions the contracts are attached to', '', None, o[-4000:]))
    popts = options(pid)
    searched = {}
    nat = None
    ex = cf.ThreadPoolExecutor(7)
    if not viol:
        T0 = time.time()
        limit_s = 600 if quick else 6000          # for the whole run
        tmo, bud, wall = (12.0, 200.0, 330) if quick else (40.0, 900.0, 2400)
        left = lambda: max(1.0, T0 + limit_s - time.time())
        procs = set()

        def prover(g, oo, w):
            if viol:
                return failed_goal(g, 'not run: a counterexample was found first')
            return goal(prog, g, oo, min(w, left()), procs)
        fut = {}
        fn = ex.submit(native, pid)
        for g in goals:
            oo = {'timeout': tmo, 'budget': bud}
            oo.update(popts.get(g, {}))
            fut[g] = ex.submit(prover, g, oo, wall)

        def search(g, sec, runs, tag):
            """the same contract, executed on the real code with generated inputs (guards the verifier's reading of the language)"""
            tf = os.path.join(rdir, '%s-%s-%s.tape' % (pid, g, tag))
            if os.path.exists(tf):
                os.unlink(tf)
            rc, o = run([nat, 'search', str(seed), str(runs), str(sec), tf, g], 400)
            m = re.search(r'SEARCH-OK runs (\d+) kept (\d+)', o)
            if m:
                q = searched.get(g, (0, 0))
                searched[g] = (q[0] + int(m.group(1)), q[1] + int(m.group(2)))
            if rc != 0 and os.path.exists(tf):
                lab = re.search(r'^label (.*)$', open(tf).read(), re.M)
                return (g, lab.group(1) if lab else 'failure', '', tf, 'the contract, executed on the real code, fails on this input'), o
            return None, o

        nrc, nout, exe = fn.result()
        nat = exe if nrc == 0 else None
        if nat is None:
            print('native build failed:', nout[-800:])
        else:
            sec = max(1.0, min(6.0, 60.0 / (len(goals) + len(bgoals)))) if quick else 60.0
            with cf.ThreadPoolExecutor(2) as ex2:
                for v, o in ex2.map(lambda g: search(g, sec * (2 if g in bgoals else 1), 200000, 'run'), goals + bgoals):
                    if v:
                        viol.append(v)
            if [v for v in viol if not [e for e in known if e[0] == v[0] and e[1] in v[1]]]:
                for pr in list(procs):
                    try:
                        pr.kill()
                    except OSError:
                        pass
        for g in goals:
            res[g] = fut[g].result()
        # --- counterexamples and stand-ins for what was not discharged
        todo = []
        for g in goals:
            r = res[g]
            bad = [d for d in r['obligations'] if d['status'] != 'proved']
            for d in bad:
                failed_ob.append((g, d))
            if (bad or r['error']) and not viol:
                todo.append(g)

        def pursue(g):
            """returns (violation or None, note)"""
            r = res[g]
            bad = [d for d in r['obligations'] if d['status'] != 'proved']
            cands = [d for d in bad if d.get('tape')]
            note = []
            for d in cands:
                tf = os.path.join(rdir, '%s-%s-%d.tape' % (pid, g, abs(hash(d['label'])) % 10000))
                open(tf, 'w').write(d['tape'])
                if nat:
                    ok, lab = replay_tape(nat, tf)
                    if ok:
                        return (g, lab, d['loc'], tf, describe(d)), note
            # bounded: unroll every loop, exact semantics, same obligations
            rb = goal(prog, g, {'mode': 'bmc', 'unroll': popts.get(g, {}).get('bmc', 4), 'timeout': tmo, 'budget': bud / 2}, min(150 if quick else 1200, left()))
            bbad = [d for d in rb['obligations'] if d['status'] == 'refuted']
            for d in bbad:
                if d.get('tape') and nat:
                    tf = os.path.join(rdir, '%s-%s-b%d.tape' % (pid, g, abs(hash(d['label'])) % 10000))
                    open(tf, 'w').write(d['tape'])
                    ok, lab = replay_tape(nat, tf)
                    if ok:
                        return (g, lab, d['loc'], tf, describe(d)), note
            note.append('bounded run: %s, %d/%d obligations' % (rb['error'] or 'complete', sum(d['status'] == 'proved' for d in rb['obligations']), len(rb['obligations'])))
            if nat:
                v, o = search(g, 25 if quick else 200, 2000000, 'search')
                note.append(o.strip().splitlines()[-1] if o.strip() else 'search failed')
                if v:
                    return v, note
            # a contract clause whose counterexample passes on the real code is not a violation (rounding); implicit obligations
            # (memory, initialisation, arithmetic) need not be observable in one execution
            exact = [d for d in bad + bbad if d['status'] == 'refuted' and not d.get('approx') and not (d['kind'] == 'check' and d.get('tape') and nat)]
            if exact:
                d = exact[0]
                return (g, d['label'], d['loc'], None, describe(d)), note
            bounded.append((g, r['error'] or ', '.join('%s: %s' % (d['label'], d['status']) for d in bad[:4]), note))
            return None, note

        for v, note in ex.map(pursue, todo):
            if v:
                viol.append(v)
    # --- vacuity: every goal must be able to reach its checks
    vac = [(g, n) for g in goals for n, ok in res.get(g, {}).get('covers', []) if not ok]
    # --- report
    nobl = sum(len(r['obligations']) for r in res.values())
    ndis = sum(d['status'] == 'proved' for r in res.values() for d in r['obligations'])
    fns = {}
    for r in res.values():
        for k, n in (r.get('functions') or {}).items():
            fns[k] = fns.get(k, 0) + n if isinstance(n, int) else 1
    trusted = sorted({t for r in res.values() for t in r.get('trusted', [])})
    assumed = sorted({t for r in res.values() for t in r.get('assumed', [])})
    out = 0
    new = []
    for v in viol:
        k = [e for e in known if e[0] == v[0] and e[1] in v[1]]
        if k:
            print('KNOWN-FINDING: property=%s %s' % (pid, k[0][2]))
        else:
            new.append(v)
    for g, d in failed_ob:
        print('not discharged: %s: %s: %s [%s %s] %s' % (g, d['status'], d['label'], d['loc'], d['fn'], d.get('why', '')))
    for g, why, note in bounded:
        print('bounded stand-in: %s: %s  (%s)' % (g, why[:300], '; '.join(note)[:300]))
    if vac:
        print('vacuous: ' + str(vac))
    for i, (g, lab, loc, tf, text) in enumerate(new):
        rf = os.path.join(rdir, '%s-violation%d.txt' % (pid, i))
        with open(rf, 'w') as f:
            if tf:
                f.write(open(tf).read())
            else:
                f.write('goal %s\nlabel %s\n' % (g, lab))
            f.write('# property %s\n# failed obligation: %s\n# at %s\n# replay: python3 check.py replay %s\n' % (pid, lab, loc, rf))
            for l in text.splitlines():
                f.write('# ' + l + '\n')
        print('violated: %s: %s' % (g, lab))
        if i == 0 or tf:
            pass
    if new:
        c = [v for v in new if v[3]]
        i = new.index(c[0]) if c else 0
        print('VIOLATION property=%s replay=%s%s' % (pid, os.path.join(rdir, '%s-violation%d.txt' % (pid, i)), '' if c else ' no-failing-input-found'))
        out = 1
    full = ndis == nobl and not bounded and not vac and nobl > 0
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof' if full and len(bgoals) <= len(goals) else 'other', 'wall_s': round(time.time() - t0, 2), 'violations': len(new),
          'coverage': {'obligations': nobl, 'discharged': ndis,
                       'checker_cmd': 'python3 check.py %s %s' % (pid, tier),
                       'trusted_base': ['cppvc (this repository): clang 18 AST front end, symbolic execution, loop summaries', 'z3 %s' % z3v()] + ['library contract: ' + t for t in trusted],
                       'goals': {g: {'obligations': len(r['obligations']), 'discharged': sum(d['status'] == 'proved' for d in r['obligations']),
                                     'loops_summarised': len(r.get('loops', [])), 'solver_queries': r.get('queries', 0), 'solver_s': r.get('solver_s', 0), 'error': r['error']} for g, r in res.items()},
                       'functions_under_contract': sorted(fns),
                       'back_end': 'z3 (python bindings)', 'solver_s': round(sum(r.get('solver_s', 0) for r in res.values()), 2),
                       'bounded_standins': [{'goal': g, 'reason': w, 'bound': n} for g, w, n in bounded] + [{'goal': g, 'reason': 'stated as a bounded clause', 'bound': '%d generated inputs executed on the real code (%d admissible)' % searched.get(g, (0, 0))} for g in bgoals],
                       'contract_executions_on_real_code': {g: {'runs': a, 'kept': b} for g, (a, b) in searched.items()},
                       'samples': [{'goal': g, 'obligation': d['label'], 'at': d['loc'], 'status': d['status']} for g, r in list(res.items())[:4] for d in r['obligations'][:2]]},
          'assumptions': assumed + ['double and complex arithmetic treated as exact reals; unsigned wrap-around is modelled', 'termination is not proved', 'asserts are compiled out (NDEBUG)']}
    if full and len(bgoals) > len(goals):
        ev['coverage']['explanation'] = 'the clauses listed as goals are proved for all inputs; the clauses listed under bounded_standins are executed on the real code with generated inputs'
    if not full:
        ev['coverage']['explanation'] = 'not every obligation was discharged in this run: ' + ('violation reported' if new else 'bounded stand-ins listed')
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations discharged, %d goals, %d functions, %.1f s%s' % (pid, ndis, nobl, len(goals), len(fns), time.time() - t0, '' if full else ' [not fully proved]'))
    return out


def describe(d):
    return '%s obligation "%s" at %s in %s: %s\n%s' % (d['kind'], d['label'], d['loc'], d['fn'], d['status'], d.get('goal_text', d.get('why', '')))


def z3v():
    rc, o = run([PY, '-c', 'import z3;print(z3.get_version_string())'], 60)
    return o.strip()


if __name__ == '__main__':
    if sys.argv[1] == 'setup':
        setup()
    elif sys.argv[1] == 'replay':
        f = sys.argv[2]
        txt = open(f).read()
        pid = re.search(r'^# property (\S+)', txt, re.M).group(1)
        rc, o, exe = native(pid)
        if rc:
            print(o[-2000:])
            sys.exit(2)
        print(*replay_tape(exe, f))
    else:
        sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
