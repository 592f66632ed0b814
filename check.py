#!/usr/bin/env python3-vt
"""check.py <PROPERTY> [--tier quick|thorough]   decide one property on /repo's current tree.

 1. proof units: contracts discharged by the deductive verifier (engine/) over IR generated now from /repo
 2. harness: the same contract executed on the real code: replays solver counterexamples, searches for
    failing inputs, and is the bounded stand-in for what (1) does not reach
"""
import sys, os, time, json, importlib, subprocess, argparse, hashlib
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, 'engine'), os.path.join(V, 'props')]
import build

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop', nargs='?'); ap.add_argument('--selftest', action='store_true'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=''); ap.add_argument('-v', action='store_true')
    a = ap.parse_args(); pid = a.prop
    if a.selftest: return selftest()
    seed = int(os.environ.get('VERIF_SEED', '1')); tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()
    P = importlib.import_module(pid.lower())
    quick = tier == 'quick'
    import threading
    H = {}
    th = None
    if getattr(P, 'HARNESS', None) and a.only != 'proof':
        def bh():
            try: H['exe'] = build.harness(P.HARNESS, getattr(P, 'SOURCES', []), **getattr(P, 'HOPTS', {}))
            except build.BuildError as e: H['error'] = str(e)
        build.scratch()
        th = threading.Thread(target=bh); th.start()
        th.join()
    units = []
    if a.only != 'harness' and getattr(P, 'UNITS', None):
        import vc
        units = vc.run_units(P.UNITS, budget=getattr(P, 'UNIT_BUDGET', 150) * (1 if quick else 3), par=int(os.environ.get('VP_PAR', '6')))
    # ---------------------------------------------------------------- harness
    fails = []; known = []; distinct = 0; counts = {}; exh = ''; samples = []; hstat = 'none'
    if 'exe' in H:
        cf = os.path.join(build.scratch(), 'cands')
        with open(cf, 'w') as f:
            for u in units:
                for t, h in u.get('cands', []): f.write('%s %s\n' % (t, h or '-'))
            for t, h in getattr(P, 'CANDS', []): f.write('%s %s\n' % (t, h or '-'))
        bud = getattr(P, 'BUDGET', 25) if quick else getattr(P, 'THOROUGH_BUDGET', 240)
        scr = os.path.join(build.scratch(), 'run'); os.makedirs(scr, exist_ok=True)
        env = dict(os.environ, VP_SCRATCH=scr, VP_REPO=build.REPO)
        try:
            r = subprocess.run([H['exe'], 'run', str(seed), str(bud), cf, '1' if quick else '2'], capture_output=True, text=True, errors='replace', timeout=bud * 4 + 120, cwd=scr, env=env)
            out = r.stdout; hstat = 'ran'
            if a.v and r.stderr: print(r.stderr[-2000:], file=sys.stderr)
        except subprocess.TimeoutExpired as e:
            out = (e.stdout or b'').decode(errors='replace'); hstat = 'timeout'
        for line in out.split('\n'):
            w = line.split(' ', 3)
            if w[0] == 'FAIL': fails.append({'test': w[1], 'input_hex': w[2], 'why': w[3] if len(w) > 3 else '', 'stderr': r.stderr[-3000:] if hstat == 'ran' else ''})
            elif w[0] == 'KNOWN': known.append({'key': w[1], 'count': int(w[2]), 'example': w[3]})
            elif w[0] == 'COUNT': counts[w[1]] = int(w[2])
            elif w[0] == 'DISTINCT': distinct = int(w[1])
            elif w[0] == 'EXH': exh = line[4:]
            elif w[0] == 'SAMPLE': samples.append(line[7:])
        if not fails and 'DONE' not in out: hstat = 'incomplete'
    elif 'error' in H: hstat = 'not built'
    # ---------------------------------------------------------------- verdict
    kfile = os.path.join(V, 'known_findings.json')
    listed = {k['key']: k for k in json.load(open(kfile))['findings'] if k['property'] == pid} if os.path.exists(kfile) else {}
    viol = []
    for k in known:
        if k['key'] in listed: print('KNOWN-FINDING: property=%s %s' % (pid, listed[k['key']]['what']))
        else: fails.append({'test': 'KF', 'input_hex': '', 'why': 'unlisted deviation %s: %s' % (k['key'], k['example'])})
    rdir = os.path.join(V, 'replay'); os.makedirs(rdir, exist_ok=True)
    def wr(name, d):
        p = os.path.join(rdir, name); json.dump(d, open(p, 'w'), indent=1, default=str); return p
    baseline = {}
    bf = os.path.join(V, 'baseline', pid + '.json')
    if os.path.exists(bf): baseline = json.load(open(bf))
    for i, f in enumerate(fails[:3]):
        p = wr('%s-%d.json' % (pid, i), dict(f, property=pid, kind='failing input on the real code', harness=P.HARNESS,
               rerun='python3-vt %s/replay.py %s-%d.json' % (V, pid, i),
               failed_obligations=[dict(o, unit=u['name']) for u in units for o in u.get('obligs', []) if o['status'] == 'failed'][:10]))
        viol.append('VIOLATION property=%s replay=%s' % (pid, p))
    for u in units:
        if u['status'] == 'failed' and not fails:
            if baseline.get(u['name']) != 'proved': u['note'] = 'not discharged on the reference tree either: undecided'; continue
            bad = [o for o in u['obligs'] if o['status'] == 'failed']
            p = wr('%s-%s.json' % (pid, u['name']), {'property': pid, 'kind': 'obligation discharged on the reference tree and refuted now', 'unit': u['name'], 'contract': u.get('doc'),
                   'obligations': bad, 'loops': u.get('loops'), 'note': 'no-failing-input-found'})
            viol.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, p)); break
    # ---------------------------------------------------------------- evidence
    obl = [o for u in units for o in u.get('obligs', [])]
    dis = [o for o in obl if o['status'] == 'proved']
    be = {}
    for o in dis: be[o['backend']] = be.get(o['backend'], 0) + 1
    undec = [{'unit': u['name'], 'status': u['status'], 'why': u.get('error') or u.get('note', '')} for u in units if u['status'] != 'proved']
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': P.LEVEL,
          'coverage': {
            'obligations': len(obl), 'discharged': len(dis), 'checker_cmd': 'python3-vt /verif/check.py %s --only proof' % pid,
            'trusted_base': sorted({m for u in units for m in u.get('modelled', [])})[:150] + getattr(P, 'TRUSTED', []),
            'obligations_by_backend': be, 'solver_s': round(sum(u.get('solver_s', 0) for u in units), 2),
            'units': [{'unit': u['name'], 'contract': u.get('doc', ''), 'status': u['status'], 'obligations': len(u.get('obligs', [])), 'wall_s': u['wall_s'], 'reachability_guards': u.get('covers')} for u in units],
            'functions_under_contract': sorted({f for u in units for f in u.get('functions', [])}),
            'summarised_by_contract': sorted({f for u in units for f in u.get('summaries', [])}),
            'loop_invariants': [{'function': l['fn'], 'line': l['line'], 'invariants': l['inv'], 'termination': l['term']} for u in units for l in u.get('loops', [])],
            'undecided_units': undec,
            'bounded_stand_in': {'what': getattr(P, 'BOUNDED', ''), 'status': hstat, 'build_error': H.get('error', '')[:600], 'exhaustive': exh},
            'evaluations': sum(counts.values()), 'distinct_nontrivial': distinct, 'cases_per_contract': counts, 'samples': samples or ['(none)'],
            'rule': 'bounded part: byte-string inputs, exhaustive over small alphabets then seeded random (VERIF_SEED) plus solver counterexamples; counted per evaluation; non-trivial = a distinct input of two bytes or more',
            'explanation': P.EXPLAIN},
          'assumptions': getattr(P, 'ASSUMPTIONS', []) + COMMON_ASSUMPTIONS,
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    for u in units:
        print('unit %-34s %-9s %3d obligations  %.1fs %s' % (u['name'], u['status'], len(u.get('obligs', [])), u['wall_s'], (u.get('error') or '')[:300]))
        if a.v:
            if u.get('tb'): print(u['tb'])
            for o in u.get('obligs', []):
                if o['status'] != 'proved': print('   ', o['name'], o['status'], o['where'], str(o.get('model'))[:600])
            for l in u.get('loops', []): print('    loop', l['fn'], l['line'], l['inv'], l['term'])
            print('   cands', u.get('cands', [])[:6], 'covers', u.get('covers'))
    print('harness %s: %d evaluations %s' % (hstat, sum(counts.values()), H.get('error', '')[-600:]))
    for f in fails[:3]: print('  failing input: %s %s %s' % (f['test'], f['input_hex'], f['why']))
    for v in viol[:3]: print(v)
    if os.environ.get('VP_SAVE_BASELINE'):
        os.makedirs(os.path.join(V, 'baseline'), exist_ok=True)
        json.dump({u['name']: u['status'] for u in units}, open(bf, 'w'), indent=1)
    sys.stdout.flush()
    os._exit_code = 1 if viol else 0
    return 1 if viol else 0

def selftest():
    """the tools are there, and the verifier both proves and refutes"""
    import z3, vc
    assert os.path.exists(build.CLANG), 'no clang'
    p = os.path.join(build.scratch(), 't.cpp'); open(p, 'w').write('extern "C" int vp_abs(int x) { return x < 0 ? -x : x; }\n')
    def unit(post):
        def u(c):
            V = c.load([p], mode='bv'); x = z3.BitVec('x', 32); V.assume(c.st, x != -2**31)
            for k, s2, v in c.call('vp_abs', [x], c.st): V.oblige(s2, post(x, v), 'post')
        u.__name__ = 'u%d' % id(post); return u
    a, b = vc.run_units([unit(lambda x, v: v >= 0), unit(lambda x, v: v == x)], budget=60)
    assert a['status'] == 'proved' and b['status'] == 'failed', (a, b)
    print('selftest: clang, z3 and the verifier work'); return 0

COMMON_ASSUMPTIONS = [
  'clang-18 -O0 IR is a faithful reading of the C++ source (the IR is regenerated from /repo on every run)',
  'the C++ standard library behaves as its models in engine/models.py say; strings and containers are shorter than 2^62; operator new never fails',
  'integer arithmetic is modelled exactly (wrap-around for unsigned, an obligation against overflow for signed); floating point is uninterpreted',
  'log output and iostream sinks have no effect on the property']

if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit as e: rc = e.code
    sys.exit(rc)
