"""Support for property proof scripts: a Unit is one function-level proof over the current IR."""
import time, traceback, os, sys, json, signal, multiprocessing as mp
import z3
import build, ir, sym, models
from sym import *
from models import *

class Ctx:
    """one proof unit's verifier, entry helpers and counterexample encoders"""
    def __init__(self):
        self.V = None; self.cands = []; self.enc = None; self.covers = []; self.notes = []
    def load(self, srcs, mode='int', timeout_ms=8000, **kw):
        paths = build.irs(srcs, **kw)
        mods = [ir.Module(p) for p in paths]
        V = Verifier(mode, mods, timeout_ms)
        models.install(V)
        V.cand_gens = []; V.fact_gens = []; V.measure_gens = []
        V.nulfree = []; V.cex = self.cex
        if self.V is not None:      # a unit may look at several starting situations: obligations add up
            for k in ('obligs', 'loops_inv', 'functions', 'modelled', 'summaries', 'solver_time'): setattr(V, k, getattr(self.V, k))
        self.V = V
        self.st = State()
        return V
    def fn(self, pat): return self.V.find(pat)
    def str_arg(self, st, name='s'):
        V = self.V; s = V.fresh_seq(name); V.assume(st, z3.And(z3.Length(s) >= 0, z3.Length(s) < MAXLEN))
        if V.mode == 'int':
            # bytes are 0..255
            k = z3.Int('k!%s' % s)
            self.byte_fact = None
        return s, V.region(st, name, {0: (Str(s), 32)})
    def cex(self, model):
        if self.enc is None or model is None: return
        try:
            for t, b in self.enc(model):
                if b is not None and (t, b) not in self.cands and len(self.cands) < 40: self.cands.append((t, b))
        except Exception: pass
    def bytes_of(self, m, s, maxlen=4000):
        n = m.eval(z3.Length(s), model_completion=True).as_long()
        if n > maxlen: return None
        out = []
        for i in range(n):
            v = m.eval(s[i], model_completion=True)
            out.append(v.as_long() % 256 if hasattr(v, 'as_long') else 120)
        return bytes(out)
    def int_of(self, m, x):
        v = m.eval(x, model_completion=True); return v.as_long()
    def cover(self, st, name):
        """vacuity guard: the path condition at this point must not be contradictory"""
        if (name, 'sat') in self.covers: return True
        s = z3.Solver(); s.set('timeout', 3000); s.add(*self.V.axioms); s.add(*st.pc)
        r = s.check()
        if (name, str(r)) not in self.covers: self.covers.append((name, str(r)))
        return r != z3.unsat
    def call(self, pat, args, st):
        F = self.fn(pat) if isinstance(pat, str) else pat
        return self.V.exec_function(F, args, st)

def run_unit(fn, budget, q):
    t = time.time(); c = Ctx(); res = {'name': fn.__name__, 'doc': (fn.__doc__ or '').strip()}
    try:
        sys.setrecursionlimit(60000)
        import threading
        c.deadline = t + budget
        z3.set_param('memory_max_size', 3000)
        def body():
            try:
                fn(c)
                res['status'] = 'ok'
            except (Unsupported, NeedInvariant, build.BuildError) as e:
                res['status'] = 'undecided'; res['error'] = '%s: %s' % (type(e).__name__, e)
                if os.environ.get('VP_TRACE'): res['tb'] = traceback.format_exc()
            except Dead:
                res['status'] = 'undecided'; res['error'] = 'all paths dead'
            except Exception as e:
                res['status'] = 'undecided'; res['error'] = 'verifier limit: %s: %s' % (type(e).__name__, str(e)[:300]); res['tb'] = traceback.format_exc()[-1500:]
        threading.stack_size(512 * 1024 * 1024)
        th = threading.Thread(target=body); th.start(); th.join()
        V = c.V
        if V is not None:
            def dump(o):
                d = {'name': o.name, 'status': o.status, 'backend': o.backend, 'time': round(o.time, 3), 'where': list(o.where) if o.where else None}
                if o.status != 'proved':
                    d['reason'] = o.reason
                    if o.model is not None: d['model'] = str(o.model)[:3000]
                return d
            res['obligs'] = [dump(o) for o in V.obligs]
            res['loops'] = V.loops_inv
            res['functions'] = sorted({V._dem_cache.get(f, f) for f in V.functions})
            res['modelled'] = sorted(V.modelled); res['summaries'] = sorted(V.summaries)
            res['solver_s'] = round(V.solver_time, 2)
            for o in V.obligs:
                if o.model is not None: c.cex(o.model)
            if res['status'] == 'ok':
                st = [o.status for o in V.obligs]
                names = {n for n, r in c.covers}; bad = [n for n in names if all(r == 'unsat' for m, r in c.covers if m == n)]
                if not st: res['status'] = 'undecided'; res['error'] = 'no obligations generated'
                elif bad: res['status'] = 'undecided'; res['error'] = 'vacuous: ' + ', '.join(bad)
                elif all(s == 'proved' for s in st): res['status'] = 'proved'
                elif any(s == 'failed' for s in st): res['status'] = 'failed'
                else: res['status'] = 'undecided'; res['error'] = 'obligations not discharged: ' + '; '.join('%s (%s)' % (o.name, o.status) for o in V.obligs if o.status != 'proved')[:800]
            res['cands'] = [(t_, b.hex()) for t_, b in c.cands]
            res['covers'] = c.covers
        res['notes'] = c.notes
    except Exception as e:
        res['status'] = 'undecided'; res['error'] = 'internal: %s' % e; res['tb'] = traceback.format_exc()[-1500:]
    res['wall_s'] = round(time.time() - t, 2)
    q.put(res)

def run_units(units, budget=120, par=6):
    """run proof units in parallel processes, each killed after its budget"""
    ctx = mp.get_context('fork')
    pend = list(units); live = []; out = {}
    while pend or live:
        while pend and len(live) < par:
            u = pend.pop(0); q = ctx.Queue(); p = ctx.Process(target=run_unit, args=(u, budget, q)); p.start(); live.append((u, p, q, time.time()))
        for it in list(live):
            u, p, q, t0 = it
            try:
                r = q.get(timeout=0.05)
                out[u.__name__] = r; p.join(5); live.remove(it)
                if p.is_alive(): p.kill()
                continue
            except Exception: pass
            if not p.is_alive():
                try: out[u.__name__] = q.get(timeout=1)
                except Exception: out[u.__name__] = {'name': u.__name__, 'status': 'undecided', 'error': 'verifier process died', 'wall_s': time.time() - t0}
                live.remove(it)
            elif time.time() - t0 > budget + 20:
                p.kill(); out[u.__name__] = {'name': u.__name__, 'status': 'undecided', 'error': 'time budget exhausted', 'wall_s': time.time() - t0}; live.remove(it)
    return [out[u.__name__] for u in units]
