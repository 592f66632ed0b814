"""G01: file patterns select exactly the files they describe"""
from vc import *
import re
LEVEL = 'proof'
HARNESS = 'h_g01.cpp'
BUDGET = 20
SOURCES = ['common/' + f for f in 'segment_glob.cpp ant_like_path_glob.cpp file_fetcher.cpp logging.cpp psi_exception.cpp string_helpers.cpp'.split()]
HOPTS = {'libs': ['-llog4cpp', '-lpthread', '-lboost_filesystem', '-lboost_system', '-lpcrecpp']}
EXPLAIN = 'see DESIGN.md'
def consts(V, name, n):
    for m in V.mods:
        if name in m.globs:
            init, ty, _ = m.ginit(name)
            if init: return [m.const_at(init, ty, 8 * k, 8)[1] for k in range(n)]
    raise Unsupported(name)
def tb(v): return v if isz(v) and z3.is_bool(v) else (z3.BoolVal(bool(v)) if not isz(v) else v != 0)
def sm(x): return z3.simplify(x) if isz(x) else x
STAR, Q = 42, 63
def matches(c):
    """a name matches exactly if the pattern describes it: M(i, j) says that the pattern from byte i on describes the name from byte j on, read off the pattern character by character"""
    V = c.load([os.path.join(build.VERIF, 'drivers/p_g01.cpp'), 'common/segment_glob.cpp']); st = c.st; I = z3.IntSort(); off = consts(V, 'vp_glob_off', 2)
    g = V.fresh_seq('pattern'); s, sp = c.str_arg(st, 'name'); G, n = z3.Length(g), z3.Length(s); this = V.region(st, 'glob', {off[0]: (Str(g), 32), off[1]: (0, 1)})
    V.assume(st, z3.And(G < 2**31, n < 2**31, G >= 1))
    M = z3.Function('M', I, I, z3.BoolSort()); W = z3.Function('W', I, I, z3.BoolSort())
    star, lit = lambda i: z3.And(i >= 0, i < G, g[i] == STAR), lambda i: z3.And(i >= 0, i < G, g[i] != STAR)
    def facts(i, j):
        """the meaning of patterns at (i, j): W is "at j or some later position"; the last two lines are the lemmas proved in the unit below"""
        ok = z3.And(i >= 0, i <= G, j >= 0, j <= n); rng = lambda x: z3.And(x >= 1, x < 128)
        return z3.And(z3.Implies(z3.And(i >= 0, i < G), rng(g[i])), z3.Implies(z3.And(j >= 0, j < n), rng(s[j])),
            z3.Implies(ok, z3.And(z3.Implies(i == G, M(i, j) == (j == n)), z3.Implies(star(i), M(i, j) == W(i + 1, j)), z3.Implies(lit(i), M(i, j) == z3.And(j < n, z3.Or(g[i] == Q, g[i] == s[j]), M(i + 1, j + 1))), W(i, j) == z3.Or(M(i, j), z3.And(j < n, W(i, j + 1))))),
            z3.Implies(z3.And(ok, star(i)), z3.And(z3.Implies(W(i, j), M(i, j)))), z3.Implies(z3.And(ok, lit(i), W(i, j)), z3.And(j < n, W(i + 1, j + 1))), z3.Implies(z3.And(ok, i == G), W(i, j)), z3.Implies(z3.And(ok, i == G, j == n), M(i, j)))
    V.assume(st, facts(z3.IntVal(0), z3.IntVal(0)))
    return run(c, V, st, g, s, G, n, M, W, facts, this, sp)
def run(c, V, st, g, s, G, n, M, W, facts, this, sp):
    M00 = M(z3.IntVal(0), z3.IntVal(0))
    near = lambda i, j: sm(z3.And([z3.Implies(z3.And(j + k >= 0, j + k < n), z3.And(s[sm(j + k)] >= 1, s[sm(j + k)] < 128)) for k in (0, 1, 2)])) if j is not None and i is None else z3.And(near(None, j), facts(i, j))
    V.peel_undef = True; V.own_cands = True; V.symbolic_unroll = 0; V.assume(st, near(z3.IntVal(0), z3.IntVal(0)))
    def locs(V, lv, H, st0):
        """positions in the pattern and in the name: those the loop moves, and the others"""
        r = {}
        for rid, reg in H.mem.items():
            for o, (v, size) in reg.items():
                if isinstance(v, Ptr) and v.rid and v.rid[0] == 'd' and 'alloca' in rid: r.setdefault('name' if "'name'" in str(v.rid) else 'glob', []).append(V.acc((rid, o)))
        return r.get('glob', []), r.get('name', [])
    at = lambda a, b, x, y: z3.If(z3.And(a == b, x == n), n, y - 1)   # where the last star was tried to end
    def gen(V, lv, st0, H):
        r = []; gs, ss = locs(V, lv, H, st0); lv_state[0] = H
        for a in gs:
            r.append(('the rest is empty', (lambda a: lambda S: M00 == M(a(S), n))(a), 'rest'))
            r.append(('in the pattern', (lambda a: lambda S: z3.And(a(S) >= 0, a(S) <= G))(a), 'ig'))
            for x in ss:
                r.append(('in the name', (lambda x: lambda S: z3.And(x(S) >= 0, x(S) <= n))(x), 'is'))
                r.append(('the rest decides', (lambda a, x: lambda S: M00 == M(a(S), x(S)))(a, x), 'rest'))
                for b in gs:
                    for y in ss:
                        if a is b or x is y: continue
                        r.append(('the last star decides', (lambda a, b, x, y: lambda S: z3.And(a(S) >= 0, a(S) <= G, x(S) >= 0, x(S) <= n, b(S) >= 0, b(S) <= a(S), y(S) >= 1, y(S) <= n, x(S) >= at(a(S), b(S), x(S), y(S)), M00 == W(b(S), at(a(S), b(S), x(S), y(S))), M(b(S), at(a(S), b(S), x(S), y(S))) == M(a(S), x(S)), z3.Implies(W(b(S), at(a(S), b(S), x(S), y(S))), W(a(S), x(S)))))(a, b, x, y), 'star'))
        return r
    V.cand_gens = [gen]
    def fg(V, lv, H):
        gs, ss = locs(V, lv, H, H); gs, ss = [a(H) for a in gs], [x(H) for x in ss]
        return [near(a, x) for a in gs for x in ss] + [facts(sm(i), sm(j)) for a in gs for i in (a, a + 1) for x in ss for j in (x, x - 1, x + 1)] + [facts(sm(i), n) for a in gs for i in (a, a + 1)] + [facts(G, n), facts(G, n - 1)]
    def mg(V, lv):
        gs, ss = locs(V, lv, lv_state[0], None); return [('lexicographic', (lambda b, y, x: lambda S: (G - b(S), n - y(S), n - x(S)))(b, y, x)) for b in gs for y in ss for x in ss if x is not y]
    V.measure_gens = [mg]; lv_state = [st]
    V.fact_gens = [fg]
    for k, s2, v in c.call('vp_matches', [this, sp], st):
        V.oblige(s2, tb(v) == M00, 'the answer is what the pattern means'); c.cover(s2, 'matches')
def lemmas(c):
    """the two lemmas about W the loop invariant uses, by induction on the distance from the end of the name: read off the definitions of M and W"""
    V = c.load([os.path.join(build.VERIF, 'drivers/p_g01.cpp')]); I = z3.IntSort()
    for what in ('star', 'literal', 'end'):
        st = c.st.fork(); G, n, i, j = (V.fresh_int(st, 64, x) for x in ('G', 'n', 'i', 'j')); M, W, T, S = z3.Function('M', I, I, z3.BoolSort()), z3.Function('W', I, I, z3.BoolSort()), z3.Function('star', I, z3.BoolSort()), z3.Function('same', I, I, z3.BoolSort())
        d = lambda i, j: z3.Implies(z3.And(i >= 0, i <= G, j >= 0, j <= n), z3.And(z3.Implies(i == G, M(i, j) == (j == n)), z3.Implies(z3.And(i < G, T(i)), M(i, j) == W(i + 1, j)), z3.Implies(z3.And(i < G, z3.Not(T(i))), M(i, j) == z3.And(j < n, S(i, j), M(i + 1, j + 1))), W(i, j) == z3.Or(M(i, j), z3.And(j < n, W(i, j + 1)))))
        V.assume(st, z3.And(i >= 0, i <= G, j >= 0, j <= n, *[d(a, b) for a in (i, i + 1) for b in (j, j + 1, n)]))
        lem = {'star': lambda j: z3.Implies(z3.And(i < G, T(i), W(i, j)), M(i, j)), 'literal': lambda j: z3.Implies(z3.And(i < G, z3.Not(T(i)), W(i, j)), z3.And(j < n, W(i + 1, j + 1))), 'end': lambda j: z3.Implies(i == G, W(i, j))}[what]
        s = st.fork(); V.assume(s, j == n); V.oblige(s, lem(n), 'lemma (%s): at the end of the name' % what)
        s = st.fork(); V.assume(s, z3.And(j < n, lem(j + 1))); V.oblige(s, lem(j), 'lemma (%s): step' % what); c.cover(s, what)
def fixed(c):
    """a pattern without wildcards is recognised as such and describes its own text only"""
    V = c.load([os.path.join(build.VERIF, 'drivers/p_g01.cpp'), 'common/segment_glob.cpp']); st = c.st; off = consts(V, 'vp_glob_off', 2); g = V.fresh_seq('pattern'); s, sp = c.str_arg(st, 'name')
    this = V.region(st, 'glob', {off[0]: (Str(g), 32), off[1]: (1, 1)})
    for k, s2, v in c.call('vp_matches', [this, sp], st.fork()):
        V.oblige(s2, tb(v) == (s == g), 'a fixed pattern matches its own text only'); c.cover(s2, 'fixed')
    i = V.fresh_int(st, 64, 'i'); V.ghosts = [i]; q = z3.Int('q'); sp_ = lambda i: z3.And(i >= 0, i < z3.Length(g), z3.Or(g[i] == STAR, g[i] == Q))
    for k, s2, v in c.call('vp_check', [this], st):
        f = tb(V.load(s2, V.gep(s2, this, off[1], []), sym._FakeTy(8)))
        V.oblige(s2, z3.Implies(f, z3.Not(sp_(i))), 'a pattern taken for a fixed one has no wildcard'); V.oblige(s2, z3.Or(f, z3.Exists([q], sp_(q))), 'a pattern not taken for a fixed one has a wildcard'); c.cover(s2, 'check')
def slices(F, s, x, i, p, q):
    """parts of F that lie behind x, when everything behind x in F is what is behind i in s"""
    L, n = z3.Length(F), z3.Length(s); d = x - i
    return z3.Implies(z3.And(x >= 0, x <= L, i >= 0, i <= n, L - x == n - i, z3.SubSeq(F, x, L - x) == z3.SubSeq(s, i, n - i), i <= p, p < q, q < n), z3.And(
        z3.SubSeq(F, p + d + 1, q - p - 1) == z3.SubSeq(s, p + 1, q - p - 1), z3.SubSeq(F, 0, p + d) == z3.Concat(z3.SubSeq(F, 0, x), z3.SubSeq(s, i, p - i)),
        z3.SubSeq(F, q + 1 + d, L - (q + 1 + d)) == z3.SubSeq(s, q + 1, n - q - 1)))
def parameter_lemma(c):
    """lemma used for the parameters: parts of equal ends of two texts are equal"""
    V = c.load([os.path.join(build.VERIF, 'drivers/p_g01.cpp')]); st = c.st; F, s = V.fresh_seq('F'), V.fresh_seq('s'); x, i, p, q = (V.fresh(v, z3.IntSort()) for v in 'xipq')
    g = slices(F, s, x, i, p, q); hyp, con = g.arg(0), g.arg(1); V.assume(st, hyp)
    for k, part in enumerate(con.children()): V.oblige(st, part, 'part %d' % k)
    c.cover(st, 'lemma')
def flat(hs):
    for h in hs:
        if z3.is_and(h): yield from flat(h.children())
        elif z3.is_implies(h) and z3.is_and(h.arg(1)): yield from flat([z3.Implies(h.arg(0), x) for x in h.arg(1).children()])
        else: yield h
def quantified(h): return z3.is_quantifier(h) or any(quantified(x) for x in h.children())
def by_position(hyps, goal):
    """whether the goal follows when texts are just functions from positions to bytes (weaker than what is known, but quick)"""
    so = z3.Solver(); so.add(*hyps, z3.Not(goal)); t = so.to_smt2()
    seqs = sorted(set(re.findall(r'\(seq\.nth ([^\s()]+) ', t)) | set(re.findall(r'\(seq\.len ([^\s()]+)\)', t)))
    t = re.sub(r'\(seq\.nth ([^\s()]+) ', lambda m: '(|nth%d| ' % seqs.index(m[1]), t); t = re.sub(r'\(seq\.len ([^\s()]+)\)', lambda m: '|len%d|' % seqs.index(m[1]), t)
    t = ''.join('(declare-fun |nth%d| (Int) Int)(declare-fun |len%d| () Int)\n' % (j, j) for j in range(len(seqs))) + t.replace('(check-sat)', '')
    so = z3.Solver(); so.set('timeout', 2000); so.from_string(t); return so.check() == z3.unsat
def consts_of(h):
    r = {h} if z3.is_const(h) and h.decl().kind() == z3.Z3_OP_UNINTERPRETED else set()
    for x in h.children(): r |= consts_of(x)
    return r
def parameters(c):
    """in a file specification each %name% is replaced by the value of that parameter, once, and all else stays; an unknown parameter or a lone percent sign is an error, nothing else is"""
    V = c.load([os.path.join(build.VERIF, 'drivers/p_g01.cpp'), 'common/file_fetcher.cpp']); st = c.st; I = z3.IntSort(); off = consts(V, 'vp_fetch_off', 1)[0]
    s, sp = c.str_arg(st, 'spec'); n = z3.Length(s); E0 = z3.Empty(V.ssort); par = models.Map.any(V, 'params')
    this = V.region(st, 'fetcher', {off: (par, 48)}); out = V.region(st, 'out', {0: (Str(E0), 32)}); V.assume(st, n < 2**31)
    FP, E, B = z3.Function('FP', I, I), z3.Function('E', I, V.ssort), z3.Function('B', I, z3.BoolSort()); k = z3.Int('k!p')
    seg = lambda a, b: z3.SubSeq(s, a, b - a)
    def first(i): return z3.Implies(z3.And(i >= 0, i <= n), z3.And(i <= FP(i), FP(i) <= n, z3.Implies(FP(i) < n, s[FP(i)] == 37), z3.ForAll([k], z3.Implies(z3.And(i <= k, k < FP(i)), s[k] != 37), patterns=[s[k]])))
    def facts(i):
        """the meaning of the specification from byte i on: its expansion E, or an error B"""
        p = FP(i); q = FP(p + 1); name = seg(p + 1, q)
        return z3.And(first(i), first(p + 1), z3.Implies(z3.And(i >= 0, i <= n), z3.And(z3.Implies(p == n, z3.And(z3.Not(B(i)), E(i) == seg(i, n))), z3.Implies(z3.And(p < n, q == n), B(i)),
            z3.Implies(z3.And(p < n, q < n), z3.And(z3.Implies(z3.Not(par.dom[name]), B(i)), z3.Implies(par.dom[name], z3.And(B(i) == B(q + 1), E(i) == z3.Concat(seg(i, p), par.val[name], E(q + 1)))))))))
    def cut(S, F, x):
        """the text before and behind position x (read off the parts of F when x is at the end of one)"""
        ps = F.children() if F.decl().name() == 'seq.++' else []
        while any(p.decl().name() == 'seq.++' for p in ps): ps = [y for p in ps for y in (p.children() if p.decl().name() == 'seq.++' else [p])]
        cat = lambda l: z3.Empty(V.ssort) if not l else l[0] if len(l) == 1 else z3.Concat(*l)
        for m in range(1, len(ps)):
            if V.holds(S, x == sum(z3.Length(p) for p in ps[:m])): return cat(ps[:m]), cat(ps[m:])
        return z3.SubSeq(F, 0, x), z3.SubSeq(F, x, z3.Length(F) - x)
    def at(F, x): return n - z3.Length(F) + x
    heads, learned = [], {}
    def bridge(F, x, i):
        """byte by byte: what is behind x in F is what is behind i in the specification"""
        return z3.And(x >= 0, i >= 0, i <= n, z3.SubSeq(F, x, z3.Length(F) - x) == seg(i, n)), [z3.Implies(y < n, s[y] == F[y - i + x]) for y in (FP(i), FP(FP(i) + 1))] + [
            z3.ForAll([k], z3.Implies(z3.And(i <= k, k < n), s[k] == F[k - i + x]), patterns=[s[k]]), z3.ForAll([k], z3.Implies(z3.And(x <= k, k < z3.Length(F)), F[k] == s[k - x + i]), patterns=[F[k]])]
    def learn(S, F, F0, x0, i0, more):
        """equations between the positions found and those of the specification, and a proof attempt from them and the quantifier-free part of what is known"""
        key = (id(S), str(x0), [str(e) for e in more].__str__())
        if key in learned: return learned[key][1:]
        p, d, eqs = FP(i0), x0 - i0, []
        ffs = [t for t in (consts_of(F) if F is not None else set().union(*[consts_of(h) for h in S.pc])) if t.sort() == I and t.decl().name().startswith(('ff!', 'end!'))]
        same, then = bridge(F0, x0, i0)
        if not V.holds(S, same): return (lambda g: g), []
        base = [h for h in flat(S.pc) if not re.search('seq.extract|seq.[+][+]|select', h.sexpr())] + then
        for e in [t == u for t in ffs for u in (p + d, FP(p + 1) + d, FP(p + 1) + 1 + d)] + more:
            if by_position(base + eqs, e): eqs.append(e)
        def lean(g):
            if not eqs: return g
            so = z3.Solver(); so.set('timeout', 8000); so.add(*[h for h in flat(S.pc) if not quantified(h)], *eqs, z3.Not(g))
            return z3.BoolVal(True) if so.check() == z3.unsat else g
        learned[key] = (S, lean, eqs); return lean, eqs
    def gen(V, lv, st0, H):
        r = []
        for loc, kind in V.intcells(lv):
            a = V.acc(loc)
            for l2, (v0, vh) in lv.mod.items():
                if isinstance(vh, Str):
                    def inv(S, j, a=a, o=V.abscell(l2)):
                        F, x = o(S).seq, V.ival(a(S)); i = at(F, x); A, R = cut(S, F, x); i0 = at(o(H).seq, V.ival(a(H))); q1 = FP(FP(i0) + 1) + 1
                        lean = lambda g: g
                        if not x.eq(V.ival(a(H))):
                            lean, eqs = learn(S, F, o(H).seq, V.ival(a(H)), i0, [i == q1])
                            if eqs and eqs[-1].eq(i == q1): i = q1
                        heads[:] = [(o(H).seq, V.ival(a(H)), i0)]
                        g = [lambda: z3.And(x >= 0, x <= z3.Length(F)), lambda: z3.And(i >= 0, i <= n), lambda: R == seg(i, n), lambda: B(i) == B(z3.IntVal(0)), lambda: z3.Concat(A, E(i)) == E(z3.IntVal(0))][j]()
                        return lean(g)
                    for j, d in enumerate(('the position is in the text', 'as much is left as of the specification', 'what is left is the rest of the specification', 'an error is left iff there was one', 'what is done and the expansion of the rest is the whole expansion')):
                        r.append((d, (lambda inv, j: lambda S: inv(S, j))(inv, j), 'par%d' % j))
        return r
    def facts_at(V, lv, H):
        r = []
        for loc, kind in V.intcells(lv):
            x = V.ival(V.acc(loc)(H))
            for l2, (v0, vh) in lv.mod.items():
                if isinstance(vh, Str):
                    F = V.abscell(l2)(H).seq; i = at(F, x); same, then = bridge(F, x, i)
                    r += [z3.Length(F) < 2**62, facts(i), slices(F, s, x, i, FP(i), FP(FP(i) + 1)), z3.Implies(same, z3.And(*then))]
        return r
    V.measure_gens = [lambda V, lv: [('what is left of the text', (lambda a, o: lambda S: z3.Length(o(S).seq) - V.ival(a(S)))(V.acc(loc), V.abscell(l2))) for loc, kind in V.intcells(lv) for l2, (v0, vh) in lv.mod.items() if isinstance(vh, Str)]]
    V.cand_gens = [gen]; V.fact_gens = [facts_at]; V.assume(st, facts(z3.IntVal(0)))
    paths = list(c.call('vp_params', [out, this, sp], st))
    if any('par4' not in l['keys'] for l in V.loops_inv): raise Unsupported('no invariant found that relates the loop to the specification')
    for kd, s2, v in paths:
        lean = learn(s2, None, *heads[0], [FP(heads[0][2]) == n, FP(FP(heads[0][2]) + 1) == n])[0] if heads else lambda g: g
        if kd == 'throw': V.oblige(s2, lean(B(z3.IntVal(0))), 'an error only for an unknown parameter or a lone percent sign'); c.cover(s2, 'throw'); continue
        V.oblige(s2, lean(z3.And(z3.Not(B(z3.IntVal(0))), V.read_abs(s2, out, Str).seq == E(z3.IntVal(0)))), 'the expansion of the specification'); c.cover(s2, 'return')
UNITS = [matches, lemmas, fixed, parameter_lemma, parameters]
TRUSTED = ['std::string (find_first_of, comparison, c_str): modelled']
ASSUMPTIONS = ['the proof of the matching loop takes names and patterns of ASCII characters of any length up to 2^31 bytes; longer characters are covered by the bounded harness', 'the names "." and ".." do not occur as pattern elements', 'directories do not change while they are searched']
BOUNDED = ['directory search and file specifications: generated trees of up to 14 files and directories, up to four pattern elements, parameters of eleven kinds', 'multi-byte names: all patterns up to 6 elements and names up to 5 characters over four letters (cut by time), longer at random; names that are not valid UTF-8: all of two bytes']
