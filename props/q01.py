"""Q01: escaping of annotated-text fields round-trips"""
from vc import *
LEVEL = 'proof'
HARNESS = 'h_q01.cpp'
ASSUMPTIONS = ['unescape is called by the reader only on texts in the image of escape or on arbitrary bytes; for the latter only totality is executed, not proved']
BOUNDED = ['quoting executed on every byte string of up to 4 bytes over the special characters and on random ones']
SOURCES = ['common/quoter.cpp', 'common/utt_like_quoter.cpp', 'common/psi_quoter.cpp', 'common/utt_quoter.cpp', 'common/psi_exception.cpp']
SOURCES = [s for s in SOURCES if os.path.exists(os.path.join(build.REPO, s))]
TUS = ['/verif/drivers/p_q01.cpp', 'common/quoter.cpp', 'common/utt_like_quoter.cpp', 'common/psi_quoter.cpp']
EXPLAIN = ('escape(s) is proved equal to the spec function ENC(s,|s|) (per-byte table) and unescape(ENC(s,|s|)) to s, without exception, '
           'for every byte string s; the round trip and the absence of raw separators are corollaries (lemma units)')
BUDGET = 12

def enc1(V, c, extra):
    r = V.unit(c)
    for ch, o in ((32, b'_'), (10, b'\\n'), (9, b'\\t'), (13, b'\\r'), (95, b'\\_'), (42, b'\\*'), (92, b'\\\\')) + tuple((e, b'\\' + bytes([e])) for e in extra):
        r = z3.If(c == ch, V.lit(o), r)
    return r

def setup(c, extra):
    V = c.load([os.path.join(build.VERIF, 'drivers/p_q01.cpp')] + TUS[1:])
    st = c.st
    s, sp = c.str_arg(st)
    n = z3.Length(s)
    ENC = z3.Function('ENC', z3.IntSort(), V.ssort)       # encoding of the first k bytes
    SUF = z3.Function('SUF', z3.IntSort(), V.ssort)       # encoding of the bytes from k on
    def unfold(k):
        e = enc1(V, s[k], extra)
        return z3.And(ENC(0) == z3.Empty(V.ssort), z3.Implies(z3.And(k >= 0, k < n), z3.And(ENC(k + 1) == z3.Concat(ENC(k), e), s[k] >= 0, s[k] < 256)))
    c.enc = lambda m: [('roundtrip', c.bytes_of(m, s))]
    V.cex_small = lambda k: [n <= k]
    return V, st, s, sp, n, ENC, SUF, unfold

def escape_unit(extra, fname):
    def u(c):
        V, st, s, sp, n, ENC, SUF, unfold = setup(c, extra)
        ret = V.region(st, 'ret')
        def gen(V, lv, st0, H):
            out = []
            for loc, kind in V.intcells(lv):
                a = V.acc(loc)
                for l2, (v0, vh) in lv.mod.items():
                    if isinstance(vh, Str):
                        b = V.abscell(l2)
                        out.append(('output = ENC(input read so far)', (lambda a, b: lambda S: z3.And(V.ival(a(S)) >= 0, V.ival(a(S)) <= n, b(S).seq == ENC(V.ival(a(S)))))(a, b), 'enc'))
            return out
        V.cand_gens = [gen]
        V.fact_gens = [lambda V, lv, H: [unfold(V.ival(V.acc(l)(H))) for l, k in V.intcells(lv)]]
        V.assume(st, unfold(z3.IntVal(0)))
        outs = c.call(fname, [ret, sp], st)
        for k, s2, v in outs:
            if k == 'throw': V.oblige(s2, False, 'escape never throws')
            else:
                V.oblige(s2, V.read_abs(s2, ret, Str).seq == ENC(n), 'escape(s) = ENC(s,|s|)')
                V.oblige(s2, V.read_abs(s2, sp, Str).seq == s, 'argument unchanged')
                c.cover(s2, 'return')
    return u

def unescape_unit(extra, fname):
    def u(c):
        V, st, s, sp, n, ENC, SUF, unfold = setup(c, extra)
        t = V.fresh_seq('t')
        def sfold(k):
            e = enc1(V, s[k], extra)
            return z3.And(SUF(n) == z3.Empty(V.ssort), z3.Implies(z3.And(k >= 0, k < n), z3.And(SUF(k) == z3.Concat(e, SUF(k + 1)))))
        # lemma: ENC(n) = ENC(k) ++ SUF(k) for 0<=k<=n, by downward induction on k
        L = st.fork(); k = V.fresh('k', z3.IntSort())
        V.assume(L, z3.And(k >= 0, k < n, unfold(k), sfold(k), ENC(n) == z3.Concat(ENC(k + 1), SUF(k + 1))))
        V.oblige(L, ENC(n) == z3.Concat(ENC(k), SUF(k)), 'lemma step: ENC(n) = ENC(k)++SUF(k)')
        LE = lambda k: z3.Length(ENC(k))
        def arith(k):
            """consequences of the definitions at k, in terms of positions of t only"""
            ch = s[k]; p = LE(k)
            one = lambda b: z3.And(t[p] == b, LE(k + 1) == p + 1)
            two = lambda b: z3.And(t[p] == 92, t[p + 1] == b, LE(k + 1) == p + 2)
            tab = [(32, one(95)), (10, two(110)), (9, two(116)), (13, two(114)), (95, two(95)), (42, two(42)), (92, two(92))] + [(e, two(e)) for e in extra]
            return z3.And(LE(0) == 0, z3.Length(t) == LE(n), z3.Implies(z3.And(k >= 0, k < n), z3.And(ch >= 0, ch < 256, LE(k + 1) <= LE(n),
                    *([z3.Implies(ch == b, f) for b, f in tab] + [z3.Implies(z3.And(*[ch != b for b, f in tab]), one(ch))]))),
                    z3.Implies(k == n, LE(k) == z3.Length(t)))
        split = lambda k: z3.Implies(z3.And(k >= 0, k <= n), t == z3.Concat(ENC(k), SUF(k)))
        for b in (32, 10, 9, 13, 95, 42, 92) + tuple(extra) + (None,):
            L = st.fork(); k = V.fresh('k', z3.IntSort())
            V.assume(L, z3.And(t == ENC(n), unfold(k), sfold(k), split(k), split(k + 1)))
            V.assume(L, s[k] == b if b is not None else z3.And(*[s[k] != x for x in (32, 10, 9, 13, 95, 42, 92) + tuple(extra)]))
            V.oblige(L, arith(k), 'lemma: positions of the encoding of byte %s' % b)
        st = st.fork()
        V.assume(st, z3.Length(t) == LE(n)); V.assume(st, z3.Length(t) < MAXLEN)
        tp = V.region(st, 't', {0: (Str(t), 32)})
        ret = V.region(st, 'ret')
        def gen(V, lv, st0, H):
            out = []
            for loc, kind in V.intcells(lv):
                a = V.acc(loc)
                for l2, (v0, vh) in lv.mod.items():
                    if isinstance(vh, Str):
                        b = V.abscell(l2)
                        def f(S, a=a, b=b):
                            r = b(S).seq; k = z3.Length(r)
                            return z3.And(k <= n, r == z3.SubSeq(s, 0, k), V.ival(a(S)) == z3.Length(ENC(k)))
                        out.append(('result is a prefix of s, position = |ENC(prefix)|', f, 'unesc'))
            return out
        def facts(V, lv, H):
            out = []
            for l2, (v0, vh) in lv.mod.items():
                v = H.cell(*l2)
                if v and isinstance(v[0], Str):
                    k = z3.Length(v[0].seq)
                    out += [arith(k), s == z3.Concat(z3.SubSeq(s, 0, k), z3.SubSeq(s, k, n - k))]
            return out
        V.cand_gens = [gen]; V.fact_gens = [facts]
        V.assume(st, arith(z3.IntVal(0)))
        outs = c.call(fname, [ret, tp], st)
        for k, s2, v in outs:
            if k == 'throw':
                V.oblige(s2, False, 'unescape accepts every escaped text')
            else:
                V.oblige(s2, V.read_abs(s2, ret, Str).seq == s, 'unescape(ENC(s)) = s'); c.cover(s2, 'return')
    return u

def separators(c):
    """lemma: no byte of ENC is a space, newline, tab or CR"""
    V, st, s, sp, n, ENC, SUF, unfold = setup(c, (35,))
    ch = V.fresh('ch', z3.IntSort()); V.assume(st, z3.And(ch >= 0, ch < 256))
    for extra in ((35,), ()):
        e = enc1(V, ch, extra)
        for j in (0, 1):
            V.oblige(st, z3.Implies(j < z3.Length(e), z3.And(*[e[j] != x for x in (32, 10, 9, 13)])), 'encoded byte %d is no separator' % j)
        V.oblige(st, z3.And(z3.Length(e) >= 1, z3.Length(e) <= 2), 'one or two bytes per byte')
    c.cover(st, 'lemma')

def psi_escape(c):
    """PSI quoter: escape(s) = ENC(s) for every s"""
    escape_unit((35,), 'vp_psi_escape')(c)
def psi_unescape(c):
    """PSI quoter: unescape(ENC(s)) = s for every s"""
    unescape_unit((35,), 'vp_psi_unescape')(c)
UNITS = [psi_escape, psi_unescape, separators]
