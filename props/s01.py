"""S01: a string fragment behaves exactly as its text"""
from vc import *
LEVEL = 'proof'
HARNESS = 'h_s01.cpp'
ASSUMPTIONS = ['fragments of fewer than 2^31 bytes']
BOUNDED = ['every pair of short fragments of every kind; histories of up to 30 operations']
BUDGET = 12
SOURCES = ['common/string_frag.cpp']
EXPLAIN = 'see DESIGN.md'
NP = 2**64 - 1
def setup(c, K):
    V = c.load([os.path.join(build.VERIF, 'drivers/p_s01.cpp'), 'common/string_frag.cpp'])
    st = c.st
    s, sp = c.str_arg(st)
    b, k, n = (V.fresh_int(st, 64, x) for x in 'bkn')
    V.assume(st, z3.And(b >= 0, n >= 0, k >= 0, b + n <= z3.Length(s)))
    if K == 2: V.assume(st, k <= n)
    if K in (3, 4): V.assume(st, k <= b)
    T = z3.SubSeq(s, b, n)
    V.assume(st, z3.Length(T) == n)
    c.T = T; c.K = K; c.args = [sp, b, k, n]; c.s = s
    c.out = V.region(st, 'o', {0: (Str(z3.Empty(V.ssort)), 32)})
    def enc(m, op=None, extra=()):
        sb = c.bytes_of(m, s)
        I = [c.int_of(m, x) for x in (b, k, n)] + [c.int_of(m, e) for e in c.extra]
        if sb is None or len(sb) > 200: return []
        s2 = c.bytes_of(m, c.s2) if c.s2 is not None else b''
        return [('op', bytes([c.op, K, len(sb)]) + sb + bytes([len(s2)]) + s2 + bytes(min(x, 255) for x in I))]
    c.extra = []; c.s2 = None; c.op = 0; c.enc = enc
    V.cex_small = lambda q: [z3.Length(s) <= q]
    return V, st
def go(c, V, st, fn, args, post, name):
    n0 = 0
    for k, s2, v in c.call('vp_%s%d' % (fn, c.K), args, st):
        if k == 'throw': V.oblige(s2, False, name + ' never throws'); continue
        V.oblige(s2, post(s2, v), name); n0 += 1
    if not n0: V.oblige(st, False, name + ' returns')
def outstr(V, c): return lambda s2: V.read_abs(s2, c.out, Str).seq
def sub_(T, n, p, m): return z3.SubSeq(T, p, z3.If(m > n - p, n - p, m))
def mk(K, what):
    def view(c):
        V, st = setup(c, K); T = c.T; n = c.args[3]; o = outstr(V, c)
        c.op = 0; go(c, V, st.fork(), 'str', [c.out] + c.args, lambda s2, v: o(s2) == T, 'str() is the text')
        go(c, V, st.fork(), 'copy', [c.out] + c.args, lambda s2, v: o(s2) == T, 'a copy has the same text')
        go(c, V, st.fork(), 'len', c.args, lambda s2, v: V.ival(v) == n, 'length() is the length of the text')
        i = V.fresh_int(st, 64, 'i'); V.assume(st, z3.And(i >= 0, i < n)); c.extra = [i]
        V.assume(st, T[i] == c.s[c.args[1] + i])
        c.op = 1
        go(c, V, st.fork(), 'at', c.args + [i], lambda s2, v: v == T[i], 'f[i] is the i-th byte of the text')
        go(c, V, st.fork(), 'data', c.args + [i], lambda s2, v: v == T[i], 'data()[i] is the i-th byte of the text')
        c.cover(st, 'view')
    def find(c):
        V, st = setup(c, K); T = c.T; n = c.args[3]
        p = V.fresh_int(st, 64, 'p'); ch = V.fresh_int(st, 8, 'c'); V.assume(st, p >= 0); c.extra = [p, ch]; c.op = 2
        j = V.fresh('j', z3.IntSort()); bb = c.args[1]
        V.assume(st, z3.Implies(z3.And(j >= 0, j < n), T[j] == c.s[bb + j]))
        V.ghosts = [j, bb + j]
        if K in (3, 4): V.ghosts.append(c.args[2] + j)
        def post(s2, v):
            v = V.ival(v)
            return z3.And(z3.Implies(v == NP, z3.Implies(z3.And(j >= p, j < n), T[j] != ch)),
                          z3.Implies(v != NP, z3.And(v >= p, v < n, T[v] == ch, z3.Implies(z3.And(j >= p, j < v), T[j] != ch))))
        go(c, V, st, 'find', c.args + [ch, p], post, 'find is the first occurrence in the text'); c.cover(st, 'find')
    def sub(c):
        V, st = setup(c, K); T = c.T; n = c.args[3]; o = outstr(V, c)
        p, m = V.fresh_int(st, 64, 'p'), V.fresh_int(st, 64, 'm'); V.assume(st, z3.And(p >= 0, p <= n, m >= 0)); c.extra = [p, m]; c.op = 3
        go(c, V, st.fork(), 'sub', [c.out] + c.args + [p, m], lambda s2, v: o(s2) == sub_(T, n, p, m), 'substr is that part of the text')
        V.assume(st, p + m <= n)
        go(c, V, st.fork(), 'frag', [c.out] + c.args + [p, m], lambda s2, v: o(s2) == z3.SubSeq(T, p, m), 'a sub-fragment has that part of the text'); c.cover(st, 'sub')
    def app(c):
        V, st = setup(c, K); T = c.T; n = c.args[3]; o = outstr(V, c)
        b2, n2 = V.fresh_int(st, 64, 'b2'), V.fresh_int(st, 64, 'n2')
        V.assume(st, z3.And(b2 >= 0, n2 >= 0)); c.extra = [b2, n2]
        go(c, V, st.fork(), 'self', [c.out] + c.args, lambda s2, v: o(s2) == z3.Concat(T, T), 'appending a fragment to itself doubles it')
        same = st.fork(); V.assume(same, b2 + n2 <= z3.Length(c.s)); c.op = 4
        go(c, V, same.fork(), 'apps', [c.out] + c.args + [b2, n2], lambda s2, v: o(s2) == z3.Concat(T, z3.SubSeq(c.s, b2, n2)), 'append concatenates the texts (same source)')
        go(c, V, same.fork(), 'appl', c.args + [b2, n2], lambda s2, v: V.ival(v) == n + n2, 'append adds the lengths')
        t2, tp = c.str_arg(st, 's2'); V.assume(st, b2 + n2 <= z3.Length(t2)); c.s2 = t2; c.op = 5
        go(c, V, st.fork(), 'app', [c.out] + c.args + [tp, b2, n2], lambda s2, v: o(s2) == z3.Concat(T, z3.SubSeq(t2, b2, n2)), 'append concatenates the texts')
        go(c, V, st.fork(), 'appo', [c.out] + c.args + [tp, b2, n2], lambda s2, v: o(s2) == z3.Concat(T, z3.SubSeq(t2, b2, n2)), 'append of an owning fragment concatenates the texts')
        go(c, V, st.fork(), 'asg', [c.out] + c.args + [tp, b2, n2], lambda s2, v: o(s2) == T, 'assignment copies the text'); c.cover(st, 'app')
    f = {'view': view, 'find': find, 'sub': sub, 'app': app}[what]
    f.__name__ = '%s%d' % (what, K); f.__doc__ = 'fragments of kind %d (see p_s01.cpp), operation %s' % (K, what)
    return f
UNITS = [mk(K, w) for K in range(5) for w in ('view', 'find', 'sub', 'app')]
