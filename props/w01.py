"""W01: static files"""
from vc import *
from webcommon import *
LEVEL = 'proof'
HARNESS = 'h_web.cpp'
ASSUMPTIONS = ['std::ifstream and HttpService::stock_reply are recording stand-ins: the proof is about which path is opened and when']
BOUNDED = ['a tree of files inside a scratch directory, its parent holding files that must not be served; random and exhaustive short request paths']
BUDGET = 12
SOURCES = SRC
HOPTS = hopts(1)
EXPLAIN = 'see DESIGN.md'
INC = dict(extra_inc=tuple(HOPTS['extra_inc']))
def hexok(c): return z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 70), z3.And(c >= 97, c <= 102))
def hexval(c): return z3.If(c <= 57, c - 48, z3.If(c <= 70, c - 55, c - 87))
def load(c):
    V = c.load([os.path.join(build.VERIF, 'drivers/p_web.cpp'), 'server/server/request_handler.cpp'], **INC)
    return V, c.st
def url_decode(c):
    """url_decode(in) accepts exactly the strings whose escapes are % and two hex digits, and gives their decoding"""
    V, st = load(c); s, sp = c.str_arg(st); n = z3.Length(s); out = V.region(st, 'out', {0: (Str(V.fresh_seq('junk')), 32)})
    D = z3.Function('D', z3.IntSort(), V.ssort); AT = z3.Function('AT', z3.IntSort(), z3.BoolSort()); REJ = z3.Bool('REJ')
    b = lambda k: s[k]
    def unfold(k):
        esc = b(k) == 37; good = z3.And(k + 3 <= n, hexok(b(k + 1)), hexok(b(k + 2))); h = hexval(b(k + 1)) * 16 + hexval(b(k + 2))
        rng = lambda j: z3.Implies(z3.And(j >= 0, j < n), z3.And(b(j) >= 0, b(j) < 256))
        return z3.And(rng(k), rng(k + 1), rng(k + 2), z3.Implies(z3.And(k >= 0, k < n, AT(k)), z3.And(
            z3.Implies(z3.And(esc, good), z3.And(AT(k + 3), D(k + 3) == z3.Concat(D(k), V.unit(h)))), z3.Implies(z3.And(esc, z3.Not(good)), REJ),
            z3.Implies(z3.Not(esc), z3.And(AT(k + 1), D(k + 1) == z3.Concat(D(k), V.unit(z3.If(b(k) == 43, z3.IntVal(32), b(k)))))))))
    V.assume(st, z3.And(AT(0), D(0) == z3.Empty(V.ssort), unfold(z3.IntVal(0))))
    c.enc = lambda m: [('decode', c.bytes_of(m, s))]; V.cex_small = lambda q: [n <= q]
    def gen(V, lv, st0, H):
        r = []
        for loc, kind in V.intcells(lv):
            a = V.acc(loc)
            for l2, (v0, vh) in lv.mod.items():
                if isinstance(vh, Str):
                    o = V.abscell(l2)
                    r.append(('output = decoding of the input read so far', (lambda a, o: lambda S: z3.And(V.ival(a(S)) >= 0, V.ival(a(S)) <= n, AT(V.ival(a(S))), o(S).seq == D(V.ival(a(S)))))(a, o), 'dec'))
        return r
    V.cand_gens = [gen]; V.fact_gens = [lambda V, lv, H: [unfold(V.ival(V.acc(l)(H))) for l, k in V.intcells(lv)]]
    for k, s2, v in c.call('vp_url_decode', [sp, out], st):
        if k == 'throw': V.oblige(s2, False, 'url_decode never throws'); continue
        v = V.tobool(v) if hasattr(V, 'tobool') else v
        t = v if z3.is_bool(v) else (V.ival(v) != 0)
        V.oblige(s2, z3.Implies(t, z3.And(AT(n), V.read_abs(s2, out, Str).seq == D(n))), 'accepted: output is the decoding')
        V.oblige(s2, z3.Implies(z3.Not(t), REJ), 'rejected: there is a malformed escape')
        c.cover(s2, 'return')
UNITS = [url_decode]
def guard(c):
    """every file opened is the document root followed by a path that starts with a slash and has no '..'; the request is refused
    as bad exactly when the address does not decode to such a path"""
    V, st = load(c); root, rp = c.str_arg(st, 'root'); uri, _ = c.str_arg(st, 'uri'); P = V.fresh_seq('P'); ok = z3.Bool('ok'); j = V.fresh('j', z3.IntSort())
    V.assume(st, z3.And(z3.Length(P) >= 0, z3.Length(P) < MAXLEN)); n = z3.Length(P)
    q = V.region(st, 'req', {0: (Str(V.fresh_seq('m')), 32), 32: (Str(uri), 32)}); rep = V.region(st, 'rep', {0: (V.fresh_int(st, 32, 'status'), 4), 32: (Str(z3.Empty(V.ssort)), 32)})
    def uplus(V, st, a, ins):
        V.oblige(st, V.read_abs(st, a[0], Str).seq == uri, 'the address of the request is what is decoded')
        V.write_abs(st, a[1], Str(P)); return [('ret', st, ok)]
    V.contracts[re.compile(r'http::server3::request_handler::url_decode\(')] = uplus
    i0 = z3.IndexOf(P, V.lit(b'..'), 0); good = z3.And(ok, n > 0, P[0] == 47, z3.Not(z3.Contains(P, V.lit(b'..'))))
    opened = []
    def opens(V, st, a, ins):
        f = V.container(st, a[1].rid).seq
        p = z3.SubSeq(f, z3.Length(root), z3.Length(f) - z3.Length(root))
        want = z3.If(P[n - 1] == 47, z3.Concat(P, V.lit(b'index.html')), P)
        V.oblige(st, good, 'a file is opened only for a decoded path that starts with / and has no ..')
        V.oblige(st, f == z3.Concat(root, want), 'the file opened is document root + path (+ index.html)')
        c.cover(st, 'open'); opened.append(1); raise Dead()
    V.models.insert(0, (re.compile(r'std::basic_ifstream<char, .*::basic_ifstream\('), opens))
    def stock(V, st, a, ins):
        code = a[1] if len(a) > 1 else None
        V.oblige(st, z3.And(V.ival(code) == 400, z3.Not(good)), 'refused as a bad request only when the path is not acceptable'); c.cover(st, 'refuse'); raise Dead()
    V.models.insert(0, (re.compile(r'http::server3::reply::stock_reply\('), stock))
    c.enc = lambda m: [('files', c.bytes_of(m, P)), ('files', b''.join(b'%%%02x' % x for x in (c.bytes_of(m, P) or b'')))]; V.cex_small = lambda k: [n <= k]
    outs = c.call('vp_handle', [rp, q, rep], st)
    if not opened: V.oblige(st, False, 'acceptable paths are opened')
UNITS = [url_decode, guard]
