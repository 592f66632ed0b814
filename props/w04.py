"""W04"""
from vc import *
from webcommon import *
LEVEL = 'proof'
HARNESS = 'h_web.cpp'
ASSUMPTIONS = ['isxdigit and sscanf("%x") as in the C standard', 'texts are shorter than 2^31 bytes']
BOUNDED = ['random and exhaustive short forms and include directives']
BUDGET = 12
SOURCES = SRC
HOPTS = hopts(4)
EXPLAIN = 'see DESIGN.md'
INC = dict(extra_inc=tuple(HOPTS['extra_inc']))
def hexok(c): return z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 70), z3.And(c >= 97, c <= 102))
def hexval(c): return z3.If(c <= 57, c - 48, z3.If(c <= 70, c - 55, c - 87))
def urldecode(c):
    """urlDecode(in) replaces every % followed by two hex digits by that byte and leaves all else, for every in"""
    V = c.load([os.path.join(build.VERIF, 'drivers/p_form.cpp'), 'server/psi_server.cpp'], **INC); st = c.st
    s, sp = c.str_arg(st); n = z3.Length(s); V.assume(st, n < 2**31); out = V.region(st, 'out', {0: (Str(V.fresh_seq('junk')), 32)}); w = V.region(st, 'w')
    D = z3.Function('D', z3.IntSort(), V.ssort); AT = z3.Function('AT', z3.IntSort(), z3.BoolSort()); b = lambda k: s[k]
    def unfold(k):
        esc = z3.And(b(k) == 37, k + 3 <= n, hexok(b(k + 1)), hexok(b(k + 2))); h = hexval(b(k + 1)) * 16 + hexval(b(k + 2)); rng = lambda j: z3.Implies(z3.And(j >= 0, j < n), z3.And(b(j) >= 0, b(j) < 256))
        return z3.And(rng(k), rng(k + 1), rng(k + 2), z3.Implies(z3.And(k >= 0, k < n, AT(k)), z3.And(z3.Implies(esc, z3.And(AT(k + 3), D(k + 3) == z3.Concat(D(k), V.unit(h)))), z3.Implies(z3.Not(esc), z3.And(AT(k + 1), D(k + 1) == z3.Concat(D(k), V.unit(b(k))))))))
    V.assume(st, z3.And(AT(0), D(0) == z3.Empty(V.ssort), unfold(z3.IntVal(0))))
    V.models.insert(0, (re.compile(r'isxdigit$'), lambda V, st, a, ins: z3.If(hexok(V.ival(a[0])), z3.IntVal(1), z3.IntVal(0))))
    def sscanf(V, st, a, ins):
        t = V.container(st, a[0].rid).seq; f = models.cstr(V, st, a[1])
        if not z3.simplify(f == V.lit(b'%2x')).eq(z3.BoolVal(True)): raise Unsupported('sscanf format')
        V.oblige(st, z3.And(z3.Length(t) == 2, hexok(t[0]), hexok(t[1])), 'only two hex digits are converted'); V.store(st, a[2], hexval(t[0]) * 16 + hexval(t[1]), sym._FakeTy(32)); return 1
    V.models.insert(0, (re.compile(r'(__isoc\d+_)?sscanf$'), sscanf))
    c.enc = lambda m: [('forms', b'a=' + c.bytes_of(m, s))]; V.cex_small = lambda q: [n <= q]
    def gen(V, lv, st0, H):
        r = []
        for loc, kind in V.intcells(lv):
            a = V.acc(loc)
            for l2, (v0, vh) in lv.mod.items():
                if isinstance(vh, Str):
                    o = V.abscell(l2)
                    r.append(('output = decoding of the input read so far', (lambda a, o: lambda S: z3.And(V.ival(a(S)) >= 0, V.ival(a(S)) <= n, AT(V.ival(a(S))), o(S).seq == D(V.ival(a(S)))))(a, o), 'dec'))
        return r
    V.cand_gens = [gen]; V.fact_gens = [lambda V, lv, H: [unfold(V.ival(V.acc(l)(H))) for l, k in V.intcells(lv)]]
    for k, s2, v in c.call('vp_urldecode', [w, sp, out], st):
        V.oblige(s2, V.read_abs(s2, out, Str).seq == D(n) if k == 'ret' else False, 'the output is the decoding of the input'); c.cover(s2, 'return')
UNITS = [urldecode]
