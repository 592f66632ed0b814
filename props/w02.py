"""W02: request parser"""
from vc import *
from webcommon import *
LEVEL = 'proof'
HARNESS = 'h_web.cpp'
ASSUMPTIONS = ['atoi is assumed to return some number for the text it is given', 'header texts are shorter than 2^31 bytes']
BOUNDED = ['random requests, complete, malformed and in every split into chunks']
BUDGET = 12
SOURCES = SRC
HOPTS = hopts(2)
EXPLAIN = 'see DESIGN.md'
INC = dict(extra_inc=tuple(HOPTS['extra_inc']))
def load(c):
    V = c.load([os.path.join(build.VERIF, 'drivers/p_web.cpp'), 'server/server/request_parser.cpp'], **INC); V.elemspecs['http::server3::header'] = ElemSpec('http::server3::header', 64, [(0, 32, 'str'), (32, 32, 'str')]); return V, c.st
def mk(multi):
    def body(c):
        V, st = load(c); d, dp = c.str_arg(st, 'data'); n = z3.Length(d); ln, cnt, ch = V.fresh_int(st, 32, 'len'), V.fresh_int(st, 32, 'cnt'), V.fresh_int(st, 8, 'ch')
        V.assume(st, z3.And(cnt == n + 1, cnt <= ln, ln < 2**31))
        cp = V.region(st, 'cnt', {0: (cnt, 4)}); sp = V.region(st, 'stays', {0: (V.fresh_int(st, 32, 's'), 4)})
        for k, s2, v in c.call('vp_body', [dp, ln, cp, multi, ch, sp], st):
            if k == 'throw': V.oblige(s2, False, 'never throws'); continue
            v = V.ival(v); d2 = V.read_abs(s2, dp, Str).seq; c2 = V.ival(s2.cell(cp.rid, 0)[0]); stays = V.ival(s2.cell(sp.rid, 0)[0])
            V.oblige(s2, z3.Implies(v != 0, d2 == z3.Concat(d, V.unit(ch))), 'every accepted byte is appended to the data')
            V.oblige(s2, z3.Implies(v == 1, z3.Length(d2) == ln), 'complete only when the announced number of bytes has arrived')
            V.oblige(s2, z3.Implies(v == 2, z3.And(c2 == z3.Length(d2) + 1, c2 <= ln, stays != 0)), 'invariant kept while more is awaited')
            V.oblige(s2, z3.Implies(z3.And(v == 2), z3.Length(d2) < ln), 'never waits beyond the announced number of bytes')
            V.oblige(s2, z3.Implies(v == 0, False if multi else z3.Or(ch == 10, ch == 13)), 'refused only for a raw line break in url-encoded data')
            c.cover(s2, 'body')
    body.__name__ = 'body_' + ('multipart' if multi else 'urlencoded'); body.__doc__ = 'one byte of the data of a %s request' % ('multipart' if multi else 'url-encoded')
    return body
def header(c):
    """the value of a header is that of the last header of that name, and empty when there is none"""
    V, st = load(c); sp = V.elemspecs['http::server3::header']; hs = V.fresh('hs', z3.SeqSort(sp.sort(V))); n = z3.Length(hs); name, np = c.str_arg(st, 'name'); V.nulfree.append(name)
    V.assume(st, n < 2**31); j = V.fresh('j', z3.IntSort()); S = sp.sort(V); nm = lambda i: S.accessor(0, 0)(hs[i]); val = lambda i: S.accessor(0, 1)(hs[i])
    q = V.region(st, 'req', {0: (Str(V.fresh_seq('m')), 32), 32: (Str(V.fresh_seq('u')), 32), 72: (Vec(sp, hs), 24), 96: (Str(V.fresh_seq('p')), 32)}); out = V.region(st, 'o', {0: (Str(z3.Empty(V.ssort)), 32)})
    def gen(V, lv, st0, H):
        return [('no header from here on has the name', (lambda a: lambda S: z3.And(V.ival(a(S)) >= 0, V.ival(a(S)) <= n, z3.Implies(z3.And(j >= V.ival(a(S)), j < n), nm(j) != name)))(V.acc(loc)), 'hdr') for loc, kind in V.intcells(lv)]
    V.cand_gens = [gen]
    for k, s2, v in c.call('vp_header', [out, q, np], st):
        if k == 'throw': V.oblige(s2, False, 'never throws'); continue
        o = V.read_abs(s2, out, Str).seq; i = V.fresh('i', z3.IntSort())
        none = z3.Implies(z3.And(j >= 0, j < n), nm(j) != name)
        w = [t for t in getattr(V, 'last_index', [])]
        V.oblige(s2, z3.Or(z3.And(o == z3.Empty(V.ssort), none), z3.Exists([i], z3.And(i >= 0, i < n, nm(i) == name, val(i) == o, z3.Implies(z3.And(j > i, j < n), nm(j) != name)))), 'value of the last header of that name')
        c.cover(s2, 'header')
def head_end(c):
    """after the blank line: a request that is not POST is complete; a POST request awaits as many bytes as announced, and is complete when there are none"""
    V, st = load(c); I = lambda r, s2: V.ival(s2.cell(r.rid, 0)[0]); meth, ct, cl = (V.fresh_seq(x) for x in ('method', 'ct', 'cl')); N = V.fresh_int(st, 32, 'N'); sg = z3.If(N >= 2**31, N - 2**32, N)
    for x in (meth, ct, cl): V.assume(st, z3.And(z3.Length(x) >= 0, z3.Length(x) < MAXLEN))
    q = V.region(st, 'req', {0: (Str(meth), 32), 32: (Str(V.fresh_seq('u')), 32), 96: (Str(V.fresh_seq('p')), 32)})
    def hv(V, st, a, ins):
        k = models.cstr(V, st, a[-1]); V.write_abs(st, a[0], Str(ct if z3.simplify(k == V.lit(b'Content-Type')).eq(z3.BoolVal(True)) else cl if z3.simplify(k == V.lit(b'Content-Length')).eq(z3.BoolVal(True)) else V.fresh_seq('other'))); return [('ret', st, None)]
    V.contracts[re.compile(r'http::server3::request::get_header_value\(')] = hv
    def at(V, st, a, ins):
        V.oblige(st, models.cstr(V, st, a[0]) == cl, 'the announced length is read'); return N
    V.nulfree.append(cl); V.models.insert(0, (re.compile(r'atoi'), at))
    R = [V.region(st, x, {0: (V.fresh_int(st, 32, x), 4)}) for x in ('len', 'cnt', 'state')]
    for k, s2, v in c.call('vp_head_end', [q] + R, st):
        if k == 'throw': V.oblige(s2, False, 'never throws'); continue
        v = V.ival(v); ln, cnt, sta = (I(r, s2) for r in R); post = meth == V.lit(b'POST'); mp = z3.PrefixOf(V.lit(b'multipart'), ct); L = z3.If(cl == z3.Empty(V.ssort), z3.IntVal(0), N); Ls = z3.If(cl == z3.Empty(V.ssort), z3.IntVal(0), sg)
        V.oblige(s2, z3.Implies(z3.Not(post), v == 1), 'a request without data is complete')
        V.oblige(s2, z3.Implies(post, z3.And(ln == L, cnt == 1, v == z3.If(Ls <= 0, 1, 2))), 'a POST request awaits exactly the announced number of bytes')
        V.oblige(s2, z3.Implies(z3.And(post, v == 2), sta == z3.If(mp, 2, 1)), 'multipart data may hold any byte, other data no raw line break')
        c.cover(s2, 'head_end')
UNITS = [mk(0), mk(1), header, head_end]
