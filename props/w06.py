"""W06: JSON output"""
from vc import *
from webcommon import *
LEVEL = 'proof'
HARNESS = 'h_web.cpp'
ASSUMPTIONS = ['the output is read with a JSON reader written for the harness']
BOUNDED = ['random annotations and strings; every byte']
BUDGET = 12
SOURCES = SRC + ['server/site/json_site.cpp', 'formats/json-simple/json_lattice_writer_output.cpp'] + ['common/' + f for f in 'annotation_item.cpp annotation_item_manager.cpp string_frag.cpp string_helpers.cpp zvalue.cpp'.split()]
HOPTS = hopts(6); HOPTS['extra_inc'] = [os.path.join(build.VERIF, 'drivers/stub'), 'formats/json-simple'] + HOPTS['extra_inc']
EXPLAIN = 'see DESIGN.md'
INC = dict(extra_inc=tuple(HOPTS['extra_inc']))
def enc1(V, ch, esc):
    """JSON escape of one byte: quote, backslash and control characters are escaped, every other byte stands for itself"""
    hx = lambda x: z3.If(x < 10, x + 48, x + 87)
    r = z3.If(z3.And(ch >= 0, ch < 32), z3.Concat(V.lit(b'\\u00'), V.unit(hx(ch / 16)), V.unit(hx(ch % 16))), V.unit(ch))
    for b, e in esc: r = z3.If(ch == b, V.lit(e), r)
    return r
def unit(entry, tus, esc, quoted, name, doc):
    def u(c):
        V = c.load([os.path.join(build.VERIF, 'drivers/p_json.cpp')] + tus, **INC); st = c.st
        s, sp = c.str_arg(st); n = z3.Length(s); out = V.region(st, 'out', {0: (Str(V.fresh_seq('junk')), 32)}); w = V.region(st, 'w')
        ENC = z3.Function('ENC', z3.IntSort(), V.ssort)
        unfold = lambda k: z3.And(ENC(0) == z3.Empty(V.ssort), z3.Implies(z3.And(k >= 0, k < n), z3.And(s[k] >= 0, s[k] < 256, ENC(k + 1) == z3.Concat(ENC(k), enc1(V, s[k], esc)))))
        pre = V.lit(b'"') if quoted else z3.Empty(V.ssort)
        pos = lambda V, lv: V.intcells(lv)
        def gen(V, lv, st0, H):
            r = []
            for loc, kind in V.intcells(lv):
                a = V.acc(loc)
                for l2, (v0, vh) in lv.mod.items():
                    if isinstance(vh, Str):
                        o = V.abscell(l2)
                        r.append(('output = encoding of the input read so far', (lambda a, o: lambda S: z3.And(V.ival(a(S)) >= 0, V.ival(a(S)) <= n, o(S).seq == (z3.Concat(pre, ENC(V.ival(a(S)))) if quoted else ENC(V.ival(a(S))))))(a, o), 'enc'))
            return r
        V.cand_gens = [gen]; V.fact_gens = [lambda V, lv, H: [unfold(V.ival(V.acc(l)(H))) for l, k in V.intcells(lv)]]
        V.assume(st, unfold(z3.IntVal(0)))
        c.enc = lambda m: [('text', c.bytes_of(m, s)), ('service', c.bytes_of(m, s))]; V.cex_small = lambda k: [n <= k]
        for k, s2, v in c.call(entry, [w, sp, out], st):
            if k == 'throw': V.oblige(s2, False, 'never throws'); continue
            o = V.read_abs(s2, out, Str).seq
            V.oblige(s2, o == (z3.Concat(V.lit(b'"'), ENC(n), V.lit(b'"')) if quoted else ENC(n)), 'the output is the JSON encoding of the text'); c.cover(s2, 'return')
    u.__name__ = name; u.__doc__ = doc; return u
BASE = ((34, b'\\"'), (92, b'\\\\'), (10, b'\\n'), (13, b'\\r'), (9, b'\\t'))
SITE = BASE + ((8, b'\\b'), (47, b'\\/'))
writer = unit('vp_json', ['formats/json-simple/json_lattice_writer_output.cpp'], BASE, True, 'writer_escape', 'the writer encodes every byte string as a JSON string that decodes to it')
def decodes(c):
    """lemma: the encoding of a byte holds no raw control character or quote, and reads back as that byte under RFC 8259"""
    V = c.load([os.path.join(build.VERIF, 'drivers/p_json.cpp')], **INC); st = c.st
    ch = V.fresh('ch', z3.IntSort()); V.assume(st, z3.And(ch >= 0, ch < 256))
    for tbl in (BASE, SITE): one_table(c, V, st, ch, enc1(V, ch, tbl))
def one_table(c, V, st, ch, e):
    hexv = lambda x: z3.If(x < 58, x - 48, x - 87)
    std = lambda x: z3.If(x == 110, 10, z3.If(x == 116, 9, z3.If(x == 114, 13, z3.If(x == 98, 8, z3.If(x == 102, 12, z3.If(z3.Or(x == 34, x == 92, x == 47), x, -1))))))
    one = z3.And(z3.Length(e) == 1, e[0] == ch, ch >= 32, ch != 34, ch != 92); two = z3.And(z3.Length(e) == 2, e[0] == 92, std(e[1]) == ch)
    six = z3.And(z3.Length(e) == 6, e[0] == 92, e[1] == 117, e[2] == 48, e[3] == 48, hexv(e[4]) * 16 + hexv(e[5]) == ch, z3.And(e[4] >= 48, e[4] <= 49), z3.Or(z3.And(e[5] >= 48, e[5] <= 57), z3.And(e[5] >= 97, e[5] <= 102)))
    V.oblige(st, z3.Or(one, two, six), 'each byte is encoded as itself, a short escape or a \\u00xx escape of that byte'); c.cover(st, 'lemma')
site = unit('vp_site', ['server/site/json_site.cpp'], SITE, False, 'service_escape', 'the JSON service encodes every byte string as the inside of a JSON string that decodes to it')
UNITS = [writer, decodes, site]
