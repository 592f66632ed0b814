"""U01: UTF-8 and case"""
from vc import *
LEVEL = 'proof'
HARNESS = 'h_u01.cpp'
BUDGET = 15
SOURCES = ['utf8case/' + f for f in 'case_tables.cpp range_based_case_converter.cpp special_casing_converter.cpp regular_contextual_case_converter.cpp turkish_and_azeri_lower_contextual_case_converter.cpp turkish_and_azeri_upper_contextual_case_converter.cpp simple_convert.cpp string_case_converter_manager.cpp'.split()] + ['common/psi_exception.cpp']
HOPTS = {'extra_inc': ['utf8case']}
EXPLAIN = 'Decoding, encoding and the three range tables are proved for all inputs; the conversion of whole strings is executed on every code point and on random strings.'
ASSUMPTIONS = ['the expected case mappings are Unicode 15 (Python unicodedata) without those added after Unicode 6, which this version does not have']
BOUNDED = ['strings of at most 50 code points; every single code point exhaustively']
P = os.path.join(build.VERIF, 'drivers/p_utf8.cpp')
def load(c, extra=()):
    V = c.load([P] + list(extra), mode='bv', extra_inc=('utf8case',)); return V, c.st
B = lambda x, w=32: z3.BitVecVal(x, w)
def wf(b, n):
    """length of the well-formed UTF-8 sequence at the start of b (0: none), and its code point (Unicode, table 3-7)"""
    u = [z3.ZeroExt(24, x) for x in b]
    rng = lambda x, lo, hi: z3.And(z3.UGE(x, B(lo, 8)), z3.ULE(x, B(hi, 8)))
    tr = lambda i: rng(b[i], 0x80, 0xBF)
    ok1 = z3.And(n >= 1, z3.ULE(b[0], B(0x7F, 8)))
    ok2 = z3.And(n >= 2, rng(b[0], 0xC2, 0xDF), tr(1))
    ok3 = z3.And(n >= 3, z3.Or(z3.And(b[0] == 0xE0, rng(b[1], 0xA0, 0xBF)), z3.And(rng(b[0], 0xE1, 0xEC), tr(1)), z3.And(b[0] == 0xED, rng(b[1], 0x80, 0x9F)), z3.And(rng(b[0], 0xEE, 0xEF), tr(1))), tr(2))
    ok4 = z3.And(n >= 4, z3.Or(z3.And(b[0] == 0xF0, rng(b[1], 0x90, 0xBF)), z3.And(rng(b[0], 0xF1, 0xF3), tr(1)), z3.And(b[0] == 0xF4, rng(b[1], 0x80, 0x8F))), tr(2), tr(3))
    c2 = ((u[0] & 0x1F) << 6) | (u[1] & 0x3F); c3 = ((u[0] & 0xF) << 12) | ((u[1] & 0x3F) << 6) | (u[2] & 0x3F)
    c4 = ((u[0] & 7) << 18) | ((u[1] & 0x3F) << 12) | ((u[2] & 0x3F) << 6) | (u[3] & 0x3F)
    return (ok1, u[0], 1), (ok2, c2, 2), (ok3, c3, 3), (ok4, c4, 4)
def text(c, V, st):
    s, sp = c.str_arg(st); n = z3.Length(s); b = [s[i] for i in range(4)]
    return s, sp, n, b
def _ty(w): return sym._FakeTy(w)
def unchecked_next(c):
    """utf8::unchecked::next reads every well-formed sequence as its code point and moves past it"""
    V, st = load(c); s, sp, n, b = text(c, V, st); used = V.region(st, 'used', {0: (z3.BitVec('u0', 64), 8)}); F = wf(b, n)
    V.assume(st, z3.Or([f[0] for f in F])); c.enc = lambda m: [('decode', c.bytes_of(m, s))]; V.cex_small = lambda q: [n <= q]
    for k, s2, v in c.call('vp_next', [sp, used], st):
        if k == 'throw': V.oblige(s2, False, 'does not throw'); continue
        u = V.load(s2, used, _ty(64))
        for ok, cp, l in F: V.oblige(s2, z3.Implies(ok, z3.And(v == cp, u == l)), 'well-formed sequence of %d bytes' % l)
        c.cover(s2, 'return')
def validate_next(c):
    """validate_next accepts exactly the well-formed sequences (no overlong forms, surrogates, values above 10FFFF, truncation), gives
    their code point and moves past them; otherwise it does not move"""
    V, st = load(c); s, sp, n, b = text(c, V, st); cpr = V.region(st, 'cp', {0: (z3.BitVec('c0', 32), 4)}); used = V.region(st, 'used', {0: (z3.BitVec('u0', 64), 8)}); F = wf(b, n)
    V.assume(st, n >= 1); c.enc = lambda m: [('decode', c.bytes_of(m, s))]; V.cex_small = lambda q: [n <= q]
    for k, s2, v in c.call('vp_validate', [sp, cpr, used], st):
        if k == 'throw': V.oblige(s2, False, 'does not throw'); continue
        u = V.load(s2, used, _ty(64)); cp = V.load(s2, cpr, _ty(32))
        for ok, x, l in F: V.oblige(s2, z3.Implies(ok, z3.And(v == 0, cp == x, u == l)), 'well-formed sequence of %d bytes' % l)
        V.oblige(s2, z3.Implies(z3.Not(z3.Or([f[0] for f in F])), z3.And(v != 0, u == 0)), 'anything else is refused')
        c.cover(s2, 'return')
def checked_next(c):
    """utf8::next reads exactly the well-formed sequences and throws on everything else"""
    V, st = load(c); s, sp, n, b = text(c, V, st); used = V.region(st, 'used', {0: (z3.BitVec('u0', 64), 8)}); F = wf(b, n)
    V.assume(st, n >= 1); c.enc = lambda m: [('decode', c.bytes_of(m, s))]; V.cex_small = lambda q: [n <= q]
    for k, s2, v in c.call('vp_cnext', [sp, used], st):
        if k == 'throw': V.oblige(s2, z3.Not(z3.Or([f[0] for f in F])), 'throws only on malformed text'); c.cover(s2, 'throw'); continue
        u = V.load(s2, used, _ty(64))
        V.oblige(s2, z3.Or([z3.And(ok, v == x, u == l) for ok, x, l in F]), 'returns the code point of a well-formed sequence'); c.cover(s2, 'return')
def mk_append(entry, checked, doc):
    def unit(c):
        V, st = load(c); cp = z3.BitVec('cp', 32); pre = V.fresh_seq('pre'); out = V.region(st, 'out', {0: (Str(pre), 32)}); np = z3.Length(pre)
        V.assume(st, z3.And(np >= 0, np < MAXLEN)); valid = z3.And(z3.ULE(cp, B(0x10FFFF)), z3.Not(z3.And(z3.UGE(cp, B(0xD800)), z3.ULE(cp, B(0xDFFF)))))
        if not checked: V.assume(st, valid)
        c.enc = lambda m: [('encode', (m.eval(cp, model_completion=True).as_long()).to_bytes(4, 'big'))]
        for k, s2, v in c.call(entry, [cp, out], st):
            if k == 'throw': V.oblige(s2, z3.Not(valid) if checked else z3.BoolVal(False), 'throws only for what is not a code point'); c.cover(s2, 'throw') if checked else None; continue
            o = V.read_abs(s2, out, Str).seq
            if checked: V.oblige(s2, valid, 'only code points are written')
            t = lambda sh: z3.Concat(z3.BitVecVal(2, 2), z3.Extract(sh + 5, sh, cp)); U = lambda *x: z3.Concat(pre, *[z3.Unit(y) for y in x])
            V.oblige(s2, z3.Implies(z3.ULT(cp, B(0x80)), o == U(z3.Extract(7, 0, cp))), 'one byte')
            V.oblige(s2, z3.Implies(z3.And(z3.UGE(cp, B(0x80)), z3.ULT(cp, B(0x800))), o == U(z3.Concat(z3.BitVecVal(6, 3), z3.Extract(10, 6, cp)), t(0))), 'two bytes')
            V.oblige(s2, z3.Implies(z3.And(z3.UGE(cp, B(0x800)), z3.ULT(cp, B(0x10000))), o == U(z3.Concat(z3.BitVecVal(14, 4), z3.Extract(15, 12, cp)), t(6), t(0))), 'three bytes')
            V.oblige(s2, z3.Implies(z3.UGE(cp, B(0x10000)), o == U(z3.Concat(z3.BitVecVal(30, 5), z3.Extract(20, 18, cp)), t(12), t(6), t(0))), 'four bytes')
            c.cover(s2, 'return')
    unit.__name__ = entry[3:]; unit.__doc__ = doc; return unit
import re as _re
_ROWS = None
def rows():
    global _ROWS
    if _ROWS is None:
        _ROWS = {}
        for m in _re.finditer(r'\{0x([0-9a-f]+), "(.*?)", "(.*?)", "(.*?)"\}', open(os.path.join(build.VERIF, 'drivers/unicode_case.inc')).read()):
            _ROWS[int(m.group(1), 16)] = [bytes(int(x, 16) for x in g.split('\\x')[1:]).decode() for g in m.groups()[1:]]
    return _ROWS
def spec(cp, k):
    """(condition, delta) pairs that fix the case mapping of every code point with a one-character mapping"""
    runs = []   # [lo, hi, step, delta]
    special = {c for c, r in rows().items() if any(len(x) != 1 for x in r)}
    for c in sorted(rows()):
        if c in special: continue
        d = ord(rows()[c][k]) - c
        if d == 0: continue
        if runs and runs[-1][3] == d and runs[-1][1] == c - 1 and runs[-1][2] in (0, 1): runs[-1][1] = c; runs[-1][2] = 1
        elif runs and runs[-1][3] == d and runs[-1][1] == c - 2 and runs[-1][2] in (0, 2): runs[-1][1] = c; runs[-1][2] = 2
        else: runs.append([c, c, 0, d])
    return [(z3.And(cp >= lo, cp <= hi, *([cp % 2 == lo % 2] if st == 2 else [])), d) for lo, hi, st, d in runs], z3.Or([cp == x for x in sorted(special)])
def mk_range(entry, k, what):
    def unit(c):
        V = c.load([P, 'utf8case/range_based_case_converter.cpp', 'utf8case/case_tables.cpp'], mode='int', extra_inc=('utf8case',)); st = c.st; cp = V.fresh_int(st, 32, 'cp')
        inr, special = spec(cp, k); V.assume(st, z3.Not(special)); c.enc = lambda m: [('all', b'')]
        def gen(V, lv, st0, H):
            his = [r[1] for r in tab]
            return [('past the ranges below the code point', (lambda a: lambda S: z3.And([z3.Implies(V.ival(a(S)) > j, cp > h) for j, h in enumerate(his)]))(V.acc(l)), 'past') for l, kind in V.intcells(lv)]
        tab = table_of(V, what.upper() + '_CASE_RANGES'); V.cand_gens = [gen]; V.lenvals = list(V.lenvals) + [len(tab)]
        for kk, s2, v in c.call(entry, [cp], st):
            if kk == 'throw': V.oblige(s2, False, 'does not throw'); continue
            w = cp
            for cond, d in reversed(inr): w = z3.If(cond, cp + d, w)
            V.oblige(s2, v == w, 'the %s case of every code point is its Unicode mapping' % what); c.cover(s2, 'return')
    unit.__name__ = 'range_' + what; unit.__doc__ = 'RangeBasedCaseConverter over the %s case table maps every 32-bit value as Unicode does (code points with a multi-character mapping aside)' % what; return unit
def table_of(V, name):
    """the constant table as it is in the source: rows of three 32-bit values"""
    for m in V.mods:
        for g in m.globs:
            if g == name and m.ginit(g)[0]:
                init, ty, _ = m.ginit(g); return [[m.const_at(init, ty, i * 12 + o, 4)[1] for o in (0, 4, 8)] for i in range(ty.size // 12)]
    raise Unsupported('no table ' + name)
UNITS = [mk_range('vp_lower', 0, 'lower'), mk_range('vp_upper', 1, 'upper'), mk_range('vp_title', 2, 'title'), unchecked_next, validate_next, checked_next, mk_append('vp_append', 0, 'utf8::unchecked::append writes the UTF-8 form of every code point'), mk_append('vp_cappend', 1, 'utf8::append writes the UTF-8 form of every code point and refuses everything else')]
