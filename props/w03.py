"""W03: sessions"""
from vc import *
from webcommon import *
LEVEL = 'proof'
HARNESS = 'h_web.cpp'
ASSUMPTIONS = ['identifiers of at most 25 bytes without a semicolon (those the server makes are shorter and alphanumeric)']
BOUNDED = ['histories of requests of several clients with cookies of every form; one request at a time']
BUDGET = 12
SOURCES = SRC
HOPTS = hopts(3)
EXPLAIN = 'see DESIGN.md'
INC = dict(extra_inc=tuple(HOPTS['extra_inc']))
def cookie_roundtrip(c):
    """the identifier read back from the cookie the server sets is the session's, for every identifier of up to 25 bytes without a semicolon"""
    V = c.load([os.path.join(build.VERIF, 'drivers/p_web.cpp'), 'server/session_manager.cpp'], **INC); st = c.st
    s, sp = c.str_arg(st, 'id'); n = z3.Length(s); V.assume(st, z3.And(n <= 25, z3.Not(z3.Contains(s, V.unit(59)))))
    co, o = (V.region(st, x, {0: (Str(z3.Empty(V.ssort)), 32)}) for x in ('cookie', 'o'))
    c.enc = lambda m: [('cookies', b'PSISESSIONID=' + c.bytes_of(m, s))]
    for k, s1, v in c.call('vp_cookie', [co, sp], st):
        ck = V.read_abs(s1, co, Str).seq
        V.oblige(s1, ck == z3.Concat(V.lit(b'PSISESSIONID='), s) if k == 'ret' else False, 'the cookie is PSISESSIONID=id')
        for k2, s2, v2 in c.call('vp_session_id', [o, co], s1):
            V.oblige(s2, V.read_abs(s2, o, Str).seq == s if k2 == 'ret' else False, 'the identifier is read back'); c.cover(s2, 'read back')
def session(c):
    """the content of any session, the operations, and reading a key before and after"""
    V = c.load([os.path.join(build.VERIF, 'drivers/p_session.cpp'), 'server/session.cpp'], **INC); st = c.st
    off = next(m.const_at(i, t, 0, 8)[1] for m in V.mods if 'vp_session_off' in m.globs for i, t in [m.ginit('vp_session_off')[:2]] if i)
    this = V.region(st, 'session', {off: (models.Map.any(V), 48)}); E = z3.Empty(V.ssort)
    def op(name, st, *a, ret=True):
        if not ret: return [(s2, None) if k == 'ret' else V.oblige(s2, False, 'never throws') or (None, None) for k, s2, v in c.call(name, list(a), st)]
        if name == 'vp_is': return [(s2, v if z3.is_bool(v) else (v != 0 if isz(v) else z3.BoolVal(bool(v)))) if k == 'ret' else V.oblige(s2, False, 'never throws') or (None, None) for k, s2, v in c.call(name, list(a), st)]
        st = st.fork(); o = V.region(st, 'out', {0: (Str(E), 32)}); r = []
        for k, s2, v in c.call(name, [o] + list(a), st): r.append((s2, V.read_abs(s2, o, Str).seq) if k == 'ret' else V.oblige(s2, False, 'never throws') or (None, None))
        return r
    return V, st, this, E, op
def session_set(c):
    """setting a key changes what is read at that key, to exactly the text set, and nothing else; a key is set when its text is not empty"""
    V, st, this, E, op = session(c); k, kp = c.str_arg(st, 'key'); q, qp = c.str_arg(st, 'other'); v, vp = c.str_arg(st, 'value')
    for s1, was in op('vp_get', st, this, qp):
        for s2, _ in op('vp_set', s1, this, kp, vp, ret=False):
            for s3, now in op('vp_get', s2, this, qp):
                V.oblige(s3, now == z3.If(k == q, v, was), 'read after setting'); c.cover(s3, 'set')
                for s4, there in op('vp_is', s3, this, qp): V.oblige(s4, there == (now != E), 'set iff not empty')
def session_clear(c):
    """clearing a key leaves nothing to be read at it and changes no other"""
    V, st, this, E, op = session(c); k, kp = c.str_arg(st, 'key'); q, qp = c.str_arg(st, 'other')
    for s1, was in op('vp_get', st, this, qp):
        for s2, _ in op('vp_clear', s1, this, kp, ret=False):
            for s3, now in op('vp_get', s2, this, qp): V.oblige(s3, now == z3.If(k == q, E, was), 'read after clearing'); c.cover(s3, 'clear')
def session_default(c):
    """reading with a default gives what is set, else the default, which is then set; no other key changes"""
    V, st, this, E, op = session(c); k, kp = c.str_arg(st, 'key'); q, qp = c.str_arg(st, 'other'); v, vp = c.str_arg(st, 'value')
    for s0, mine in op('vp_get', st, this, kp):
        for s1, was in op('vp_get', s0, this, qp):
            for s2, got in op('vp_getset', s1, this, kp, vp):
                V.oblige(s2, got == z3.If(mine != E, mine, v), 'what is returned'); c.cover(s2, 'default')
                for s3, now in op('vp_get', s2, this, qp): V.oblige(s3, now == z3.If(k == q, got, was), 'read after the default')
UNITS = [cookie_roundtrip, session_set, session_clear, session_default]
