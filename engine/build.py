"""Compile /repo translation units to LLVM IR (the verified text) and native harnesses."""
import os, subprocess, hashlib, tempfile, shutil, sys, concurrent.futures as cf
REPO = os.environ.get('VP_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = next((c for c in ('/usr/bin/clang++-18', '/usr/lib/llvm-18/bin/clang++', '/usr/bin/clang++') if os.path.exists(c)), 'clang++')
BASEFLAGS = ['-std=c++14', '-include', 'iostream', '-include', 'algorithm', '-DBOOST_TIMER_ENABLE_DEPRECATED', '-w']
INCS = ['common', '.', 'utf8', 'utf8case', 'formats', 'framework', 'server', 'tools', 'tiniconv']
class BuildError(Exception): pass

def scratch():
    global _scr
    try: return _scr
    except NameError: pass
    _scr = tempfile.mkdtemp(prefix='vp_build_')
    import atexit
    atexit.register(lambda: shutil.rmtree(_scr, ignore_errors=True))
    # config.hpp is generated by cmake and ignored by git: use /repo's if present, else the committed copy
    inc = os.path.join(_scr, 'cfg'); os.makedirs(inc)
    if not os.path.exists(os.path.join(REPO, 'common/config.hpp')):
        shutil.copy(os.path.join(VERIF, 'engine', 'config.hpp.fallback'), os.path.join(inc, 'config.hpp'))
    return _scr

def incflags(extra=()):
    s = scratch()
    return ['-I' + os.path.join(REPO, i) for i in list(extra) + INCS] + ['-I' + os.path.join(s, 'cfg'), '-I' + os.path.join(VERIF, 'drivers')]

def ir(src, defs=(), extra_inc=(), opt='-O0', lang_c=False):
    """src: path relative to /repo (or absolute) -> path of .ll"""
    p = src if os.path.isabs(src) else os.path.join(REPO, src)
    if not os.path.exists(p): raise BuildError('missing source ' + src)
    out = os.path.join(scratch(), hashlib.md5((p + repr(defs) + opt).encode()).hexdigest()[:10] + '.ll')
    if os.path.exists(out): return out
    cc = [CLANG]
    fl = BASEFLAGS
    if lang_c: cc = [CLANG.replace('clang++', 'clang')]; fl = ['-w']
    cmd = cc + fl + [opt, '-g1', '-fno-discard-value-names', '-S', '-emit-llvm'] + incflags(extra_inc) + list(defs) + [p, '-o', out]
    if '/drivers/' in p: cmd.append('-fno-access-control')
    if '-O0' in cmd: cmd += ['-Xclang', '-disable-O0-optnone']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise BuildError('%s does not compile: %s' % (src, r.stderr[-1500:]))
    return out
def irs(srcs, **kw):
    with cf.ThreadPoolExecutor(8) as ex: return list(ex.map(lambda s: ir(s, **kw), srcs))

def harness(src, srcs, san='-fsanitize=address -fno-omit-frame-pointer', libs=(), defs=(), extra_inc=(), opt='-O1', cxx=None):
    """native executable: the harness TU plus the listed /repo sources, from the current tree"""
    scr = scratch(); objs = []; jobs = []
    from concurrent.futures import ThreadPoolExecutor
    def comp(p):
        src_p = p if os.path.isabs(p) else os.path.join(REPO, p)
        if not os.path.exists(src_p): raise BuildError('missing source ' + p)
        o = os.path.join(scr, hashlib.md5(('h' + src_p).encode()).hexdigest()[:12] + '.o')
        isc = src_p.endswith('.c')
        cmd = [(CLANG.replace('clang++', 'clang') if isc else CLANG) if not cxx else cxx] + (['-w'] if isc else BASEFLAGS) + [opt, '-g1'] + san.split() + incflags(extra_inc) + list(defs) + (['-fno-access-control'] if '/drivers/' in src_p else []) + ['-c', src_p, '-o', o]
        if os.environ.get('VP_CCACHE'): cmd = ['ccache'] + cmd      # development only
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: raise BuildError('%s does not compile: %s' % (p, r.stderr[-1500:]))
        return o
    srcs = list(srcs); here = [p for p in srcs if os.path.exists(p if os.path.isabs(p) else os.path.join(REPO, p))]
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(comp, [os.path.join(VERIF, 'drivers', src)] + here))
    exe = os.path.join(scr, 'harness_' + os.path.basename(src).split('.')[0])
    link = lambda extra: subprocess.run([cxx or CLANG] + san.split() + objs + extra + ['-o', exe] + list(libs), capture_output=True, text=True)
    r = link([])
    if r.returncode and 'undefined reference' in r.stderr:   # code moved to another file: offer the other files of these directories
        dirs = sorted({os.path.dirname(p) for p in srcs if not os.path.isabs(p)})
        more = sorted({os.path.join(d, f) for d in dirs if os.path.isdir(os.path.join(REPO, d)) for f in os.listdir(os.path.join(REPO, d)) if f.endswith(('.cpp', '.c')) and not f.startswith(('test_', 'tests_'))} - set(srcs))
        def tryc(p):
            try: return comp(p)
            except BuildError: return None
        with ThreadPoolExecutor(8) as ex: oo = [o for o in ex.map(tryc, more) if o]
        ar = os.path.join(scr, 'more.a')
        if os.path.exists(ar): os.unlink(ar)
        if oo: subprocess.run(['ar', 'rcs', ar] + oo, capture_output=True); r = link([ar])
    if r.returncode: raise BuildError('harness does not link: ' + r.stderr[-1500:])
    return exe
