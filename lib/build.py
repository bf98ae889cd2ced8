"""Builds the real programs of /repo (current working tree) in a scratch directory."""
import os, re, glob, shutil, subprocess, tempfile, atexit, concurrent.futures as cf
REPO = os.environ.get('VERIF_REPO', '/repo')

class BuildError(Exception): pass

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        base = os.environ.get('VERIF_SCRATCH') or tempfile.gettempdir()
        _scratch = tempfile.mkdtemp(prefix='sctkv.', dir=base)
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch

def _run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, capture_output=True, encoding='latin-1')
    if r.returncode:
        raise BuildError(' '.join(cmd)[:300] + '\n' + r.stderr[-3000:])
    return r

def compile_all(files, outdir, cc, flags):
    os.makedirs(outdir, exist_ok=True)
    def one(f):
        o = os.path.join(outdir, os.path.basename(f) + '.o')
        _run([cc] + flags + ['-c', f, '-o', o]); return o
    with cf.ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, files))

def make_vars(mk):
    txt = open(mk, encoding='latin-1').read().replace('\\\n', ' ')
    v = {}
    for m in re.finditer(r'^(\w+)\s*[:]?=\s*(.*)$', txt, re.M):
        v[m.group(1)] = m.group(2).strip()
    def exp(s, d=0):
        return re.sub(r'\$\((\w+)\)', lambda m: exp(v.get(m.group(1), ''), d + 1) if d < 9 else '', s)
    return {k: exp(x) for k, x in v.items()}

SC = os.path.join(REPO, 'src/sclite')

def sclite_lib_sources():
    v = make_vars(os.path.join(SC, 'makefile.in'))
    names = [x for x in v.get('tklib_c', '').split() if x.endswith('.c')]
    return [os.path.join(SC, n) for n in names]

def slm_sources():
    """members of SLM2.a"""
    for mk in ('Makefile', 'makefile', 'makefile.in', 'Makefile.in'):
        p = os.path.join(SC, 'slm_v2/src', mk)
        if os.path.exists(p):
            v = make_vars(p)
            objs = v.get('SLM_OBJS') or v.get('OBJS') or ''
            return [os.path.join(SC, 'slm_v2/src', o[:-2] + '.c') for o in objs.split() if o.endswith('.o')]
    return []

_cache = {}
def sclite_objs(san=False, slm=False):
    key = ('sc', san, slm)
    if key not in _cache:
        fl = ['-w', '-O1', '-g', '-I', SC, '-std=gnu11', '-fcommon', '-DDIFF_EXE="/usr/bin/diff"']
        if san: fl += ['-fsanitize=address', '-fno-omit-frame-pointer']
        if slm: fl += ['-DWITH_SLM', '-I', os.path.join(SC, 'slm_v2/src')]
        _cache[key] = (compile_all(sclite_lib_sources(), os.path.join(scratch(), 'sc%d%d' % (san, slm)), 'gcc', fl), fl)
    return _cache[key]

def sclite_prog(name, san=False, slm=False):
    key = ('prog', name, san, slm)
    if key not in _cache:
        objs, fl = sclite_objs(san, slm)
        d = os.path.join(scratch(), 'sc%d%d' % (san, slm))
        out = os.path.join(d, name)
        libs = []
        if slm: libs = [slm_lib()]
        _run(['gcc'] + fl + [os.path.join(SC, name + '.c')] + objs + libs + ['-lm', '-o', out])
        _cache[key] = out
    return _cache[key]

def driver(src, san=True, slm=False, extra=(), name=None):
    """native executable-contract driver: includes sctk.h with MAIN, links the real library objects"""
    objs, fl = sclite_objs(san, slm)
    out = os.path.join(scratch(), name or os.path.basename(src) + '.bin')
    _run(['gcc'] + fl + list(extra) + [src] + objs + ['-lm', '-o', out])
    return out

SLMF = ['-w', '-O1', '-g', '-fcommon', '-DSLM_SWAP_BYTES', '-I', os.path.join(SC, 'slm_v2/src')]
def slm_lib():
    if 'slmlib' not in _cache:
        srcs = slm_sources()
        objs = compile_all(srcs, os.path.join(scratch(), 'slm'), 'gcc', SLMF)
        lib = os.path.join(scratch(), 'SLM2.a')
        _run(['ar', 'rcs', lib] + objs)
        _cache['slmlib'] = lib
    return _cache['slmlib']

def slm_prog(name):
    key = ('slm', name)
    if key not in _cache:
        out = os.path.join(scratch(), name)
        _run(['gcc'] + SLMF + [os.path.join(SC, 'slm_v2/src', name + '.c'), slm_lib(), '-lm', '-o', out])
        _cache[key] = out
    return _cache[key]

AC = os.path.join(REPO, 'src/asclite/core')
def asclite_objs(san=False, main=True):
    """objects of asclite (with or without main)"""
    key = ('asc', san)
    if key not in _cache:
        d = os.path.join(scratch(), 'asc%d' % san); fl = ['-w', '-O1', '-I', AC] + (['-fsanitize=address', '-fno-omit-frame-pointer'] if san else [])
        src = sorted(glob.glob(AC + '/*.cpp'), key=os.path.getsize, reverse=True) + sorted(glob.glob(AC + '/*.c') + glob.glob(AC + '/lzma/*.c'))
        os.makedirs(d, exist_ok=True)
        def one(f):
            o = os.path.join(d, os.path.basename(f) + '.o')
            _run(['g++' if f.endswith('.cpp') else 'gcc'] + fl + ['-c', f, '-o', o]); return o
        with cf.ThreadPoolExecutor(8) as ex: _cache[key] = list(ex.map(one, src))
    return [o for o in _cache[key] if main or not o.endswith('/main.cpp.o')]

def asclite(san=False):
    key = ('asclite', san)
    if key not in _cache:
        out = os.path.join(scratch(), 'asclite%d' % san)
        _run(['g++'] + (['-fsanitize=address'] if san else []) + asclite_objs(san) + ['-o', out])
        _cache[key] = out
    return _cache[key]

def asclite_driver(src, name, san=False):
    out = os.path.join(scratch(), name)
    _run(['g++', '-w', '-O1', '-g', '-I', AC] + (['-fsanitize=address'] if san else []) + [src] + asclite_objs(san, False) + ['-o', out])
    return out

def rfilter1(san=False):
    key = ('rf', san)
    if key not in _cache:
        out = os.path.join(scratch(), 'rfilter1%d' % san)
        _run(['gcc', '-w', '-O1', '-g', '-DNEED_STRCMP=1'] + (['-fsanitize=address'] if san else []) +
             ['-o', out, os.path.join(REPO, 'src/rfilter1/rfilter1.c')])
        _cache[key] = out
    return _cache[key]
