"""Runs one proof unit: real source (mechanically annotated) + contract harness -> CBMC."""
import json, os, re, subprocess, time, hashlib
from . import cutter
from .cutter import Detached

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MEMLIM_KB = 9 * 1024 * 1024

PRELUDE = r'''
#ifndef VPRELUDE
#define VPRELUDE
_Bool nondet_bool(void); int nondet_int(void); long nondet_long(void); double nondet_double(void); float nondet_float(void);
unsigned nondet_uint(void); unsigned char nondet_uchar(void); char nondet_char(void); void *nondet_ptr(void); unsigned long nondet_size(void); short nondet_short(void);
#define REQ(e) __CPROVER_assume(e)
#define ENS(name,e) __CPROVER_assert((e), "ensures " name)
#define PRE(name,e) __CPROVER_assert((e), "requires " name)
#define REACH(name) __CPROVER_assert(0, "REACH " name)
#endif
'''

def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, capture_output=True, encoding='latin-1', timeout=timeout, **kw)

class Unit:
    """spec file layout: units/<name>.py defines UNIT = dict(...)"""
    def __init__(self, d):
        self.__dict__.update(dict(defs=[], incs=[], extra=[], loops={}, unwind=2, flags=[], timeout=240,
                                  functions=[], assumptions=[], entry='harness', native=None, checks='mem', objbits=None))
        self.__dict__.update(d)

def build(u, wd):
    os.makedirs(wd, exist_ok=True)
    gbs = []
    incs = [os.path.join(REPO, 'src/sclite')] + [os.path.join(REPO, i) for i in u.incs] + [os.path.join(VERIF, 'units')]
    src = os.path.join(REPO, u.source)
    text = cutter.preprocess(src, u.defs, incs)
    p0 = os.path.join(wd, 'pp.c')
    open(p0, 'w', encoding='latin-1').write(text)
    if u.loops:
        text = cutter.splice(text, p0, u.loops)
    tu = os.path.join(wd, 'tu.c')
    ghost = getattr(u, 'ghost', '')
    open(tu, 'w', encoding='latin-1').write(PRELUDE + ghost + '\n' + text + '\n' + u.harness + '\n')
    gb = os.path.join(wd, 'tu.gb')
    cmds = [['goto-cc', '--function', u.entry, tu, '-o', gb]]
    if u.extra:
        parts = [os.path.join(wd, 'main.gb')]
        cmds = [['goto-cc', '-c', tu, '-o', parts[0]]]
        for i, x in enumerate(u.extra):
            o = os.path.join(wd, 'x%d.gb' % i)
            if isinstance(x, dict):          # another real source, possibly spliced
                t = cutter.preprocess(os.path.join(REPO, x['source']), x.get('defs', ()), incs)
                pp = os.path.join(wd, 'x%dpp.c' % i); open(pp, 'w', encoding='latin-1').write(t)
                if x.get('loops'): t = cutter.splice(t, pp, x['loops'])
                xt = os.path.join(wd, 'x%d.c' % i); open(xt, 'w', encoding='latin-1').write(PRELUDE + x.get('ghost', '') + t)
                cmds.append(['goto-cc', '-c', xt, '-o', o])
            else:
                cmds.append(['goto-cc', '-c'] + ['-I' + i for i in incs] + [os.path.join(REPO, x), '-o', o])
            parts.append(o)
        cmds.append(['goto-cc', '--function', u.entry] + parts + ['-o', gb])
    for c in cmds:
        r = sh(c)
        if r.returncode:
            raise Detached('does not compile under contract: ' + (r.stdout + r.stderr)[-800:])
    gb2 = os.path.join(wd, 'final.gb')
    r = sh(['goto-instrument', '--drop-unused-functions', gb, gb2])
    return gb2 if r.returncode == 0 else gb

def cbmc_cmd(u, gb):
    c = ['cbmc', gb, '--unwind', str(u.unwind), '--unwinding-assertions', '--json-ui', '--verbosity', '4', '--slice-formula']
    if u.checks == 'none': c += ['--no-standard-checks']
    elif u.checks == 'mem': c += ['--no-standard-checks', '--bounds-check', '--pointer-check', '--div-by-zero-check']
    elif u.checks == 'all': c += ['--no-standard-checks', '--bounds-check', '--pointer-check', '--div-by-zero-check', '--signed-overflow-check', '--undefined-shift-check', '--pointer-overflow-check']
    if u.objbits: c += ['--object-bits', str(u.objbits)]
    return c + list(u.flags)

def run(u, wd):
    t0 = time.time()
    res = dict(unit=u.name, functions=u.functions, status=None, obligations=[], reach=[], wall=0, cmd='', note='')
    try:
        gb = build(u, wd)
    except Detached as e:
        res.update(status='detached', note=str(e), wall=time.time() - t0); return res
    cmd = cbmc_cmd(u, gb)
    res['cmd'] = ' '.join(cmd)
    try:
        r = subprocess.run(['bash', '-c', 'ulimit -v %d; exec "$@"' % MEMLIM_KB, 'x'] + cmd, capture_output=True, encoding='latin-1', timeout=u.timeout)
    except subprocess.TimeoutExpired:
        res.update(status='timeout', wall=time.time() - t0); return res
    try:
        out = json.loads(r.stdout)
    except ValueError:
        res.update(status='error', note=(r.stdout[-1500:] + r.stderr[-500:]), wall=time.time() - t0); return res
    got = None
    for o in out:
        if isinstance(o, dict) and 'result' in o: got = o['result']
        if isinstance(o, dict) and o.get('messageType') == 'ERROR': res['note'] += o.get('messageText', '') + '\n'
    if got is None:
        res.update(status='error', note=res['note'] or r.stdout[-1500:], wall=time.time() - t0); return res
    for g in got:
        d = g.get('description', '')
        item = dict(name=g['property'], desc=d, status=g['status'], loc=(g.get('sourceLocation') or {}).get('function', ''))
        if d.startswith('REACH '): res['reach'].append(item)
        else:
            if g['status'] == 'FAILURE': item['trace'] = g.get('trace')
            res['obligations'].append(item)
    bad = [o for o in res['obligations'] if o['status'] == 'FAILURE']
    vac = [o for o in res['reach'] if o['status'] == 'SUCCESS']
    unw = [o for o in bad if '.unwind' in o['name']]
    if any(o['status'] not in ('SUCCESS', 'FAILURE') for o in res['obligations'] + res['reach']) and not any(o['status'] == 'FAILURE' for o in res['obligations']): res['status'] = 'error'; res['note'] += ' solver gave no answer'
    elif not res['obligations'] or not res['reach']: res['status'] = 'vacuous'
    elif bad and len(unw) == len(bad): res['status'] = 'unwound'
    elif bad: res['status'] = 'failed'
    elif vac: res['status'] = 'vacuous'; res['note'] = 'unreachable: ' + '; '.join(o['desc'] for o in vac)
    else: res['status'] = 'proved'
    if res['status'] == 'failed':      # second run: a counterexample for the first failed obligation
        o = bad[0]
        try:
            r = subprocess.run(['bash', '-c', 'ulimit -v %d; exec "$@"' % MEMLIM_KB, 'x'] + cmd + ['--trace', '--property', o['name']], capture_output=True, encoding='latin-1', timeout=min(u.timeout, 120))
            for x in json.loads(r.stdout):
                for g in (x.get('result') or [] if isinstance(x, dict) else []):
                    if g['property'] == o['name'] and g.get('trace'): o['trace'] = g['trace']
        except Exception: pass
    res['wall'] = time.time() - t0
    return res

def brief_trace(tr, cap=60):
    """readable tail of a CBMC counterexample: the assignments to named variables"""
    out = []
    for st in tr or []:
        if st.get('stepType') == 'assignment' and not st.get('hidden'):
            lhs = st.get('lhs', ''); v = (st.get('value') or {})
            if lhs.startswith('__CPROVER') or 'data' not in v: continue
            loc = st.get('sourceLocation') or {}
            out.append('%s:%s %s = %s' % (loc.get('function', ''), loc.get('line', ''), lhs, v.get('data')))
    return out[-cap:]
