"""Context handed to the bounded (executable-contract) part of a check."""
import os, random, subprocess, time, hashlib, json, tempfile, shutil

class Violation(Exception):
    def __init__(self, desc, data=None):
        Exception.__init__(self, desc); self.desc = desc; self.data = data

class Crash(Exception):
    pass

class Ctx:
    def __init__(self, pid, tier, seed, build, t0):
        self.pid, self.tier, self.seed, self.build, self.t0 = pid, tier, seed, build, t0
        self.rng = random.Random(seed * 1000003 + sum(map(ord, pid)))
        self.evals = 0; self.distinct = set(); self.samples = []; self.counters = {}; self.findings = set(); self.unlisted = []
        self.n = 0
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
        self.known = {k['key'] for k in (json.load(open(p)) if os.path.exists(p) else []) if k.get('property') == pid and k.get('status') == 'known'}
    def scale(self, quick, thorough):
        return quick if self.tier == 'quick' else thorough
    def case(self, key, nontrivial=True, n=1):
        self.evals += n
        if nontrivial: self.distinct.add(hashlib.md5(repr(key).encode('utf-8', 'surrogateescape')).digest()[:8])
    def count(self, k, n=1): self.counters[k] = self.counters.get(k, 0) + n
    def sample(self, s, cap=6):
        if len(self.samples) < cap: self.samples.append(s)
    def fail(self, desc, **data):
        raise Violation(desc, data)
    def finding(self, key, desc, **data):
        """a defect identified by `key`: quiet if listed in known_findings.json, otherwise a violation"""
        if key in self.known: self.findings.add(key)
        else: raise Violation(desc, dict(data, key=key))
    def dir(self):
        self.n += 1
        d = os.path.join(self.build.scratch(), 'run%d' % self.n); os.makedirs(d, exist_ok=True); return d
    def run(self, cmd, cwd=None, stdin=None, timeout=60, env=None, enc='latin-1', ok=(0,)):
        """run a real program; a crash, hang or unexpected exit is a violation with the input attached"""
        e = dict(os.environ, LC_ALL='C', ASAN_OPTIONS='detect_leaks=0:abort_on_error=0')
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=cwd, input=stdin, capture_output=True, encoding=enc, errors='surrogateescape' if enc == 'utf-8' else 'strict', timeout=timeout, env=e)
        except subprocess.TimeoutExpired:
            self.fail('%s did not finish within %ds' % (os.path.basename(cmd[0]), timeout), cmd=cmd, cwd=self._files(cwd), stdin=stdin)
        if ok is not None and r.returncode not in ok:
            self.fail('%s exited with %d: %s' % (os.path.basename(cmd[0]), r.returncode, (r.stderr + r.stdout)[-600:] if r.returncode else ''), cmd=cmd, files=self._files(cwd), stdin=stdin, stderr=r.stderr[-3000:])
        return r
    def _files(self, cwd):
        out = {}
        if cwd and os.path.isdir(cwd):
            for f in sorted(os.listdir(cwd))[:12]:
                p = os.path.join(cwd, f)
                if os.path.isfile(p) and os.path.getsize(p) < 20000:
                    out[f] = open(p, encoding='latin-1').read()
        return out
