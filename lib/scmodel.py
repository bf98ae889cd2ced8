"""Independent reference semantics of sclite's word alignment, written from the documentation
(doc/sclite.htm: cost structure, alternations, fragments, optionally deletable words)."""
import os, re, itertools

class W:
    __slots__ = ('value', 'iv', 'od', 'frag', 'weight')
    def __init__(self, v, od=False, frag=False, weight=1.0):
        if len(v) > 1 and v.endswith('*'): v = v[:-1]
        self.value = v; self.od = False; self.iv = v; self.frag = False; self.weight = weight
        if od and len(v) > 2 and v[0] == '(' and v[-1] == ')':
            self.od = True; self.iv = v[1:-1]
        if frag:
            if self.iv and (self.iv[0] == '-' or self.iv[-1] == '-'): self.frag = True
    def __repr__(self): return self.value

def words_match(a, b):
    x, y = a.iv, b.iv
    if a.frag or b.frag:
        # the first operand that is a fragment decides
        for f, o in ((x, y), (y, x)):
            if len(f) > 1 and f[0] == '-':
                return o.endswith(f[1:])
            if len(f) > 1 and f[-1] == '-':
                return o.startswith(f[:-1])
    return x == y

NULL = '@'
def cost(a, b):
    """wwd of the documented cost structure; a or b may be None"""
    if b is None and a.value == NULL: return 0.001
    if a is None and b.value == NULL: return 0.001
    if a is None: return 2.0 if b.od else 3.0
    if b is None: return 2.0 if a.od else 3.0
    if a.value == NULL and b.value == NULL: return 1.0
    return 0.0 if words_match(a, b) else 4.0

def cost_weight(a, b):
    if b is None: return 0.001 if a.value == NULL else a.weight
    if a is None: return 0.001 if b.value == NULL else b.weight
    return 0.0 if words_match(a, b) else a.weight + b.weight

def min_cost(r, h, c=cost):
    n, m = len(r), len(h)
    prev = [0.0] * (m + 1)
    for j in range(1, m + 1): prev[j] = prev[j - 1] + c(None, h[j - 1])
    for i in range(1, n + 1):
        cur = [prev[0] + c(r[i - 1], None)] + [0.0] * m
        for j in range(1, m + 1):
            cur[j] = min(prev[j - 1] + c(r[i - 1], h[j - 1]), prev[j] + c(r[i - 1], None), cur[j - 1] + c(None, h[j - 1]))
        prev = cur
    return prev[m]

def parse_alt(toks, i=0, depth=0):
    """tokens -> list of items; item = str | list of branches"""
    out = []; branches = []
    while i < len(toks):
        t = toks[i]
        if t == '{':
            br, i = parse_alt(toks, i + 1, depth + 1)
            out.append(br); continue
        if depth and t == '/':
            branches.append(out); out = []; i += 1; continue
        if depth and t == '}':
            branches.append(out); return branches, i + 1
        out.append(t); i += 1
    return out, i

def expand(items, cap=4000):
    seqs = [[]]
    for it in items:
        if isinstance(it, str): opts = [[it]]
        else:
            opts = []
            for b in it: opts += expand(b, cap)
        seqs = [s + o for s in seqs for o in opts]
        if len(seqs) > cap: raise OverflowError
    return seqs

def expansions(text):
    return expand(parse_alt(text.split())[0])

def nonull(seq): return [w for w in seq if w != NULL]

PATH_RE = re.compile(r'<PATH (.*?)>\n(.*?)\n?</PATH>', re.S)
def split_unesc(s, ch):
    out, cur, q, i = [], '', False, 0
    while i < len(s):
        c = s[i]
        if c == '\\': cur += s[i:i + 2]; i += 2; continue
        if c == '"': q = not q
        if c == ch and not q: out.append(cur); cur = ''
        else: cur += c
        i += 1
    out.append(cur); return out

def parse_sgml(txt):
    """list of (attrs dict, [(eval, ref, hyp, rest...)])"""
    res = []
    for m in PATH_RE.finditer(txt):
        at = dict(re.findall(r'(\w+)="?([^"\s]*)"?', m.group(1)))
        seg = []
        body = m.group(2)
        if body.strip():
            for f in split_unesc(body, ':'):
                g = split_unesc(f, ',')
                seg.append((g[0], g[1][1:-1] if g[1] else None, g[2][1:-1] if len(g) > 2 and g[2] else None, g[3:]))
        res.append((at, seg))
    return res

def write_trn(d, name, texts, sent=None):
    with open(os.path.join(d, name), 'w', encoding='utf-8', errors='surrogateescape') as f:
        for i, t in enumerate(texts): f.write('%s (s%d_%d)\n' % (t, i // 50, i))

def run_trn(ctx, sclite, utts, flags=(), outs=('sgml',), enc='latin-1'):
    d = ctx.dir()
    write_trn(d, 'r.trn', [u[0] for u in utts]); write_trn(d, 'h.trn', [u[1] for u in utts])
    r = ctx.run([sclite, '-r', 'r.trn', 'trn', '-h', 'h.trn', 'trn', '-i', 'spu_id'] + list(flags) + ['-o'] + list(outs) + ['stdout'], cwd=d, enc=enc)
    return r.stdout, d

def paths_by_index(out, n, ctx, d):
    ps = parse_sgml(out)
    res = {}
    for at, seg in ps:
        m = re.search(r'_(\d+)\)', at['id'])
        res[int(m.group(1))] = (at, seg)
    if len(res) != n or len(ps) != n:
        ctx.fail('sclite reported %d alignments for %d utterances' % (len(ps), n), files=ctx._files(d), output=out[-2000:])
    return res
