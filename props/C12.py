import os
RULE = 'random rule files (plain and context dependent rules, bracketed strings with leading/trailing spaces and slashes, rules sharing prefixes, rules that delete, comments, headers for case, copying and size, files with exactly the announced number of rules, empty files) are applied by the real rfilter1 (address sanitizer) to random lines (over the letters of the rules, both cases, 8-bit characters, empty lines, missing last newline, lines up to 30,000 bytes, up to 60,000 with growing output); the output must be byte for byte what the documented algorithm gives: at each position the first rule of the file that matches is applied, else the character is copied or dropped; nontrivial = some rule fired'
BOUND = 'rule lines below 130 bytes (the documented buffer), up to 450 rules, lines up to 60,000 bytes'
UNITS = ['rfilter']

def apply(rules, line, copy, cs):
    f = (lambda b: b) if cs else (lambda b: bytes(c - 32 if 97 <= c <= 122 else c for c in b))
    L = f(line); R = [(f(a), b, f(c), f(d)) for a, b, c, d in rules]
    first = {}
    for r in R: first.setdefault(r[0][0], []).append(r)
    out = []; i = 0; hits = 0
    while i < len(L):
        for a, b, c, d in first.get(L[i], ()):
            if L.startswith(a, i) and L[:i].endswith(c) and L.startswith(d, i + len(a)):
                out.append(b); i += len(a); hits += 1; break
        else:
            if copy: out.append(line[i:i + 1])
            i += 1
    return b''.join(out), hits

def q(rng, s, force=False):
    """write string s as the rule file does"""
    if force or s[:1] in b' \t' or s[-1:] in b' \t' or not s or b'/' in s or rng.random() < .5: return b'[' + s + b']'
    return s

def rstr(rng, al, lo, hi):
    return bytes(rng.choice(al) for _ in range(rng.randint(lo, hi)))

def rules_of(rng, n, al, ctxp):
    rs = []
    for _ in range(n):
        a = rstr(rng, al, 1, 4)
        if rs and rng.random() < .3: a = (rng.choice(rs)[0] + rstr(rng, al, 0, 2))[:8]
        b = rstr(rng, al + b'/', 0, 5)
        c = rstr(rng, al, 0, 3) if rng.random() < ctxp else b''
        d = rstr(rng, al, 0, 3) if rng.random() < ctxp else b''
        if any(x.startswith(b'[') or x.endswith(b']') for x in (a, b)): continue
        rs.append((a, b, c, d))
    return rs

def write(rng, rules, copy, cs, maxn):
    out = [rng.choice([b';; rules', b';;', b'# x'])]
    flag = out[0].split()[0]
    if not cs or rng.random() < .3: out.append(b'* CASE_SENSITIVE = "%s"' % (rng.choice([b'T', b'YES', b'true']) if cs else rng.choice([b'F', b'no', b'FALSE'])))
    if not copy or rng.random() < .3: out.append(b"* copy_no_hit = '%s'" % (rng.choice([b'T', b'YES', b'TRUE']) if copy else b'F'))
    if maxn: out.append(b'* MAX_NRULES = "%d"' % maxn)
    for a, b, c, d in rules:
        ctx = c or d or rng.random() < .1
        l = q(rng, a) + b' => ' + (q(rng, b) if b or rng.random() < .5 else b'')
        if ctx: l += b' / ' + (q(rng, c) if c else b'') + b' __ ' + (q(rng, d) if d else b'')
        l = l.rstrip()
        if rng.random() < .2: l += b'  ' + flag + b' comment => / _'
        if rng.random() < .1: l = b'  ' + l
        if len(l) > 128: l = l[:128] if b' ' + flag in l[:128] else l
        out.append(l)
        if rng.random() < .1: out.append(rng.choice([flag + b' a => b', b'', flag]))
    return b'\n'.join(out) + b'\n'

AL = [b'ab ', b'abAB ', b'abc d', b"ab'-.\xe9\xc9 ", b'aAbBcC']
def one(ctx, prog, rng, n=None, maxn=None, text=None, growth=False):
    al = rng.choice(AL)
    n = rng.choice([1, 1, 2, 3, 5, 10, 30]) if n is None else n
    rules = rules_of(rng, n, al, rng.choice([0, .3, .8]))
    while n and len(rules) < n: rules += rules_of(rng, n - len(rules), al, .3)
    copy, cs = rng.random() < .8, rng.random() < .6
    if growth: rules = [(b'a', b'x' * 90, b'', b''), (b'ab', b'y' * 60, b'', b'')] + rules; copy = True
    if maxn is None and rng.random() < .3: maxn = rng.choice([len(rules), len(rules) + 1, 400]) if len(rules) else None
    if len(rules) > 400 and not maxn: maxn = len(rules)
    rf = write(rng, rules, copy, cs, maxn)
    if text is None:
        ls = []
        for _ in range(rng.randint(1, 12)):
            l = rstr(rng, al, 0, rng.choice([3, 10, 40]))
            for r in rng.sample(rules, min(len(rules), 3)):
                if rng.random() < .5: p = rng.randint(0, len(l)); l = l[:p] + rng.choice([r[0], r[2] + r[0] + r[3], (r[2] + r[0] + r[3]).swapcase() if not cs else r[0]]) + l[p:]
            ls.append(l)
        text = b''.join(l + b'\n' for l in ls)
        if rng.random() < .1: text = text[:-1]
    d = ctx.dir()
    open(d + '/r.glm', 'wb').write(rf)
    r = ctx.run([prog, 'r.glm'], cwd=d, stdin=text.decode('latin-1'), enc='latin-1')
    exp = b''; hits = 0
    for l in text.split(b'\n')[:-1] + ([text.split(b'\n')[-1]] if not text.endswith(b'\n') else []):
        pass
    for l in text.splitlines(keepends=True) if b'\r' not in text else []:
        o, h = apply(rules, l, copy, cs); exp += o; hits += h
    got = r.stdout.encode('latin-1')
    if got != exp:
        gl, el = got.split(b'\n'), exp.split(b'\n')
        i = next((k for k in range(max(len(gl), len(el))) if k >= len(gl) or k >= len(el) or gl[k] != el[k]), 0)
        ctx.fail('the rules are not applied as documented', rules=rf.decode('latin-1')[:6000], line=(text.split(b'\n') + [b''] * (i + 1))[i].decode('latin-1')[:3000], got=(gl[i] if i < len(gl) else b'').decode('latin-1')[:3000], expected=(el[i] if i < len(el) else b'').decode('latin-1')[:3000])
    ctx.case((rf, text), hits > 0); ctx.count('rule applications', hits)
    ctx.sample({'rules': len(rules), 'bytes in': len(text), 'bytes out': len(exp), 'hits': hits})

def bounded(ctx):
    prog = ctx.build.rfilter1(True)
    rng = ctx.rng
    one(ctx, prog, rng, n=0)
    one(ctx, prog, rng, n=1, maxn=1)
    one(ctx, prog, rng, n=400)
    one(ctx, prog, rng, n=450)
    one(ctx, prog, rng, n=5, text=rstr(rng, b'abcd ', 30000, 30000) + b'\nab\n')
    one(ctx, prog, rng, n=5, growth=True, text=rstr(rng, b'abcd ', 60000, 60000) + b'\nab\n')
    for _ in range(ctx.scale(1500, 20000)): one(ctx, prog, rng)
