import itertools
from lib import scmodel as M, gen
from units.text import PROF, low
UNITS = ['text']
RULE = 'random words over the letters of every encoding and language profile (both cases, letters outside the profile, two to four byte characters) are scored by the real sclite (address sanitizer on) with and without case sensitivity and with character scoring; an independent character-level oracle says how every word must be folded, split and matched; nontrivial = at least one multi byte character or a case difference'
BOUND = 'words up to 12 characters, utterances up to 12 words; UTF-8 up to 4 bytes'

def foldset(prof):
    d = {}
    for ch in PROF.get(prof, ''): d[ch] = low(prof, ch)
    return d

def fold_chars(chars, enc, prof):
    """the documented lower case form of a list of characters (each a str for utf-8, bytes otherwise)"""
    out = []
    d = foldset(prof)
    for c in chars:
        if enc == 'utf-8':
            if c in d: out.append(d[c])
            elif c < '\x80': out.append(c.lower())
            else: out.append(c)
        else:
            if len(c) == 1 and c[0] < 128: out.append(c.lower())
            elif len(c) == 1 and enc == 'ext_ascii' and 192 <= c[0] <= 223: out.append(bytes([c[0] + 32]))
            else: out.append(c)
    return out

def raw(chars, enc):
    return ''.join(chars).encode('utf-8').decode('latin-1') if enc == 'utf-8' else b''.join(chars).decode('latin-1')

def isasc(c): return (c if isinstance(c, bytes) else c.encode())[0] < 128 and len(c if isinstance(c, bytes) else c.encode()) == 1
HY = ('-', b'-')
def split(chars, enc, prof, noasc, dh):
    """the units a word is split into by -c"""
    out = []; lastasc = False; i = 0
    allasc = enc in (None, 'ext_ascii')     # single byte encodings: every byte counts as ASCII
    while i < len(chars):
        c = chars[i]
        if dh and c in HY: i += 1; continue
        if prof == 'LPROF_BABEL_GUARANI' and c in ('g', 'G') and i + 1 < len(chars) and chars[i + 1] == '\u0303':
            out.append([c, chars[i + 1]]); lastasc = False; i += 2; continue
        a = allasc or isasc(c)
        if noasc and a and lastasc: out[-1].append(c)
        else: out.append([c])
        lastasc = a; i += 1
    return out

ENCS = [(None, None), ('ext_ascii', None), ('gb', None), ('euc', None), ('utf-8', None)] + [('utf-8', p) for p in PROF] + [('utf-8', 'LPROF_GENERIC')]
def alphabet(rng, enc, prof):
    A = [c for c in 'abcdefgXYZIiJkLm0']
    if enc == 'utf-8':
        p = PROF.get(prof, '')
        A += list(p) + [low(prof, c) for c in p]
        A += list('éÉñÑßЖжŠšΩω中文字한\u0303あ\U0001F600\U00020000ａ') + ['\u07ff', '\u0800', '\uffed', '\U00010000']
        A += list('gG') * 2 + ['\u0303'] * 2
        return A
    A = [c.encode() for c in A]
    if enc is None: A += [bytes([b]) for b in (0xC0, 0xE0, 0xDF, 0xFF, 0xA1, 0x80)]
    elif enc == 'ext_ascii': A += [bytes([b]) for b in range(0xC0, 0x100)] + [bytes([0x80]), bytes([0xA1])]
    else: A += [bytes([a, b]) for a in (0xA1, 0xB0, 0xC4, 0xD6, 0xF7, 0xFE) for b in (0xA1, 0xB5, 0xC1, 0xE1, 0xFE, 0x41, 0x5A, 0x61, 0x7A)]
    return A

def bounded(ctx):
    rng = ctx.rng
    plain = ctx.build.sclite_prog('sclite'); asan = ctx.build.sclite_prog('sclite', san=True)
    n = 0
    for rep in range(ctx.scale(3, 25)):
        for enc, prof in ENCS:
            for copt in (None, (), ('NOASCII',), ('DH',), ('NOASCII', 'DH')):
                cs = rng.random() < .35
                A = alphabet(rng, enc, prof)
                if copt is not None: A = A + ['-' if enc == 'utf-8' else b'-'] * 3
                utts = []
                vocab = []
                for _ in range(25):
                    w = [rng.choice(A) for _ in range(rng.choice([1, 1, 2, 3, 5, 12]))]
                    if copt is not None and 'DH' in copt and all(c in HY for c in w): w.append(A[0])
                    vocab.append(w)
                    if rng.random() < .6:   # the same word in another case, or with one character changed
                        v = [c.swapcase() if rng.random() < .5 else c for c in w] if enc != 'utf-8' else [rng.choice([c, c.upper() if len(c.upper()) == 1 else c, c.lower() if len(c.lower()) == 1 else c]) for c in w]
                        if enc in ('gb', 'euc'): v = [c if len(c) > 1 else d for c, d in zip(w, v)]
                        vocab.append(v)
                        v = list(w); v[rng.randrange(len(v))] = rng.choice(A); vocab.append(v)
                if copt is not None and 'DH' in copt: vocab = [w for w in vocab if not all(c in HY for c in w)]
                for _ in range(40):
                    r = [rng.choice(vocab) for _ in range(rng.randint(0, 6 if copt is not None else 12))]
                    h = []
                    for w in r:
                        x = rng.random()
                        if x < .5: h.append(w)
                        elif x < .9: h.append(rng.choice(vocab))
                    utts.append((r, h))
                d = ctx.dir()
                for nm, k in (('r', 0), ('h', 1)):
                    with open('%s/%s.trn' % (d, nm), 'w', encoding='latin-1') as f:
                        for i, u in enumerate(utts): f.write('%s (s%d_%d)\n' % (' '.join(raw(w, enc) for w in u[k]), i // 50, i))
                fl = (['-e', enc] + ([('generic' if prof == 'LPROF_GENERIC' else prof[6:].lower())] if prof else []) if enc else []) + (['-s'] if cs else []) + (['-c'] + list(copt) if copt is not None else [])
                o = ctx.run([asan if (n % 3 == 0) else plain, '-r', 'r.trn', 'trn', '-h', 'h.trn', 'trn', '-i', 'spu_id'] + fl + ['-o', 'sgml', 'stdout'], cwd=d).stdout
                n += 1
                P = M.paths_by_index(o, len(utts), ctx, d)
                F = (lambda w: w) if cs else (lambda w: fold_chars(w, enc, prof))
                def units(side):
                    if copt is None: return [raw(F(w), enc) for w in side]
                    return [raw(u, enc) for w in side for u in split(F(w), enc, prof, 'NOASCII' in copt, 'DH' in copt)]
                for i, (r, h) in enumerate(utts):
                    at, seg = P[i]
                    er, eh = units(r), units(h)
                    data = dict(encoding=enc, profile=prof, flags=fl, ref=' '.join(raw(w, enc) for w in r), hyp=' '.join(raw(w, enc) for w in h), path=[list(x[:3]) for x in seg], expected_ref=er, expected_hyp=eh)
                    ctx.case((enc, prof, copt, cs, data['ref'], data['hyp']), nontrivial=any(not isasc(c) for w in r + h for c in w))
                    if i == 3 and rep == 0 and prof == 'LPROF_BABEL_TURKISH': ctx.sample(data)
                    pr = [x[1] for x in seg if x[1]]; ph = [x[2] for x in seg if x[2]]
                    if pr != er: ctx.fail('reference words are not handled as whole characters of the encoding', **data)
                    if ph != eh: ctx.fail('hypothesis words are not handled as whole characters of the encoding', **data)
                    for e, a, b, _ in seg:
                        want = 'D' if not b else 'I' if not a else 'C' if a == b else 'S'
                        if e != want: ctx.fail('pair (%r,%r) labelled %s, character comparison says %s' % (a, b, e, want), **data)
                    best = M.min_cost([M.W(w) for w in er], [M.W(w) for w in eh]); got = sum({'C': 0, 'S': 4, 'D': 3, 'I': 3}[x[0]] for x in seg)
                    if got != best: ctx.fail('number of matching words is not the best possible', **data)
