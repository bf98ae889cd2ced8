import os, re
from lib import scmodel as M, gen
UNITS = ['text2', 'text:TEXT_strlen,TEXT_strBcpy']
RULE = 'files with extreme and boundary lengths of lines, words, alternations, identifiers and numbers of words, odd white space, comments, blank lines, missing final newline are scored by the real sclite built with the address sanitizer; words, identifiers and the printed alignments must come out exactly as written; nontrivial = some length crosses an initial buffer size'
BOUND = 'words up to 2,500 bytes, lines up to 140,000 bytes, alternations up to 15,000 bytes'

SIZES = [1, 2, 38, 39, 40, 41, 42, 60, 98, 99, 100, 101, 102, 198, 199, 200, 201, 499, 500, 501, 998, 999, 1000, 1001, 1002]
def ws(rng): return rng.choice([' ', ' ', ' ', '  ', '\t', ' \t ', '   '])

def word(rng, n=None):
    n = n or rng.choice([1, 2, 3, 5, 8])
    return ''.join(rng.choice('abcdefghij') for _ in range(n))

def mkline(rng, total):
    """words whose line is exactly `total` bytes long"""
    out = []; left = total
    while left > 0:
        n = min(left, rng.choice([1, 3, 7, 12]))
        out.append(word(rng, n)); left -= n + 1
        if left == 0: out[-1] += 'x'
    return ' '.join(out)

def pralign_words(txt):
    """per utterance: (ref tokens, hyp tokens) printed by -o pralign"""
    res = {}; cur = None
    for l in txt.split('\n'):
        m = re.match(r'id: \((.*)\)$', l)
        if m: cur = m.group(1); res[cur] = ([], []); continue
        m = re.match(r'(?:>> )?(REF|HYP):  ?(.*)$', l)
        if m and cur is not None: res[cur][0 if m.group(1) == 'REF' else 1].extend(t for t in m.group(2).split() if not re.fullmatch(r'\*+', t))
    return res

def bounded(ctx):
    rng = ctx.rng
    asan = ctx.build.sclite_prog('sclite', san=True)
    def score(utts, ids, flags=(), outs=('sgml', 'pralign'), tail=True, noise=True):
        d = ctx.dir(); os.makedirs(d + '/o')
        for nm, k in (('r.trn', 0), ('h.trn', 1)):
            lines = []
            order = list(range(len(utts)))
            if k == 0: rng.shuffle(order)
            for i in order:
                u = utts[i]
                if noise and rng.random() < .2: lines.append(rng.choice(['', ' ', '\t', ';; comment ' + 'c' * rng.choice([3, 996, 1200]), ';; x']))
                t = u[k]
                lines.append('%s%s(%s)' % (t, rng.choice([' ', '  ', '\t']) if noise else ' ', ids[i]))
            s = '\n'.join(lines) + ('\n' if tail else '')
            open(d + '/' + nm, 'w').write(s)
        outs = list(outs)
        ctx.run([asan, '-r', 'r.trn', 'trn', '-h', 'h.trn', 'trn', '-i', 'spu_id', '-O', 'o', '-n', 'x'] + list(flags) + ['-o'] + outs, cwd=d, timeout=120)
        files = ctx._files(d)
        ps = M.parse_sgml(open(d + '/o/x.sgml', encoding='latin-1').read())
        P = {at['id'][1:-1]: (at, seg) for at, seg in ps}
        if len(ps) != len(utts) or set(P) != set(ids): ctx.fail('utterances reported differ from the utterances of the input', ids=ids[:50], reported=sorted(P)[:50], files=files)
        Q = pralign_words(open(d + '/o/x.pra', encoding='latin-1').read()) if os.path.exists(d + '/o/x.pra') else None
        for i, u in enumerate(utts):
            at, seg = P[ids[i]]
            for k, nm in ((0, 'reference'), (1, 'hypothesis')):
                E = [M.nonull(e) for e in M.expansions(u[k])]
                got = [x[1 + k] for x in seg if x[1 + k]]
                if got not in E: ctx.fail('%s words differ from the text of the input line' % nm, id=ids[i], text=u[k][:3000], got=got[:200], flags=list(flags), files=files)
                if Q is not None:
                    q = [w.lower() for w in Q[ids[i]][k]]
                    if q != [w.lower() for w in got]: ctx.fail('printed alignment does not show the %s words' % nm, id=ids[i], expected=got[:100], printed=q[:100], flags=list(flags), files=files)
            ctx.case((ids[i], u[0][:200], u[1][:200], len(u[0]), len(u[1])), nontrivial=len(u[0]) > 100 or len(u[1]) > 100 or any(len(w) > 20 for w in u[0].split()))
        if len(ctx.samples) < 3: ctx.sample(dict(sizes=[(len(u[0]), len(u[1])) for u in utts[:8]], flags=list(flags)))
    def ids(n, L=0): return ['s%d_%d%s' % (i // 5, i, 'i' * L) for i in range(n)]
    import time
    t0 = [time.time()]
    def T(n): ctx.counters['seconds ' + n] = round(time.time() - t0[0]); t0[0] = time.time()
    # 1. words of every boundary length, alone against nothing, against a short and against a long word
    for n in SIZES + ([2500] if ctx.tier != 'quick' else []):
        a, b = word(rng, n), word(rng, max(1, n - 1))
        us = [(a, ''), ('', a), (a, 'b'), ('c ' + a + ' d', 'c d'), ('c d', 'c ' + a + ' d'), (a, b), ('{ ' + a + ' / q r } e', 'q r e'), ('{ q / ' + a + ' }', a)]
        if n > 400: us = us[:3] + us[-1:]
        score(us, ids(len(us)), flags=rng.choice([[], ['-l', str(rng.choice([20, 40, 50, 80, 300]))]]))
    T('words')
    # 2. lines whose length crosses the doubling of the line buffers
    for n in [998, 999, 1000, 1001, 1002, 1003, 1997, 1998, 1999, 2000, 2001, 3999, 4000, 4001, 7999, 8000, 8001] + rng.sample(range(900, 9000), ctx.scale(4, 30)):
        k = n - 8
        r = mkline(rng, k); h = ' '.join(gen.mutate(rng, r.split(), ['zz', 'yyy'], .1))
        us = [('a', 'a'), (r, h), (h, r), ('b', 'c')]
        score(us, ids(4), noise=False, tail=rng.random() < .5)
    T('lines')
    # 3. long texts and long alternations
    for n in [1100, 1800, 2600][:ctx.scale(2, 3)]:
        big = ['w%d' % i for i in range(n)]
        score([('{ ' + ' '.join(big) + ' / x } tail', ' '.join(big) + ' tail'), ('y', 'y')], ids(2), noise=False)
    big = ['v%d' % rng.randint(0, 50) for _ in range(ctx.scale(900, 4000))]
    score([(' '.join(big), ' '.join(gen.mutate(rng, big, ['q'], .05)))], ids(1))
    # many alternatives / deep nesting
    score([('{ ' + ' / '.join('a%d b%d' % (i, i) for i in range(60)) + ' } z', 'a30 b30 z')], ids(1))
    deep = 'k'
    for i in range(8): deep = '{ %s / m%d }' % (deep, i)
    score([(deep + ' z', 'k z'), (deep, 'm3')], ids(2))
    T('alt')
    # 4. identifiers and many utterances
    for L in (10, 27, 28, 29, 30, 60, 94, 95, 120, 400, 1100):
        n = rng.choice([3, 8]); score([(gen.alt_text(rng, ['a', 'b'], 3), gen.alt_text(rng, ['a', 'b'], 3)) for _ in range(n)], ids(n, L))
    n = ctx.scale(300, 2000)
    score([(gen.alt_text(rng, ['a', 'b', 'cc'], rng.randint(0, 4), .1), gen.alt_text(rng, ['a', 'b'], rng.randint(0, 4))) for _ in range(n)], ids(n))
    T('ids')
    # 5. white space, blank lines, comments, widths, last line without newline, every report
    for rnd in range(ctx.scale(25, 250)):
        n = rng.randint(1, 8); us = []
        for _ in range(n):
            r = [word(rng, rng.choice([1, 2, 4, 12, 30, 39, 41, 70])) for _ in range(rng.randint(0, 14))]
            h = gen.mutate(rng, r, ['q', 'longer-word-here', 'x' * 45])
            j = lambda t: (rng.choice(['', ' ', '\t']) + ''.join(w + ws(rng) for w in t)).rstrip() if t else ''
            us.append((j(r), j(h)))
        score(us, ids(n), flags=['-l', str(rng.choice([10, 25, 40, 41, 79, 80, 120, 1000]))], tail=rng.random() < .7, outs=('sgml', 'pralign', 'sum', 'rsum', 'dtl', 'spk', 'snt') if rnd % 3 == 0 else ('sgml', 'pralign'))
    T('ws')
    # 6. time marked input with long fields
    for rnd in range(ctx.scale(12, 80)):
        d = ctx.dir(); os.makedirs(d + '/o')
        L = [5, 60, 101, 499, 500, 501, 900, 1200][rnd % 8]
        ws_ = [word(rng, rng.choice([2, 5, L])) for _ in range((rng.choice([3, 20, 120]) if L < 100 else 3))]
        fn = 'f' * rng.choice([1, 20, 99, 150]); sp = 'p' * rng.choice([1, 20, 60])
        nl = rng.choice(['\n', ''])
        open(d + '/r.stm', 'w').write('%s A %s 0.00 %.2f %s%s' % (fn, sp, len(ws_) + 1, ' '.join(ws_), nl))
        open(d + '/h.ctm', 'w').write('\n'.join('%s%sA %.2f 0.20 %s' % (fn, rng.choice([' ', '\t', '  ']), i + .1, w) for i, w in enumerate(ws_)) + nl)
        ctx.run([asan, '-r', 'r.stm', 'stm', '-h', 'h.ctm', 'ctm', '-O', 'o', '-n', 'x', '-o', 'sgml', 'pralign', 'sum'], cwd=d, timeout=120)
        ps = M.parse_sgml(open(d + '/o/x.sgml', encoding='latin-1').read())
        data = dict(files=ctx._files(d), sizes=[len(w) for w in ws_])
        if len(ps) != 1: ctx.fail('%d alignments reported for one segment' % len(ps), **data)
        if [x[:3] for x in ps[0][1]] != [('C', w, w) for w in ws_]: ctx.fail('time marked words differ from the input', got=ps[0][1][:5], **data)
        ctx.case(('stm', L, rnd), nontrivial=True)
    T('stm')
