import os, re
from lib import scmodel as M, gen
UNITS = ['seg']
RULE = 'random reference segment files and hypothesis word lists over several recordings, channels and speakers (gaps, overlaps, ties of midpoints with segment ends, words before the first and after the last segment, ignored segments, alternations incl. empty ones, missing recordings or channels, more than 200 segments and more than 5000 words, blank and comment lines) are scored by the real sclite built with the address sanitizer; each hypothesis word must be scored exactly once, in the segment the documented midpoint rule gives, with its own times, confidence, speaker, recording, channel and label; word list against word list: every word scored once, in time order of the alignment, with minimum cost per chunk; nontrivial = some word lies on or outside a segment border, or a segment is ignored, or a channel is missing'
BOUND = 'up to 700 segments and 6,500 words per recording, times in multiples of 1/8 s up to 10,000 s'

TIE = 8.0
def fmt(x): return '%.3f' % x

def parse(out):
    return M.parse_sgml(out)

def hyp_sequences(items):
    """items: ('w', idx, text, t1, dur) | ('alt', [branches of items]); list of possible word sequences"""
    seqs = [[]]
    for it in items:
        if it[0] == 'w': opts = [[it]]
        else: opts = [list(b) for b in it[1]]
        seqs = [s + o for s in seqs for o in opts]
        if len(seqs) > 3000: raise OverflowError
    return seqs

def mid(it):
    if it[0] == 'w': return it[3] + it[4] / 2.0
    return max([0.0] + [w[3] + w[4] / 2.0 for b in it[1] for w in b])

def last_t(it): # last token of the item as the file has it: (t1, dur)
    if it[0] == 'w': return it[3] + it[4]
    return 0.0
def first_t(it):
    return it[3] if it[0] == 'w' else 0.0

class Hyp:
    def __init__(self, rng, conf): self.rng, self.conf, self.n = rng, conf, 0
    def w(self, text, t1, dur):
        self.n += 1
        c = self.rng.choice(['', 'NA', '0.5', '0.25', '1', '0']) if self.conf else ''
        return ('w', self.n, text, t1, dur, c)

def ctm_lines(f, ch, items):
    out = []
    def tok(w): return ('%s %s %s %s %s %s' % (f, ch, fmt(w[3]), fmt(w[4]), w[2], w[5])).rstrip()
    for it in items:
        if it[0] == 'w': out.append(tok(it))
        else:
            out.append('%s %s * * <ALT_BEGIN>' % (f, ch))
            for k, b in enumerate(it[1]):
                if k: out.append('%s %s * * <ALT>' % (f, ch))
                out += [tok(w) for w in b]
            out.append('%s %s * * <ALT_END>' % (f, ch))
    return out

def mk_items(rng, H, T, n, vocab, p_alt):
    items = []; t = rng.randint(0, 8) / TIE
    for _ in range(n):
        t += rng.choice([0, 0, 1, 2, 3, 8]) / TIE * (T / max(n, 1)) if rng.random() < .3 else rng.choice([0, 1, 2, 4]) / TIE
        d = rng.choice([0, 1, 2, 3, 4, 8, 16]) / TIE
        t = round(t * TIE) / TIE
        if rng.random() < p_alt:
            k = rng.randint(2, 3); br = []; e = rng.randrange(k) if rng.random() < .6 else -1
            for b in range(k):
                br.append([] if b == e else [H.w(rng.choice(vocab), t + j / TIE, 1 / TIE) for j in range(rng.randint(1, 2))])
            items.append(('alt', br))
        else: items.append(H.w(rng.choice(vocab), t, d))
    return items

def noise(rng, lines):
    out = []
    for l in lines:
        if rng.random() < .1: out.append(rng.choice(['', '   ', ';; comment', '\t']))
        out.append(l)
    return out

def seg_assign(segs, items, red_ref, red_hyp):
    """the documented rule; list of (segment, items) for scored segments"""
    keep = [True] * len(segs)
    toks = [w for it in items for w in ([it] if it[0] == 'w' else [('w', 0, '', 0.0, 0.0)])]
    if red_ref and items:
        f, l = first_t(items[0]), last_t(items[-1])
        keep = [not (f >= s['t2'] or l <= s['t1']) for s in segs]
    ign = set(); amb = set()
    if red_hyp:
        K = [s for s, k in zip(segs, keep) if k]
        bt = min([9999999.0] + [s['t1'] for s in K]); et = max([-999999.0] + [s['t2'] for s in K])
        for i, it in enumerate(items):
            ws = [it] if it[0] == 'w' else [w for b in it[1] for w in b]
            if all(w[3] > et or w[3] + w[4] < bt for w in ws): ign.add(i)
    res = []; cur = 0
    for si, s in enumerate(segs):
        if not keep[si]: continue
        e = cur
        if si == len(segs) - 1: e = len(items)
        else:
            while e < len(items) and mid(items[e]) < s['t2']: e += 1
        mine = [items[i] for i in range(cur, e) if i not in ign]
        cur = e
        if s['ignore']: continue
        res.append((s, mine))
    return res

def check_words(ctx, what, seq_opts, got, files, **kw):
    if not any([w[2] for w in s] == [g for g in got] for s in seq_opts):
        ctx.fail('%s: the words scored are not the words of the input' % what, expected=[[w[2] for w in s] for s in seq_opts[:4]], got=got, files=files, **kw)

def one_stm(ctx, prog, rng, big=None):
    d = ctx.dir(); nontriv = False
    conf = rng.random() < .6
    H = Hyp(rng, conf)
    nf = rng.randint(1, 3) if not big else 2
    stm, ctm = [], []; groups = []
    red_ref = rng.random() < .25; red_hyp = rng.random() < .25
    vocab = ['a', 'b', 'c', 'd', 'e']
    for fi in range(nf):
        f = 'rec%d' % fi
        for ch in ['a', 'b', 'c'][:rng.choice([1, 1, 2, 2, 3])]:
            ns = rng.choice([1, 1, 2, 3, 5]) if not big or fi else big[0]
            nw = rng.choice([0, 1, 2, 5, 12, 20]) if not big or fi else big[1]
            T = max(ns * 2.0, 4)
            segs = []; t = rng.randint(0, 6) / TIE
            for k in range(ns):
                t += rng.choice([0, 0, 0, 1, 4, -1]) / TIE
                t = max(t, segs[-1]['t1'] if segs else 0)
                e = t + rng.choice([1, 4, 8, 12, 20]) / TIE
                ig = rng.random() < .12
                txt = rng.choice(['IGNORE_TIME_SEGMENT_IN_SCORING', 'ignore_time_segment_in_scoring', 'IGNORETIMESEGMENTINSCORING']) if ig else gen.alt_text(rng, vocab, rng.randint(0, 4), .15)
                lab = rng.choice(['', '', '<o>', '<o,f>', '<o,m>'])
                segs.append(dict(f=f, ch=ch, spk='sp%d' % rng.randint(0, 3), t1=t, t2=e, ignore=ig, text=txt, label=lab))
                t = e
            items = mk_items(rng, H, segs[-1]['t2'] + 1, nw, vocab, .12 if not big else .02)
            missing = nw > 0 and rng.random() < .12
            if missing: items = []; nontriv = True
            stm += ['%s %s %s %s %s %s %s' % (f, ch.upper() if rng.random() < .3 else ch, s['spk'], fmt(s['t1']), fmt(s['t2']), s['label'], s['text']) for s in segs]
            ctm += ctm_lines(f, ch, items)
            groups.append((f, ch, segs, items))
            if any(s['ignore'] for s in segs) or any(mid(it) >= segs[-1]['t2'] or mid(it) < segs[0]['t1'] or any(mid(it) == s['t2'] for s in segs) for it in items): nontriv = True
    head = [';; LABEL "O" "Overall" "All"', ';; LABEL "F" "Female" "F"']
    open(d + '/r.stm', 'w').write('\n'.join(head + noise(rng, stm)) + '\n')
    open(d + '/h.ctm', 'w').write('\n'.join(noise(rng, ctm) + ['']))
    m = (['ref'] if red_ref else []) + (['hyp'] if red_hyp else [])
    cmd = [prog, '-r', 'r.stm', 'stm', '-h', 'h.ctm', 'ctm', '-O', '.', '-n', 'x', '-o', 'sgml', 'sum'] + (['-m'] + m if m else []) + (['-D'] if 0 else [])
    ctx.run(cmd, cwd=d, timeout=120)
    files = ctx._files(d)
    P = {}
    for at, seg in parse(open(d + '/x.sgml', encoding='latin-1').read()): P.setdefault((at['file'], at['channel']), []).append((at, seg))
    has_conf = any(w[5] not in ('', 'NA') for _, _, _, its in groups for it in its for w in ([it] if it[0] == 'w' else [x for b in it[1] for x in b]))
    nsent = {}
    tot = 0
    for f, ch, segs, items in groups:
        exp = seg_assign(segs, items, red_ref, red_hyp)
        got = sorted(P.pop((f, ch), []), key=lambda x: int(x[0]['sequence']))
        tot += len(exp)
        if len(got) != len(exp):
            ctx.fail('recording %s channel %s: %d segments scored, %d expected' % (f, ch, len(got), len(exp)), files=files, options=m)
        for (s, mine), (at, seg) in zip(exp, got):
            k = nsent.get(s['spk'], 0); nsent[s['spk']] = k + 1
            if at['id'] != '(%s-%03d)' % (s['spk'], k) or at.get('labels', '') != s['label'] or abs(float(at['R_T1']) - s['t1']) > 1e-3 or abs(float(at['R_T2']) - s['t2']) > 1e-3:
                ctx.fail('segment reported with the wrong identity', reported=at, segment=s, files=files, options=m)
            try: opts = hyp_sequences(mine)
            except OverflowError: continue
            got_h = [x for x in seg if x[2] and x[2] != '@']
            # a word is identified by spelling and its own times
            ok = False
            for o in opts:
                o = [w for w in o]
                if len(o) == len(got_h) and all(w[2] == g[2] and g[3][0] == '%s+%s' % (fmt(w[3]), fmt(w[3] + w[4])) and (not has_conf or abs(float(g[3][1]) - (0.0 if w[5] in ('', 'NA') else float(w[5]))) < 1e-5) for w, g in zip(o, got_h)): ok = True; break
            if not ok:
                ctx.fail('segment %s %s %s-%s: words scored %s are not the words of its time span %s' % (f, ch, fmt(s['t1']), fmt(s['t2']), [(g[2], g[3]) for g in got_h], [[(w[2], w[3], w[4]) for w in o] for o in opts[:3]]), files=files, options=m)
            R = [M.nonull(e) for e in M.expansions(s['text'])]
            if [x[1] for x in seg if x[1] and x[1] != '@'] not in R: ctx.fail('reference words of a segment differ', segment=s, got=seg, files=files)
    if P: ctx.fail('segments reported for a channel that does not exist', extra=[k for k in P], files=files)
    ctx.case((stm, ctm, m), nontriv); ctx.count('segments', tot); ctx.count('words', H.n)
    ctx.sample({'stm': stm[:2], 'ctm': ctm[:3], 'options': m})

def time_cost(a, b):
    if a is None: return .001 if b[2] == '@' else b[4]
    if b is None: return .001 if a[2] == '@' else a[4]
    c = abs(a[3] - b[3]) + abs(a[3] + a[4] - b[3] - b[4])
    return c if a[2] == b[2] else c + .001

def word_cost(a, b):
    if a is None or b is None: return 3.0
    return 0.0 if a[2] == b[2] else 4.0

def dp(r, h, c):
    prev = [0.0]
    for y in h: prev.append(prev[-1] + c(None, y))
    for x in r:
        cur = [prev[0] + c(x, None)]
        for j, y in enumerate(h): cur.append(min(prev[j] + c(x, y), prev[j + 1] + c(x, None), cur[j] + c(None, y)))
        prev = cur
    return prev[-1]

def one_ctm(ctx, prog, rng, big=None):
    d = ctx.dir()
    tm = rng.random() < .6
    vocab = ['a', 'b', 'c', 'd', 'e', 'f', 'g']
    R, Hh = Hyp(rng, rng.random() < .5), Hyp(rng, rng.random() < .5)
    groups = []; rl, hl = [], []
    for fi in range(rng.randint(1, 3) if not big else 2):
        f = 'rec%d' % fi
        for ch in ['a', 'b'][:rng.choice([1, 2])]:
            n = rng.choice([1, 1, 2, 4, 9, 30, 70]) if not big or fi else big
            # reference: words one after the other with gaps; hypothesis: perturbed copy
            ref, hyp = [], []; t = rng.randint(0, 8) / TIE
            for _ in range(n):
                t += rng.choice([0, 0, 0, 1, 2, 12]) / TIE; dd = rng.choice([2, 4, 6, 8]) / TIE; w = rng.choice(vocab)
                if rng.random() < .06 and n > 2:
                    br = [[R.w(rng.choice(vocab), t, dd)], [R.w(rng.choice(vocab), t, dd / 2), R.w(rng.choice(vocab), t + dd / 2, dd / 2)], []]
                    rng.shuffle(br)
                    ref.append(('alt', br[:rng.randint(2, 3)])); br0 = ref[-1][1]
                    src = rng.choice(br0)
                    hyp += [Hh.w(x[2], x[3], x[4]) for x in src]
                else:
                    ref.append(R.w(w, t, dd)); x = rng.random()
                    if x < .7: hyp.append(Hh.w(w, t, dd))
                    elif x < .8: hyp.append(Hh.w(rng.choice(vocab), t + rng.choice([0, 1, -1]) / TIE if t > 1 else t, dd))
                    elif x < .9: hyp += [Hh.w(w, t, dd / 2), Hh.w(rng.choice(vocab), t + dd / 2, dd / 2)]
                t += dd
            if not hyp: hyp = [Hh.w('a', t, .5)]
            hyp.sort(key=lambda w: w[3])
            rl += ctm_lines(f, ch, ref); hl += ctm_lines(f, ch, hyp); groups.append((f, ch, ref, hyp))
    open(d + '/r.ctm', 'w').write('\n'.join(noise(rng, rl)) + '\n'); open(d + '/h.ctm', 'w').write('\n'.join(noise(rng, hl)) + '\n')
    ctx.run([prog, '-r', 'r.ctm', 'ctm', '-h', 'h.ctm', 'ctm', '-O', '.', '-n', 'x', '-o', 'sgml', 'sum'] + (['-T'] if tm else []), cwd=d, timeout=120)
    files = ctx._files(d)
    P = {}
    for at, seg in parse(open(d + '/x.sgml', encoding='latin-1').read()): P.setdefault((at['file'], at['channel']), []).append((at, seg))
    for f, ch, ref, hyp in groups:
        got = sorted(P.pop((f, ch), []), key=lambda x: int(x[0]['sequence']))
        for k, (at, seg) in enumerate(got):
            if at['id'] != '(%s-%s-%04d)' % (f, ch, k): ctx.fail('chunk reported with the wrong identity', reported=at, files=files)
        G = [x for at, seg in got for x in seg]
        gh = [(x[2], x[3][1]) for x in G if x[2] and x[2] != '@']
        if gh != [(w[2], '%s+%s' % (fmt(w[3]), fmt(w[3] + w[4]))) for w in hyp]:
            ctx.fail('%s %s: hypothesis words scored differ from the word list' % (f, ch), got=gh[:60], expected=[(w[2], w[3], w[4]) for w in hyp][:60], files=files, time=tm)
        gr = [(x[1], x[3][0]) for x in G if x[1] and x[1] != '@']
        # match the reference against the alternations, item by item
        states = {0}
        for it in ref:
            ns = set()
            for s in states:
                for b in ([[it]] if it[0] == 'w' else it[1]):
                    e = [(w[2], '%s+%s' % (fmt(w[3]), fmt(w[3] + w[4]))) for w in b]
                    if gr[s:s + len(e)] == e: ns.add(s + len(e))
            states = ns
        if len(gr) not in states: ctx.fail('%s %s: reference words scored differ from the word list' % (f, ch), got=gr[:60], files=files, time=tm)
        c = time_cost if tm else word_cost
        if len(ref) <= 50 and len(hyp) <= 50 and len(got) == 1:
            try: opts = hyp_sequences(ref)
            except OverflowError: continue
            best = min(dp(o, hyp, c) for o in opts)
            tot = 0.0
            def W(t, x): a, b = x.split('+'); return ('w', 0, t, float(a), float(b) - float(a))
            for x in G:
                a = W(x[1], x[3][0]) if x[1] and x[1] != '@' else None; b = W(x[2], x[3][1]) if x[2] and x[2] != '@' else None
                if a or b: tot += c(a, b)
            if tot > best + .01 * (1 + len(G)) * .2 + 1e-6: ctx.fail('%s %s: alignment cost %g, minimum %g' % (f, ch, tot, best), files=files, got=G[:60], time=tm)
    if P: ctx.fail('chunks reported for a channel that does not exist', files=files)
    ctx.case((rl, hl, tm)); ctx.count('ctm pairs'); ctx.count('words', Hh.n)

def bounded(ctx):
    rng = ctx.rng
    prog = ctx.build.sclite_prog('sclite', san=True)
    for i in range(ctx.scale(160, 3000)): one_stm(ctx, prog, rng)
    for i in range(ctx.scale(90, 2000)): one_ctm(ctx, prog, rng)
    for b in [(205, 300), (410, 30), (4, 5003), (199, 4998)] + ([(700, 6500), (200, 6500), (201, 4999), (398, 5000)] if ctx.tier != 'quick' else []): one_stm(ctx, prog, rng, b)
    for n in [120, 400] + ([1500, 5200] if ctx.tier != 'quick' else []): one_ctm(ctx, prog, rng, n)
