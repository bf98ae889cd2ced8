import os, re, math, statistics
from lib import scmodel as M, gen, report
UNITS = ['scores:add_PATH_score_counts,PATH_append', 'stats:calc_mean_var_std_dev_Zstat,calc_mean_var_std_dev_Zstat_double,sort_int_arr,sort_double_arr,sort_compare']
RULE = 'random speaker sets (including speakers with no reference words, all-correct, all-wrong) scored by sclite; every number of the sum/rsum/wws/pralign/snt/spk/dtl reports is recomputed from the alignment records; nontrivial = at least one error'
BOUND = 'up to 12 speakers, 40 utterances each'

def r1(x, p=1):
    return x

def close(got, want, p=1):
    return abs(got - want) <= 0.5 * 10 ** -p + 1.1e-6 + abs(want) * 1e-6

def stats(v):
    n = len(v)
    if n == 0: return 0, 0, 0
    mean = sum(v) / n
    sd = math.sqrt(sum((x - mean) ** 2 for x in v) / (n - 1)) if n > 1 and any(x != v[0] for x in v) else 0.0
    s = sorted(v)
    med = (s[n // 2] + s[n // 2 - 1]) / 2 if n % 2 == 0 else s[n // 2]
    return mean, sd, med

def pct(a, b): return 0.0 if b == 0 else 100.0 * a / b

def counts(seg):
    c = dict(C=0, S=0, D=0, I=0)
    for e, *_ in seg: c[e] += 1
    return c

class Spk:
    def __init__(s): s.utts = []; s.c = dict(C=0, S=0, D=0, I=0); s.serr = 0; s.w = dict(ref=0.0, C=0.0, S=0.0, D=0.0, I=0.0)

def table_for(spk, raw, weighted=False):
    """expected rows: per speaker, and sum / mean / sd / median"""
    rows = {}; cols = [[] for _ in range(8)]; zero = False
    tot = [0, 0] + [0.0] * 6; tref = 0
    for name, s in spk.items():
        c = s.c; nref = c['C'] + c['S'] + c['D']; ns = len(s.utts)
        if weighted: base = s.w['ref']; v = [s.w[k] for k in 'CSDI']
        else: base = nref; v = [c[k] for k in 'CSDI']
        err = v[1] + v[2] + v[3]
        row = [ns, nref] + v + [err, s.serr]
        for i, x in enumerate(row): tot[i] += x
        tref += base
        if not raw:
            if base: row = [ns, nref] + [pct(x, base) for x in v] + [pct(err, base), pct(s.serr, ns)]
            else: row = [ns, nref] + [c[k] for k in 'CSDI'] + [c['S'] + c['D'] + c['I'], pct(s.serr, ns)]
        rows[name] = row
        for i, x in enumerate(row):
            if not raw and nref == 0 and 2 <= i <= 6: zero = True; continue
            cols[i].append(x)
    if weighted:      # the shape of the known finding: weighted totals kept in whole numbers, truncated at every speaker
        tt = [0] * 5
        for s in spk.values():
            for i, k in enumerate(('C', 'S', 'D', 'I', 'ref')): tt[i] = int(tt[i] + s.w[k])
        table_for.trunc = tot[:2] + [pct(x, tt[4]) for x in tt[:4]] + [pct(tt[1] + tt[2] + tt[3], tt[4]), pct(tot[7], tot[0])]
    sm = tot if raw else tot[:2] + [pct(x, tref) for x in tot[2:7]] + [pct(tot[7], tot[0])]
    st = [stats(c) for c in cols]
    return rows, sm, [s[0] for s in st], [s[1] for s in st], [s[2] for s in st], zero

def check_table(ctx, what, txt, spk, raw, data, weighted=False):
    rows, sm, mean, sd, med, zero = table_for(spk, raw, weighted)
    got = {}
    for lab, nums, _ in report.table_rows(txt): got[lab] = nums
    p = 0 if raw else 1
    def cmp(lab, want, ps):
        if lab not in got: ctx.fail('%s report has no row for %s' % (what, lab), report=txt, **data)
        g = got[lab]
        if len(g) < 8: ctx.fail('%s report row %s is incomplete' % (what, lab), report=txt, **data)
        for i, (a, b, q) in enumerate(zip(g, want, ps)):
            if not close(a, b, q):
                ctx.fail('%s report, row %s, column %d: prints %s, the alignments give %.4f' % (what, lab, i, a, b), report=txt, **data)
        return True
    for n, row in rows.items():
        q = [0, 0] + [p] * 6
        if row[1] == 0 and not raw: q = [0, 0, 0, 0, 0, 0, 0, 1]
        cmp(n, row, q)
    lab = 'Sum' if raw else 'Sum/Avg'
    if weighted and lab in got and len(got[lab]) >= 8 and not all(close(a, b, q) for a, b, q in zip(got[lab], sm, [0, 0] + [1] * 6)) \
            and all(close(a, b, q) for a, b, q in zip(got[lab], table_for.trunc, [0, 0] + [1] * 6)):
        ctx.finding('wws-sum-truncated', 'wws report: the Sum/Avg row uses weighted totals truncated to whole numbers', report=txt, **data)
    else:
        cmp(lab, sm, [0, 0] + [p] * 6)
    cmp('Mean', mean, [1] * 8); cmp('S.D.', sd, [1] * 8); cmp('Median', med, [1] * 8)
    extra = set(got) - set(rows) - {'Sum', 'Sum/Avg', 'Mean', 'S.D.', 'Median', 'SPKR'}
    if extra: ctx.fail('%s report lists unknown speakers %s' % (what, sorted(extra)), report=txt, **data)

def check_dtl(ctx, what, txt, spk, data):
    """txt: one dtl report covering the speakers in spk"""
    c = dict(C=0, S=0, D=0, I=0); nu = serr = ws = wd = wi = na = 0
    lists = {k: {} for k in ('CONFUSION PAIRS', 'INSERTIONS', 'DELETIONS', 'SUBSTITUTIONS', 'FALSELY RECOGNIZED')}
    def add(k, w): lists[k][w] = lists[k].get(w, 0) + 1
    for s in spk.values():
        for k in c: c[k] += s.c[k]
        nu += len(s.utts); serr += s.serr
        for seg in s.utts:
            e = {x[0] for x in seg}; na += len(seg)
            ws += 'S' in e; wd += 'D' in e; wi += 'I' in e
            for ev, a, b, _ in seg:
                if ev == 'S': add('CONFUSION PAIRS', '%s ==> %s' % (a, b)); add('SUBSTITUTIONS', a); add('FALSELY RECOGNIZED', b)
                elif ev == 'I': add('INSERTIONS', b)
                elif ev == 'D': add('DELETIONS', a)
    nref = c['C'] + c['S'] + c['D']
    def line(rx, want_p, want_n, name):
        m = re.search(rx, txt)
        if not m: ctx.fail('%s report lacks the line %s' % (what, name), report=txt[:3000], **data)
        g = m.groups()
        if want_p is not None and g[0] not in ('UNDEF',) and not close(float(g[0]), want_p, 1):
            ctx.fail('%s report: %s prints %s%%, the alignments give %.3f%%' % (what, name, g[0], want_p), report=txt[:3000], **data)
        if want_n is not None and int(g[-1]) != want_n:
            ctx.fail('%s report: %s prints %s, the alignments give %d' % (what, name, g[-1], want_n), report=txt[:3000], **data)
    line(r' sentences\s+(\d+)', None, nu, 'sentences')
    F = r'\s+([\d.]+|UNDEF)%?\s+\(\s*(\d+)\)'
    line(r'with errors' + F, pct(serr, nu), serr, 'with errors')
    line(r'with substitutions' + F, pct(ws, nu), ws, 'with substitutions')
    line(r'with deletions' + F, pct(wd, nu), wd, 'with deletions')
    line(r'with insertions' + F, pct(wi, nu), wi, 'with insertions')
    F = r'\s*=\s*([\d.]+|UNDEF)%?\s+\(\s*(\d+)\)'
    if nref:
        e = c['S'] + c['D'] + c['I']
        line('Percent Total Error' + F, pct(e, nref), e, 'Percent Total Error')
        line('Percent Correct' + F, pct(c['C'], nref), c['C'], 'Percent Correct')
        line('Percent Substitution' + F, pct(c['S'], nref), c['S'], 'Percent Substitution')
        line('Percent Deletions' + F, pct(c['D'], nref), c['D'], 'Percent Deletions')
        line('Percent Insertions' + F, pct(c['I'], nref), c['I'], 'Percent Insertions')
        m = re.search(r'Percent Word Accuracy\s*=\s*(-?[\d.]+)%', txt)
        if m and not close(float(m.group(1)), 100 - pct(e, nref), 1):
            ctx.fail('%s report: word accuracy prints %s, expected %.3f' % (what, m.group(1), 100 - pct(e, nref)), report=txt[:3000], **data)
    line(r'Ref. words\s+=\s+\(\s*(\d+)\)', None, nref, 'Ref. words')
    line(r'Hyp. words\s+=\s+\(\s*(\d+)\)', None, c['C'] + c['S'] + c['I'], 'Hyp. words')
    line(r'Aligned words\s+=\s+\(\s*(\d+)\)', None, na, 'Aligned words')
    sec = report.dtl_sections(txt)
    for k, want in lists.items():
        if k not in sec: ctx.fail('%s report has no section %s' % (what, k), report=txt[:3000], **data)
        g = sec[k]
        if g['total'] != len(want) or g['nth'] != sum(v >= g['thresh'] for v in want.values()):
            ctx.fail('%s report, %s: total %d/%d, the alignments give %d' % (what, k, g['total'], g['nth'], len(want)), report=txt, **data)
        want = {w: n for w, n in want.items() if n >= g['thresh']}
        if g['items'] != want:
            ctx.fail('%s report, %s: listed %r, the alignments give %r' % (what, k, g['items'], want), report=txt, **data)
        if g['order'] != sorted(g['order'], key=lambda t: t[0]) or [t[1] for t in g['order']] != sorted((t[1] for t in g['order']), reverse=True):
            ctx.fail('%s report, %s: not ordered by decreasing count' % (what, k), report=txt, **data)
        if g['sum'] is not None and g['sum'] != sum(want.values()):
            ctx.fail('%s report, %s: sum %d, the alignments give %d' % (what, k, g['sum'], sum(want.values())), report=txt, **data)

def gen_set(rng, nspk, maxu, flags):
    voc = ['a', 'b', 'c', 'dd', 'ee', 'long-word-%d' % rng.randint(0, 9)]
    if '-D' in flags: voc += ['(a)', '(b)', '(uh)']
    if '-F' in flags: voc += ['d-', '-e', 'e-']
    us = []
    if nspk < 0:      # long speakers whose percentages hardly differ
        n = rng.choice([200, 500, 1000]); e = rng.randint(0, 20); w = [rng.choice(voc[:5]) for _ in range(n)]
        for s in range(-nspk):
            k = e + rng.randint(0, 2)
            h = ['zz' if i < k else x for i, x in enumerate(w)]
            for i in range(0, n, 50): us.append(('spk%02d' % s, ' '.join(w[i:i + 50]), ' '.join(h[i:i + 50])))
        return us
    for s in range(nspk):
        kind = rng.choice(['mixed'] * 4 + ['zero', 'perfect', 'wrong', 'mixed'])
        name = 'spk%02d' % s if rng.random() < .7 else 'x' * rng.randint(1, 14) + str(s)
        for u in range(rng.randint(1, maxu)):
            n = rng.randint(0, 9)
            if kind == 'zero': r = ''; h = ' '.join(rng.choice(voc) for _ in range(rng.randint(0, 3)))
            else:
                r = gen.alt_text(rng, voc, n, 0.08)
                rt = ' '.join(M.nonull(M.expansions(r)[-1]))
                if kind == 'perfect': h = rt
                elif kind == 'wrong': h = ' '.join('z%d' % rng.randint(0, 3) for _ in range(rng.randint(0, 5)))
                else: h = ' '.join(gen.mutate(rng, rt.split(), voc))
            us.append((name, r, h))
    rng.shuffle(us)
    return us

def bounded(ctx):
    rng = ctx.rng
    sclite = ctx.build.sclite_prog('sclite')
    flagsets = [[], ['-F'], ['-D'], ['-s'], ['-F', '-D']]
    for rnd in range(ctx.scale(250, 2500)):
        flags = flagsets[rnd % len(flagsets)] if rnd % 2 else []
        nspk = rng.choice([1, 1, 2, 3, 4, 5, 8, 12]) if rnd % 20 != 7 else -rng.choice([2, 3, 4])
        us = gen_set(rng, nspk, rng.choice([1, 3, 12, 40]), flags)
        d = ctx.dir()
        wl = None
        weighted = rnd % 3 == 0
        with open(d + '/r.trn', 'w') as fr, open(d + '/h.trn', 'w') as fh:
            for i, (n, r, h) in enumerate(us):
                fr.write('%s (%s_%d)\n' % (r, n, i)); fh.write('%s (%s_%d)\n' % (h, n, i))
        fl = list(flags)
        weights = None; dflt = 1.0
        if weighted:
            if rnd % 2: fl += ['-w', 'unity']
            else:
                words = sorted({w for _, r, h in us for w in (r + ' ' + h).split()})
                weights = {}
                dflt = rng.choice([0.5, 2.25, 7.0])
                with open(d + '/w.wwl', 'w') as f:
                    f.write(";; 'Headings' 'Word Spelling' 'W1'\n;; Default missing weight '%g'\n" % dflt)
                    for w in words:
                        w = w.lower()
                        if w in ('{', '}', '/', '@') or w in weights or w.startswith('('): continue
                        if rng.random() < 0.8:
                            weights[w] = rng.choice([0.25, 0.5, 1.5, 2.75, 3.0]); f.write('%s %g\n' % (w, weights[w]))
                fl += ['-w', 'w.wwl']
        outs = ['sgml', 'sum', 'rsum', 'pralign', 'dtl', 'spk', 'snt'] + (['wws'] if weighted else [])
        os.mkdir(d + '/o')
        ctx.run([sclite, '-r', 'r.trn', 'trn', '-h', 'h.trn', 'trn', '-i', 'spu_id', '-O', 'o', '-n', 'x', '-f', '0'] + fl + ['-o'] + outs, cwd=d)
        R = lambda ext: open(d + '/o/x.' + ext, encoding='latin-1').read()
        spk = {}
        cs = '-s' in flags
        for at, seg in M.parse_sgml(R('sgml')):
            m = re.match(r'\((.*)_(\d+)\)', at['id']); n = m.group(1)
            spk.setdefault(n, Spk()).utts.append(seg)
        for s in spk.values():
            for seg in s.utts:
                c = counts(seg)
                for k in c: s.c[k] += c[k]
                s.serr += (c['S'] + c['D'] + c['I']) > 0
                for e, a, b, rest in seg:
                    if weighted:
                        def wt(w):
                            if w in (None, '', '@'): return 0.0
                            if '-D' in flags and w.startswith('('): return 0.0
                            if weights is None: return 1.0
                            return weights.get(w.lower() if not cs else w, dflt)
                        if e == 'C': s.w['ref'] += wt(a); s.w['C'] += wt(b)
                        elif e == 'S': s.w['ref'] += wt(a); s.w['S'] += wt(a) + wt(b)
                        elif e == 'D': s.w['ref'] += wt(a); s.w['D'] += wt(a)
                        elif e == 'I': s.w['I'] += wt(b)
        data = dict(flags=fl, files={k: open(d + '/' + k).read() for k in os.listdir(d) if k != 'o'})
        nerr = sum(s.serr for s in spk.values())
        want = {}
        for n, r, h in us: want[n.lower() if not cs else n] = want.get(n.lower() if not cs else n, 0) + 1
        if {n: len(s.utts) for n, s in spk.items()} != want:
            ctx.fail('utterances per speaker differ from the input', got={n: len(s.utts) for n, s in spk.items()}, want=want, **data)
        ctx.case(('set', tuple(us), tuple(fl)), nontrivial=nerr > 0, n=len(us))
        if rnd < 2: ctx.sample(dict(flags=fl, speakers={n: s.c for n, s in spk.items()}))
        check_table(ctx, 'rsum', R('raw'), spk, True, data)
        check_table(ctx, 'sum', R('sys'), spk, False, data)
        if weighted: check_table(ctx, 'wws', R('wws'), spk, False, data, weighted=True)
        check_dtl(ctx, 'dtl', R('dtl'), spk, data)
        for n, s in spk.items(): check_dtl(ctx, 'spk', R('spk.' + n), {n: s}, data)
        # pralign and snt
        pra = R('pra')
        got = re.findall(r'^id: \((\S+)_(\d+)\)\nScores: \(#C #S #D #I\) (\d+) (\d+) (\d+) (\d+)', pra, re.M)
        exp = []
        for at, seg in M.parse_sgml(R('sgml')):
            c = counts(seg); exp.append((at['id'], c['C'], c['S'], c['D'], c['I']))
        if sorted(('(%s_%s)' % g[:2],) + tuple(map(int, g[2:])) for g in got) != sorted(exp):
            ctx.fail('pralign scores differ from the alignments', report=pra[:4000], **data)
        # pralign text rows carry the aligned words
        blocks = re.findall(r'^id: (\(\S+\))\nScores: [^\n]*\n(?:Attributes: [^\n]*\n)?REF: ([^\n]*)\nHYP: ([^\n]*)\n(?:R_WE[^\n]*\n|H_WE[^\n]*\n)*Eval:([^\n]*)\n', pra, re.M)
        byid = {at['id']: seg for at, seg in M.parse_sgml(R('sgml'))}
        for i_, rr, hh, ee in blocks:
            seg = byid[i_]
            def strip(t, side):
                ws = [w for w in t.split() if not re.fullmatch(r'\*+', w)]
                return [w.lower() for w in ws]
            wr = [x[1].lower() for x in seg if x[1]]; wh = [x[2].lower() for x in seg if x[2]]
            if '-s' in flags: pass
            if strip(rr, 0) != wr or strip(hh, 1) != wh:
                ctx.fail('pralign rows of %s do not carry the aligned words' % i_, ref=rr, hyp=hh, want=[list(x) for x in seg], **data)
            ev = ee.split()
            if ev != [x[0] for x in seg if x[0] != 'C']:
                ctx.fail('pralign Eval row of %s is %s' % (i_, ee), want=[list(x) for x in seg], **data)
        for n, s in spk.items():
            snt = R('snt.' + n)
            tot = dict(C=0, S=0, D=0, I=0)
            got = re.findall(r'^(Correct|Substitutions|Deletions|Insertions|Errors|Ref\. words|Hyp\. words|Aligned words)\s*=\s*(?:([\d.]+|UNDEF)%)?\s*(\d+)\s+\(\s*(\d+)\)', snt, re.M)
            it = iter(got); na = 0
            order = [re.search(r'\((\S+)_(\d+)\)', x).group(0) for x in re.findall(r'^id: (\S+)', snt, re.M)]
            for uid in order:
                seg = byid[uid]; c = counts(seg); na += len(seg)
                for k in tot: tot[k] += c[k]
                nref = c['C'] + c['S'] + c['D']
                exp = [('Correct', c['C'], tot['C']), ('Substitutions', c['S'], tot['S']), ('Deletions', c['D'], tot['D']), ('Insertions', c['I'], tot['I']),
                       ('Errors', c['S'] + c['D'] + c['I'], tot['S'] + tot['D'] + tot['I']), ('Ref. words', nref, tot['C'] + tot['S'] + tot['D']),
                       ('Hyp. words', c['C'] + c['S'] + c['I'], tot['C'] + tot['S'] + tot['I']), ('Aligned words', len(seg), na)]
                for lab, n1, n2 in exp:
                    g = next(it, None)
                    if g is None or g[0] != lab or int(g[2]) != n1 or int(g[3]) != n2 or (g[1] not in ('', 'UNDEF') and not close(float(g[1]), pct(n1, nref), 1)):
                        ctx.fail('snt report of %s: %s prints %s, the alignment gives %d (%d)' % (uid, lab, g, n1, n2), report=snt[:3000], **data)
