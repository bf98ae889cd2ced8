"""Mechanical annotation of real C code for deductive verification with CBMC.

The verified text is the preprocessed text of the file in /repo with contract
annotations *inserted*: nothing is rewritten by hand.  For a loop with an
invariant the classical Hoare rule is spliced into the loop header:

    for (I; C; S) B   ==>  { I; ASSERT(inv); HAVOC(mod); ASSUME(inv);
                             for (; C; S, ASSERT(inv), ASSUME(0)) B }

so the back end sees exactly one arbitrary iteration plus the exit path.
The modified locals/globals are computed from clang's AST of the loop (not
supplied by hand); writes through pointers must be matched by the loop spec's
`writes` patterns and calls inside the loop by `calls`, otherwise the unit is
reported as not attached (never silently accepted).
"""
import json, os, re, subprocess

class Detached(Exception):
    """The annotations no longer attach to the source (renamed, restructured)."""

CLANG = 'clang'

def preprocess(path, defs=(), incs=()):
    cmd = ['gcc', '-E', '-P', '-D__NO_CTYPE=1', '-U__OPTIMIZE__'] + ['-D' + d for d in defs] + ['-I' + i for i in incs] + [path]
    r = subprocess.run(cmd, capture_output=True, encoding='latin-1')
    if r.returncode:
        raise Detached('preprocess %s: %s' % (path, r.stderr[-500:]))
    return r.stdout

def ast_functions(textpath, names):
    """name -> FunctionDecl JSON (with body)"""
    out = {}
    for n in names:
        r = subprocess.run([CLANG, '-x', 'c', '-std=gnu11', '-w', '-fsyntax-only', '-Xclang', '-ast-dump=json',
                            '-Xclang', '-ast-dump-filter=' + n, textpath], capture_output=True, encoding='latin-1')
        dec = json.JSONDecoder(); s = r.stdout; i = 0
        while i < len(s):
            while i < len(s) and s[i] in ' \n\r\t': i += 1
            if i >= len(s): break
            if s[i] != '{':
                j = s.find('\n', i)
                if j < 0: break
                i = j + 1; continue
            o, i = dec.raw_decode(s, i)
            if o.get('kind') == 'FunctionDecl' and o.get('name') == n and \
               any(c.get('kind') == 'CompoundStmt' for c in o.get('inner', [])):
                out[n] = o
        if n not in out:
            raise Detached('function %s not found in %s' % (n, os.path.basename(textpath)))
    return out

def _off(loc):
    if 'offset' in loc: return loc['offset']
    if 'expansionLoc' in loc: return loc['expansionLoc']['offset']
    return None

def rng(n):
    r = n['range']; b = _off(r['begin']); e = r['end']
    return b, _off(e) + e.get('tokLen', 1)

def walk(n):
    yield n
    for c in n.get('inner', []) or []:
        if isinstance(c, dict):
            yield from walk(c)

LOOPS = ('ForStmt', 'WhileStmt', 'DoStmt')

def loops_of(fn):
    return [n for n in walk(fn) if n.get('kind') in LOOPS]

def strip(n):
    while n.get('kind') in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr') and n.get('inner'):
        n = n['inner'][-1]
    return n

def base_var(n):
    """the DeclRefExpr written directly (not through a pointer), or None"""
    n = strip(n)
    k = n.get('kind')
    if k == 'DeclRefExpr': return n
    if k == 'MemberExpr' and not n.get('isArrow'): return base_var(n['inner'][0])
    if k == 'ArraySubscriptExpr':
        b = n['inner'][0]
        s = strip(b)
        if s.get('kind') == 'DeclRefExpr' and re.search(r'\[\d*\]', (s.get('type') or {}).get('qualType', '')):
            return s
    return None

def effects(loop, text):
    """(set of outer variables written, list of heap lvalue texts, set of callee names)"""
    declared = {d['id'] for d in walk(loop) if d.get('kind') == 'VarDecl'}
    vars_, heap, calls = {}, [], set()
    def write(lv):
        b = base_var(lv)
        if b is not None:
            d = b['referencedDecl']
            if d['id'] not in declared: vars_[d['id']] = d['name']
        else:
            s, e = rng(lv); heap.append(' '.join(text[s:e].split()))
    for n in walk(loop):
        k = n.get('kind')
        if k == 'BinaryOperator' and n.get('opcode') == '=': write(n['inner'][0])
        elif k == 'CompoundAssignOperator': write(n['inner'][0])
        elif k == 'UnaryOperator' and n.get('opcode') in ('++', '--'): write(n['inner'][0])
        elif k == 'UnaryOperator' and n.get('opcode') == '&':
            b = base_var(n['inner'][0])
            if b is not None and b['referencedDecl'].get('kind') in ('VarDecl', 'ParmVarDecl') and b['referencedDecl']['id'] not in declared:
                vars_[b['referencedDecl']['id']] = b['referencedDecl']['name']
        elif k == 'CallExpr':
            c = strip(n['inner'][0])
            calls.add(c['referencedDecl']['name'] if c.get('kind') == 'DeclRefExpr' else '<indirect>')
    return set(vars_.values()), heap, calls

def cstr(s):
    return '"' + s.replace('\\', '\\\\').replace('"', "'").replace('\n', ' ') + '"'

def splice(text, textpath, spec):
    """spec: {func: {'nloops': n, 'loops': {k: loopspec}, 'rename': newname}}"""
    fns = ast_functions(textpath, list(spec))
    edits = []          # (start, end, replacement)
    names = []
    for f, fs in spec.items():
        fn = fns[f]
        if fs.get('before'):
            b0 = rng(fn)[0]
            edits.append((b0, b0, fs['before'] + '\n'))
        if fs.get('rename'):
            o = _off(fn['loc'])
            assert text[o:o + len(f)] == f
            edits.append((o, o + len(f), fs['rename']))
        L = loops_of(fn)
        if 'nloops' in fs and len(L) != fs['nloops']:
            raise Detached('%s has %d loops, annotations expect %d' % (f, len(L), fs['nloops']))
        for k, ls in (fs.get('loops') or {}).items():
            if k >= len(L): raise Detached('%s has no loop %d' % (f, k))
            lp = L[k]
            mod, heap, calls = effects(lp, text)
            for h in heap:
                if not any(re.fullmatch(w, h) for w in ls.get('writes', [])):
                    raise Detached('%s loop %d writes %s, which its frame does not list' % (f, k, h))
            for c in calls:
                if c not in ls.get('calls', []) and not c.startswith('__CPROVER'):
                    raise Detached('%s loop %d calls %s, which its frame does not list' % (f, k, c))
            scope = ls.get('locals_only')
            invs = ls['inv']
            tag = '%s loop %d' % (f, k)
            ent = ' '.join('__CPROVER_assert((%s),%s);' % (i, cstr('%s: invariant on entry: %s' % (tag, i))) for i in invs)
            hav = ' '.join('__CPROVER_havoc_object(&%s);' % v for v in sorted(mod)) + ' ' + ' '.join(ls.get('havoc', []))
            asm = ' '.join('__CPROVER_assume(%s);' % i for i in invs) + ' ' + ' '.join('__CPROVER_assume(%s);' % i for i in ls.get('lemma', []))
            dec = ls.get('dec'); vd = ''
            decs = dec if isinstance(dec, (list, tuple)) else [dec] if dec else []      # several components: none grows, one shrinks
            for q, x in enumerate(decs): vd += ' long __variant_%d_%d = (long)(%s);' % (k, q, x)
            entry = ls.get('ghost_entry', '') + ent + hav + asm + vd
            st = list(ls.get('ghost_step', [])) + ['__CPROVER_assert((%s),%s)' % (i, cstr('%s: invariant preserved: %s' % (tag, i))) for i in invs]
            if dec:
                st.append('__CPROVER_assert(%s && (%s),%s)' % (' && '.join('__variant_%d_%d>=0 && (long)(%s)<=__variant_%d_%d' % (k, q, x, k, q) for q, x in enumerate(decs)),
                          ' || '.join('(long)(%s)<__variant_%d_%d' % (x, k, q) for q, x in enumerate(decs)), cstr('%s: variant decreases: %s' % (tag, ', '.join(decs)))))
            if not ls.get('noreach'): st.append('__CPROVER_assert(0,%s)' % cstr('REACH %s: an iteration completes' % tag))
            st.append('__CPROVER_assume(0)')
            step = ', '.join(st)
            b, e = rng(lp)
            kind = lp['kind']; inner = lp['inner']
            if kind == 'ForStmt':
                init, _, cond, inc, body = inner
                bs, be = rng(body)
                def txt(n):
                    if not n or not n.get('kind'): return ''
                    s, t = rng(n); return text[s:t]
                it = txt(init).rstrip(';')
                head = '{ %s; %s for (; %s; %s%s) ' % (it, entry, txt(cond), (txt(inc) + ', ') if txt(inc) else '', step)
                edits.append((b, bs, head))
                end = be
            elif kind == 'WhileStmt':
                cond, body = inner[-2], inner[-1]
                bs, be = rng(body); cs, ce = rng(cond)
                edits.append((b, bs, '{ %s for (; %s; %s) ' % (entry, text[cs:ce], step)))
                end = be
            else:
                body, cond = inner[0], inner[1]
                cs, ce = rng(cond)
                edits.append((b, b, '{ %s ' % entry))
                edits.append((cs, ce, '(%s) && (%s, 0)' % (text[cs:ce], step)))
                end = e
            # closing brace after the statement (include the ';' of an expression body)
            j = end
            while j < len(text) and text[j] in ' \t\n': j += 1
            if not text[end - 1] in '};':
                assert text[j] == ';', text[end-20:j+5]
                end = j + 1
            elif kind == 'DoStmt' and text[j:j+1] == ';':
                end = j + 1
            edits.append((end, end, ' }'))
    # apply from the end; stable for equal positions (inner loops first)
    for s, e, r in sorted(edits, key=lambda t: (t[0], t[1]), reverse=True):
        text = text[:s] + r + text[e:]
    return text
