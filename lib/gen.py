"""Input generators shared by the bounded checks (all randomness from ctx.rng)."""
def word(rng, vocab): return rng.choice(vocab)

def alt_text(rng, vocab, n, p_alt=0.0, depth=0, null=True):
    toks = []
    for _ in range(n):
        if rng.random() < p_alt and depth < 2:
            k = rng.randint(2, 3); br = []
            for _ in range(k):
                if null and rng.random() < 0.25: br.append('@')
                else: br.append(alt_text(rng, vocab, rng.randint(1, 2), p_alt * 0.4, depth + 1, null))
            toks.append('{ ' + ' / '.join(br) + ' }')
        else: toks.append(word(rng, vocab))
    return ' '.join(toks)

def mutate(rng, toks, vocab, p=0.3):
    out = []
    for t in toks:
        x = rng.random()
        if x < p * 0.35: continue
        if x < p * 0.7: out.append(rng.choice(vocab)); continue
        out.append(t)
        if x < p: out.append(rng.choice(vocab))
    return out
