from . import alignlib
UNITS = ['netdp:extract_NET_ALIGN_result,extract_NET_ALIGN_result_end,find_arcset_id', 'scores:PATH_append,PATH_alloc']
RULE = 'transcript pairs through sclite (trn): all pairs over {a,b} up to length 3 (4 thorough), random with nested alternations, null words, fragments, optionally deletable words, long lines; nontrivial = reference and hypothesis differ and are non-empty'
BOUND = 'alternation expansions <= 400 pairs per utterance; lengths <= 260 words'
def bounded(ctx):
    alignlib.check(ctx, 'content')
