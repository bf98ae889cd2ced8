from . import alignlib
UNITS = ['word:equal_WORD2,new_WORD,null_alt_opt_del,wwd_WORD', 'netdp:extract_NET_ALIGN_result']
RULE = 'transcript pairs through sclite (trn): all pairs over {a,b} up to length 3 (4 thorough), random with nested alternations, null words, fragments, optionally deletable words, long lines; nontrivial = reference and hypothesis differ and are non-empty'
BOUND = 'alternation expansions <= 400 pairs per utterance; lengths <= 260 words'
def bounded(ctx):
    alignlib.check(ctx, 'labels')
