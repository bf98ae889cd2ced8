from . import alignlib
UNITS = ['netdp:calc_minimum_insert,calc_minimum_delete,calc_minimum_substi,find_arcset_id,add_to_arcset,calculate_internal_cells,calculate_margin_cells,extract_NET_ALIGN_result_end,create_alinged_NETWORK_end', 'word:wwd_WORD,wwd_weight_WORD,wwd_time_WORD,wwd_WORD_rover']
RULE = 'transcript pairs through sclite (trn): all pairs over {a,b} up to length 3 (4 thorough), random with nested alternations, null words, fragments, optionally deletable words, long lines; nontrivial = reference and hypothesis differ and are non-empty'
BOUND = 'alternation expansions <= 400 pairs per utterance; lengths <= 260 words'
def bounded(ctx):
    alignlib.check(ctx, 'cost')
