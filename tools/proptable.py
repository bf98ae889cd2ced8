CB = 'contract proofs of the C functions discharged by CBMC (loops cut at invariants), plus a labelled bounded executable contract on the real program'
EXH = 'The tests align about a hundred stored transcripts with stored answers; the property ranges over every pair of transcripts and every option set.'
prop('C01', 'Alignment has minimum cost',
 'For every reference and hypothesis transcript, the word alignment sclite reports has the smallest possible total cost over all alignments of the two texts, where a correct word costs 0, a substitution 4, an insertion or deletion 3 (2 if the word is optionally deletable), and every alternation may take any one of its alternatives, the null alternative being free.',
 'all transcript pairs (any words, lengths, nested alternations, null words, fragments, optionally deletable words) and all matching options', EXH,
 F('net_dp.c', 'word.c', 'net_adt.c', 'align.c'), [('dynamic programme over two word networks', 'net_dp.c dpalign_n_networks'), ('cell recurrences', 'net_dp.c calc_minimum_insert/delete/substi'), ('word distance', 'word.c wwd_WORD')],
 observe=['sclite -o sgml', 'sclite -o pralign'], level='proof', technique=CB, note='cell recurrences, table filling, final cell choice and word distances are proved; network construction is covered by the bounded part')
prop('C02', 'Alignment reproduces both transcripts',
 'Reading the reference side of a reported alignment from left to right gives exactly the reference words in order (one alternative of every alternation, nulls omitted), and the hypothesis side gives exactly the hypothesis words in order; every utterance of the input is reported exactly once and no word is lost, invented, duplicated or reordered.',
 'all transcript pairs, all word lengths and line lengths, all matching options', EXH,
 F('net_dp.c', 'net_adt.c', 'path.c', 'text.c', 'align.c'), [('backtrace', 'net_dp.c extract_network_path'), ('network construction', 'net_adt.c'), ('path growth', 'path.c PATH_append')],
 observe=['sclite -o sgml'], level='proof', technique=CB, note='backtrace, path growth and word matching are proved; network construction and option decoding are covered by the bounded part')
prop('C03', 'Score reports agree with the alignments',
 'Every count and percentage printed in the summary, raw summary, weighted summary, per-speaker detail, per-sentence and alignment reports equals the value recomputed from the reported alignments: per-speaker and total correct/substituted/deleted/inserted words, sentence errors, mean, standard deviation and median over speakers, confusion pair, insertion, deletion and substitution lists.',
 'all sets of speakers and utterances, including speakers with no reference words, and all weightings', 'Stored outputs fix a few data sets; the totals must be right for every set of speakers and alignments.',
 F('scores.c', 'sc_dtl.c', 'path.c', 'alex.c', 'statdist.c', 'order.c'), [('accumulation of a path into speaker totals', 'scores.c add_PATH_score'), ('summary tables', 'scores.c print_system_summary'), ('detail report', 'sc_dtl.c'), ('mean/variance/median', 'statdist.c calc_mean_var_std_dev_Zstat')],
 observe=['sclite -o sum rsum wws dtl spk snt pralign'], level='proof', technique=CB, note='accumulation of counts from a path is proved; weights and the printed tables are covered by the bounded part')
prop('C04', 'Words are labelled by the declared matching rules',
 'A pair of aligned words is reported correct exactly when the words match under the selected rules: equal spelling (ignoring letter case unless case-sensitive scoring was requested), a word fragment matching any word that begins (or ends) with its letters only when fragment matching is on, and an optionally deletable word being correct when nothing is aligned with it only when that option is on. All other pairs are substitutions, unpaired reference words are deletions and unpaired hypothesis words are insertions.',
 'all word pairs and all combinations of the matching options', EXH,
 F('word.c', 'net_dp.c', 'text.c', 'align.c'), [('word comparison', 'word.c equal_WORD2, equal_WORD_wFrag'), ('decoding of options', 'word.c WORD_parse_alternate, decode_opt_del, decode_fragment'), ('labelling', 'net_dp.c extract_network_path, path.c')],
 observe=['sclite -o sgml'], level='proof', technique=CB, note='backtrace, path growth and word matching are proved; network construction and option decoding are covered by the bounded part')
prop('C07', 'A saved alignment reloads to the same results',
 'Writing an alignment in sgml form and loading it back yields the same scores and the same reports: every report produced from the reloaded alignment, and the alignment file written again, is identical to the one produced directly.',
 'all scored sets (times, confidences, labels, options, special characters in words other than the double quote)', 'Tests reload a few stored files; identity must hold for every content of the file.',
 F('scores.c', 'sgml.c', 'path.c', 'text.c'), [('writer', 'scores.c dump_SCORES_sgml'), ('reader', 'scores.c load_SCORES_sgml'), ('tag parser', 'sgml.c')],
 observe=['sclite -o sgml', 'sclite -P'], level='exploration', technique=CB, note='bounded')
prop('C05', 'Text is compared and split as whole characters of the encoding',
 'In every supported encoding (ASCII, extended ASCII, GB/EUC, UTF-8) and language profile, words are handled as sequences of whole characters: case-insensitive scoring folds exactly the letter pairs of the encoding and the selected language profile and leaves every other character unchanged, case-sensitive scoring changes nothing, and character scoring (-c, with NOASCII and DH) splits a word into exactly its characters in order. Two words are equal exactly when their (folded) character sequences are equal.',
 'all texts over all characters of all encodings and profiles', 'The tests use a handful of words per profile; the mapping must hold for every character and every word length.',
 F('text.c', 'align.c', 'word.c'), [('character size', 'text.c TEXT_nbytes_of_char'), ('code points', 'text.c TEXT_getUTFCodePoint, TEXT_UTFCodePointToTEXT'), ('case pairs', 'text.c getKnownUFTCaseCP, TEXT_str_to_master'), ('comparison', 'text.c TEXT_strcmp_master'), ('splitting', 'text.c TEXT_separate_chars, align.c expand_words_to_chars')],
 observe=['sclite -e ... -o sgml', 'sclite -c ... -o sgml'], level='proof', technique=CB, note='character sizes, code point coding, the case table of every profile, comparison, copying and single byte folding are proved for all inputs; multi byte folding of whole strings and character splitting are checked by the bounded part')
prop('C06', 'Lines and words of any length are read and printed unchanged',
 'Every line, word, alternation and identifier of an input file reaches scoring and the printed alignment unchanged whatever its length or position: nothing is truncated, split, merged, dropped or corrupted, and memory outside the buffers is neither read nor written. Runs of white space, blank lines, comment lines and a missing final newline make no difference, and the printed alignment shows every word for every line width.',
 'all line, word, alternation and identifier lengths, all white space layouts, all widths', 'Buffers grow at particular lengths; tests never reach most of those boundaries.',
 F('text.c', 'net_adt.c', 'align.c', 'path.c', 'fillmrks.c', 'stm.c', 'scores.c'), [('line reading', 'text.c TEXT_ensure_fgets'), ('tokens and alternatives', 'text.c find_next_TEXT_token, find_next_TEXT_alternation'), ('network construction', 'net_adt.c Network_create_from_TEXT'), ('alignment printing', 'path.c PATH_n_print')],
 observe=['sclite -o sgml pralign'], level='proof', technique=CB, note='line reading and tokenizing are proved for all lengths below 2,000,000 bytes; printing and identifiers are covered by the bounded part')
prop('C08', 'Every word of a time marked recording is scored once, in its own segment',
 'When a hypothesis word list (ctm) is scored against reference segments (stm), every hypothesis word of a recording and channel is scored exactly once, in the first segment whose end lies after the middle of the word (the last segment takes the rest), with its own times, confidence, speaker, recording, channel and label; words in an ignored segment, and words or segments outside the other file with -m, are left out; a recording or channel missing in the hypothesis is scored as deletions. Two word lists (ctm to ctm, up to two channels per recording, with or without time mediated alignment) are cut into chunks so that every word is scored exactly once, in order, and no reference alternation is split.',
 'all segment and word lists, any number of recordings, channels, speakers, segments and words, alternations, -m and -T', 'Stored data sets sample a few recordings; boundaries, buffer growth and missing channels must be right for all of them.',
 F('stm2ctm.c', 'ctm2ctm.c', 'fillmrks.c', 'stm.c', 'net_adt.c'), [('segment of a word', 'stm2ctm.c segment_hyp_for_utt'), ('channel boundaries', 'fillmrks.c locate_WTOKE_boundary, stm.c locate_STM_boundary'), ('chunks of two word lists', 'ctm2ctm.c chop_WTOKE_2'), ('reading and growing the tables', 'fillmrks.c fill_mark_struct, stm.c fill_STM')],
 observe=['sclite -r ... stm -h ... ctm -o sgml', 'sclite -r ... ctm -h ... ctm [-T] -o sgml'], level='proof', technique=CB, note='segmentation, channel boundaries and chunking (incl. termination) are proved for all well formed lists; reading the files and building the networks are covered by the bounded part')
prop('C09', 'rover keeps every input word and outputs the best voted word of every correspondence set',
 'rover combines any number (2 to 49) of word lists that cover the same recordings and channels in the same order (systems other than the first may end early) into correspondence sets with exactly one entry, a word or NULL, per system: every input word appears in exactly one set, in its order, with its own times and confidence; NULL entries carry the requested NULL confidence; each system is aligned to the ones before it at minimum cost between silences common to all systems. For meth1, avgconf and maxconf the output is, set by set, the word whose score alpha*(occurrences/systems)+(1-alpha)*confidence is highest (mean, share of the total, or maximum confidence), or nothing if NULL wins, with the mean begin time, duration and confidence of the systems that proposed it; oracle writes all different words of each set as alternatives. An input that goes on after the first system ends is reported as an error.',
 'all sets of word lists, times, confidences, alpha, NULL confidences and methods', 'The two stored rover tests sample one data set; silences, exhausted systems, missing confidences and ties between channels must be handled for all.',
 F('rover.c', 'mfa.c', 'net_dp.c', 'word.c'), [('cutting at common silences', 'mfa.c find_common_silence, gap_at_times'), ('aligning N systems', 'net_dp.c Network_dpalign_n_networks, create_alinged_NETWORK'), ('voting', 'rover.c print_linear')],
 observe=['rover -m putat|meth1|avgconf|maxconf|oracle'], level='proof', technique=CB, note='cutting at silences, the costs and the dynamic programme are proved; building the merged network and the vote are covered by the bounded part; meth1a and maxconfa are not covered (undocumented, or documented differently from what they do)')
prop('C12', 'rfilter1 rewrites text exactly as its rule file says',
 'For every rule file of the NIST1 format and every input text, rfilter1 scans each line from left to right: at each position the first rule in file order whose left-hand side, left context and right context match there (ignoring case unless the file asks for case sensitivity) is applied, its right-hand side is written and scanning goes on behind the matched text; where no rule matches the character is copied (or dropped, when the file says so). No rule is lost, no rule applies where its context does not match, lines stay separate, and neither the number of rules nor the length of the result is limited.',
 'all NIST1 rule files with rule lines below 130 bytes, spaces around "=>" and "/", and all input lines below 100,000 bytes', 'The tests use one rule file; the choice of the first matching rule, the contexts and the buffers must be right for every rule set and text.',
 ['src/rfilter1/rfilter1.c', 'src/rfilter1/include/aprules2.c', 'src/rfilter1/include/grules2.c'], [('application of the rules', 'aprules2.c apply_rules2'), ('reading and indexing the rules', 'grules2.c get_rules2')],
 observe=['rfilter1 RULES < TEXT'], level='proof', technique=CB, note='application of the rules to a line is proved for all lines and rule sets; reading and indexing the rule file is covered by the bounded part')
prop('C10', 'Paired significance tests report what the alignments give',
 'For every set of systems scored on the same speakers and utterances, the McNemar, sign, signed rank (Wilcoxon) and matched pairs (MAPSSWE) tests of sc_stats, in the verbose and the unified report, give for every pair of systems the outcome that the definition of the test gives on the reported alignments: utterances and speakers of the two systems are paired by their names whatever their order; ties share their mean rank; the two-tailed probability is the binomial one (sign, McNemar) or the normal one (Wilcoxon, MAPSSWE); a difference is reported exactly when it is significant at the 95% level, and in favour of the better system. Systems with equal or no errors are reported as not different.',
 'all sets of up to 12 systems, speakers, utterances and alignments', 'The stored reports cover one set of systems; ties, zero variance, the switch from exact to approximate probabilities and differing orders must be right for all.',
 F('sentmcn.c', 'signtest.c', 'wilcoxon.c', 'mtchprs.c', 'rank.c', 'order.c', 'statdist.c', 'sc_stats.c'), [('decisions', 'sentmcn.c do_McNemar, signtest.c sign_test_analysis, wilcoxon.c wilcoxon_test_analysis, mtchprs.c analyze_Z_score'), ('probabilities', 'statdist.c compute_acc_binomial, normprob'), ('ranks', 'order.c rank_double_arr, rank.c init_RANK_struct_from_SCORES'), ('segments', 'mtchprs.c test_comp_sents, count_seg, seg_count')],
 observe=['sc_stats -t mcn|sign|wilc|mapsswe [-v] [-u]'], level='proof', technique=CB, note='the table of the McNemar test, all decisions, the probabilities, ranks and segment counts are proved; cutting alignments into segments, mean and variance and the printed reports are covered by the bounded part; reference texts without alternations')
BX = 'executable contract (postcondition evaluated on the real program, address sanitizer), bounded and labelled so; no obligation is counted as proved'
AS = lambda *f: ['src/asclite/core/' + x for x in f]
prop('C13', 'asclite aligns every group of overlapping segments at minimum cost and labels it by the rules',
 'For every reference (stm) and hypothesis (ctm), in every group of overlapping reference segments the alignment asclite reports has the smallest possible total cost over all choices of alternatives and all ways of distributing the hypothesis words, in order, over the speakers (correct 0, substitution 4, insertion or deletion 3, 2 for an optional word on a side where -D applies); the reference side of each reported segment reads one choice of its alternatives, the hypothesis words of the group appear once each and in time order, and a word is labelled correct, substituted, deleted or inserted exactly as the case, fragment (-F) and optional word (-D) rules say.',
 'all sets of speakers, segments, alternations (not nested), words and the options -s, -F, -D', 'The stored tests fix a few recordings; overlap, alternations at either end of a segment and every option combination must be right for all.',
 AS('graph.cpp', 'levenshtein.cpp', 'segment.cpp', 'segmentsgroup.cpp', 'token.cpp', 'stt_scorer.cpp'), [('multi-dimensional search', 'graph.cpp Graph::GetBestAlignment'), ('transition costs', 'graph.cpp Graph::GetTransitionCostHypRefWordBased'), ('order of the tokens', 'segment.cpp Segment::ToTopologicalOrderedStruct'), ('word matching', 'token.cpp Token::IsEquivalentTo'), ('labels', 'stt_scorer.cpp STTScorer::Score')],
 observe=['asclite -r x.stm stm -h y.ctm ctm -o sgml'], level='exploration', technique=BX, note='C++ with the standard library: the search itself is out of reach of the verifier; bounded executable contract against an independent shortest path search')
prop('C14', 'Compressing the alignment matrix does not change the results of asclite',
 'For every matrix size, block size, memory limit and sequence of accesses, the compressed cost matrix answers every read with the last value written to that cell (or "not calculated"), exactly as the plain matrix does, however often its blocks are compressed and decompressed, and it never loops or fails; hence asclite prints the same reports with and without memory compression.',
 'all dimensions, block sizes, memory limits and access sequences', 'Tests run a handful of small matrices with default limits; the eviction of blocks depends on sizes, limits and the history of accesses.',
 AS('compressedlevenshteinmatrix.cpp', 'arraylevenshteinmatrix.cpp', 'recording.cpp'), [('state of a block', 'CompressedLevenshteinMatrix::CreateBlock, CompressBlock, DecompressBlock'), ('eviction', 'CompressedLevenshteinMatrix::ForcedGarbageCollection'), ('cell addressing', 'CompressedLevenshteinMatrix::CoordinatesToBlockOffset, BlockComputation')],
 observe=['asclite -force-memory-compression -memory-compression KB -memory-limit GB', 'CompressedLevenshteinMatrix GetCostFor/SetCostFor'], level='exploration', technique=BX, note='bounded executable contract on the two matrix classes and on whole runs')
prop('C15', 'asclite scores every word once, in its place, and its summaries agree with its alignments',
 'For every reference, hypothesis and set of evaluated windows (-uem), every hypothesis word inside the windows is reported exactly once, with its times: in an alignment of the group of reference segments that contains its middle, or as an insertion of the inter segment gap; words and segments outside the windows are not scored; every reference segment inside is reported once; and the summaries (sum, rsum) give for each speaker and in total exactly the counts of those alignments.',
 'all segmentations, words and disjoint windows whose borders lie between the groups of segments', 'The stored tests fix a few recordings; which group a word belongs to depends on times, overlap and windows.',
 AS('segmentor.cpp', 'ctmstmrttm_segmentor.cpp', 'uemfilter.cpp', 'speech.cpp', 'rawsys_reportgenerator.cpp', 'scoredspeaker.cpp', 'sgml_reportgenerator.cpp'), [('segment groups', 'ctmstmrttm_segmentor.cpp'), ('evaluated windows and gaps', 'uemfilter.cpp UEMFilter::ProcessSingleSpeech, ProcessSpeechSet'), ('summaries', 'rawsys_reportgenerator.cpp')],
 observe=['asclite -uem x.uem both -o sgml sum rsum'], level='exploration', technique=BX, note='C++ with the standard library: bounded executable contract against an independent account of words, groups and windows')
prop('C17', 'The Perl scoring pipeline filters every transcript as its global mapping file says',
 'For every reference and hypothesis transcript, hubscr.pl with csrfilt.sh/tranfilt applies every rule of the global mapping file to every transcript line, leaves times, speakers and identifiers unchanged and hands sclite or asclite exactly the filtered files.',
 'all transcripts and mapping files', 'The pipeline tests fix a few stored inputs.',
 ['src/hubscr/hubscr.pl', 'src/csrfilt/csrfilt.sh'], [('pipeline', 'hubscr.pl'), ('filter', 'csrfilt.sh')], observe=['hubscr.pl'],
 na='Perl and shell scripts: no deductive verifier for these languages is installed, and a rewritten version would be a model of the code; the rewriting engine in C (rfilter1) is under contract in C12')
