"""stm2ctm.c, ctm2ctm.c, fillmrks.c, stm.c: cutting recordings into channels, segments and chunks."""
UNITS = []
BIG = 2000000
# strings are abstracted by identity: equal strings have equal pointers
STR = r'''
int strcmp(const char *a, const char *b){ return a==b ? 0 : (nondet_bool()?1:-1); }
'''
G = 'extern int W, ST, N0; \n'
for name, src, struct, arr, cv, tn, last, nfld, lo in [
    ('locate_WTOKE_boundary', 'fillmrks.c', 'WTOKE_STR1', 'word', 'conv', 'turn', 'seg->n', 'n', 1),
    ('locate_boundary', 'fillmrks.c', 'WTOKE_STR1', 'word', 'conv', 'turn', 'seg->n', 'n', 1),
    ('locate_STM_boundary', 'stm.c', 'STM', 'seg', 'file', 'chan', 'stm->num-1', 'num', 0)]:
    stm = struct == 'STM'
    p = 'stm' if stm else 'seg'
    A = '%s->%s' % (p, arr)
    unset = '-1' if stm else '0'
    bf, bc = ('by_file', 'by_chan') if stm else ('by_conv', 'by_turn')
    same = lambda w: '((!%s || %s[%s].%s==%s[start].%s) && (!%s || %s[%s].%s==%s[start].%s))' % (bf, A, w, cv, A, cv, bc, A, w, tn, A, tn)
    inv = ['w>=start && (w==start || w<=(%s)+1)' % last, 'limit==%s || (limit==w-2 && limit>=start && !%s)' % (unset, same('w-1')),
           '!(W>=start && W<w && (limit==%s || W<=limit)) || %s' % (unset, same('W'))]
    KTYPE = 'TEXT *' if stm else 'char *'
    UNITS.append(dict(name=name, source='src/sclite/' + src, functions=[name], checks='mem', ghost=G,
      assumptions=['strings are represented by their identity (equal strings by equal pointers); strcmp/TEXT_strcmp by contract'],
      loops=dict({name: dict(nloops=1, loops={0: dict(inv=inv, calls=['strcmp', 'TEXT_strcmp'], writes=[], dec='(%s)+1-w' % last)})}),
      harness='int W, ST, N0;\n' + (STR if not stm else 'int TEXT_strcmp(TEXT *a, TEXT *b){ return a==b ? 0 : (nondet_bool()?1:-1); }\n') + r'''
void harness(void){ %s s_; %s *%s=&s_; long sz=nondet_long(); int n=nondet_int(), start=nondet_int(); REQ(n>=0 && n<%d && sz==(long)n+2);
  %s=malloc(sz*sizeof(*%s)); REQ(%s!=0); %s->%s=n; REQ(start>=%d && start<=n+1);
  int last=%s; W=nondet_int(); REQ(W>=0 && W<=n);
  int %s=nondet_bool(), %s=nondet_bool(), end;
  %s(%s,start,%s,%s,&end);
  if (start<=last) {
    ENS("the group starts at start and ends inside the table", end>=start && end<=%s);
    ENS("every member of the group belongs to the same recording and channel", !(W>=start && W<=end && W<=last) || %s);
    ENS("the next entry belongs to another recording or channel", end>=last || !%s); }
  else ENS("nothing left", end<=start);
  REACH("end"); }''' % (struct, struct, p, BIG, A, A, A, p, nfld, lo, last, bf, bc, name, p, bf, bc, p + '->' + nfld, same('W'), same('end+1'))))
# ---- overlap
UNITS.append(dict(name='overlap', source='src/sclite/ctm2ctm.c', functions=['overlap'], checks='mem', flags=['--cvc5'], assumptions=['times are finite numbers'], harness=r'''
void harness(void){ double a=nondet_double(),b=nondet_double(),c=nondet_double(),d=nondet_double();
  REQ(a>-1e7&&a<1e7&&b>-1e7&&b<1e7&&c>-1e7&&c<1e7&&d>-1e7&&d<1e7);
  double r=overlap(a,b,c,d);
  if (a<c) { if (b<d) ENS("end of the earlier ending minus begin of the later beginning (1)", r==b-c); else ENS("end of the earlier ending minus begin of the later beginning (2)", r==d-c); }
  else { if (b<d) ENS("end of the earlier ending minus begin of the later beginning (3)", r==b-a); else ENS("end of the earlier ending minus begin of the later beginning (4)", r==d-a); }
  REACH("end"); }'''))

# ---- segment_hyp_for_utt: K[p] 0 plain word, 1 <ALT_BEGIN>, 2 <ALT>, 3 <ALT_END>, 4 word inside an alternation; E[p] the next <ALT_END> at or after p
AL = r"""
int W, HE, *E, gs, C0; unsigned char *K; double MW; WTOKE_STR1 *HS; TEXT TAG[8];
int TEXT_strcasecmp(TEXT *a, TEXT *b){ PRE("compares with the end mark", a[0]=='<' && a[5]=='E'); return b==TAG+3 ? 0 : 1; }
int TEXT_strCcasecmp(TEXT *a, TEXT *b, int n){ PRE("compares with the mark prefix", n==4 && a[0]=='<' && a[3]=='T'); return b==TAG+1||b==TAG+2||b==TAG+3 ? 0 : 1; }
"""
AM = r"""
#define MID(p) (hyp_segs->word[p].t1 + hyp_segs->word[p].dur/2.0)
#define WF(p) { __CPROVER_assume(K[p]<=4); __CPROVER_assume(hyp_segs->word[p].sp==TAG+K[p] && (hyp_segs->word[p].alternate!=0)==(K[p]!=0)); if (K[p]!=0) __CPROVER_assume(E[p]>=(p) && E[p]<=HE && (E[p]==(p))==(K[p]==3)); }
#define MF(p) __CPROVER_assume(((p)!=W || MID(p)==MW) && MID(p)>-1e7 && MID(p)<1e7);
#define WN(p) { WF(p); if ((p)<HE) { WF((p)+1); __CPROVER_assume(K[p]==0||K[p]==3 ? K[(p)+1]==0||K[(p)+1]==1 : K[(p)+1]!=0 && K[(p)+1]!=1 && E[(p)+1]==E[p]); } }
extern int W, HE, *E, gs, C0; extern unsigned char *K, TAG[8]; extern double MW;
"""
UNITS.append(dict(name='segment_hyp_for_utt', source='src/sclite/stm2ctm.c', functions=['segment_hyp_for_utt'], checks='mem', ghost=AM, flags=['--sat-solver', 'cadical'], timeout=400,
  assumptions=['the word list is well formed: every <ALT_BEGIN> is followed by its <ALT_END> within the channel, alternations are not nested', 'comparison with the alternation marks by contract', 'times are finite'],
  loops={'segment_hyp_for_utt': dict(nloops=3, loops={
   0: dict(inv=['*curhend>=C0 && *curhend<=h_end', '*curhend==h_end || K[*curhend+1]==0 || K[*curhend+1]==1', '!(W>C0 && W<=*curhend && (K[W]==0 || K[W]==4)) || MW<stm->seg[rs].t2',
               'cont==0 || cont==1', 'cont || *curhend+1!=W || K[W]!=0 || MW>=stm->seg[rs].t2', 'cont || *curhend<h_end'],
     havoc=['__CPROVER_havoc_object(curhend); if (*curhend>=C0 && *curhend<=h_end) { if (*curhend<h_end) { WN(*curhend+1); MF(*curhend+1); } }'], writes=[r'\(?\*curhend\)?'], calls=['TEXT_strcasecmp', 'TEXT_strCcasecmp'], dec='2L*(h_end-*curhend)+cont'),
   1: dict(inv=['gs==*curhend+1 && ch>=gs && ch<=E[gs] && E[ch]==E[gs] && K[ch]!=0', '!(W>=gs && W<ch && (K[W]==0 || K[W]==4)) || mid>=MW', 'mid>=0 && mid<1e7'],
     ghost_entry='gs=*curhend+1;', havoc=['if (ch>=gs && ch<=E[gs]) { WN(ch); MF(ch); }'], writes=[], calls=['TEXT_strcasecmp', 'TEXT_strCcasecmp'], dec='E[gs]-ch'),
   2: dict(inv=['*curhend+1>=gs && *curhend+1<=E[gs] && E[*curhend+1]==E[gs] && K[*curhend+1]!=0'],
     ghost_entry='gs=*curhend+1;', havoc=['__CPROVER_havoc_object(curhend); if (*curhend+1>=gs && *curhend+1<=E[gs]) { WN(*curhend+1); if (E[gs]<HE) WN(E[gs]); }'], writes=[r'\(?\*curhend\)?'], calls=['TEXT_strcasecmp'], dec='E[gs]-*curhend'),
  })},
  harness=AL + r"""
void harness(void){ WTOKE_STR1 hs; WTOKE_STR1 *hyp_segs=&hs; STM st; STM *stm=&st; long sz=nondet_long(), m=nondet_long(); int h_end=nondet_int(), h_st=nondet_int(), n=nondet_int();
  REQ(n>=0 && n<%d && sz==(long)n+3 && h_st>=1 && h_end>=h_st-1 && h_end<=n); hs.n=n; HE=h_end;
  hs.word=malloc(sz*sizeof(WTOKE1)); K=malloc(sz); E=malloc(sz*sizeof(int)); REQ(hs.word && K && E);
  REQ(m>=1 && m<%d); st.seg=malloc(m*sizeof(STM_SEG)); REQ(st.seg!=0); st.num=m; int rs=nondet_int(), r_end=nondet_int(), r_st=nondet_int(); REQ(r_st>=0 && rs>=r_st && rs<=r_end && rs<m && r_end<=m);
  REQ(st.seg[rs].t2>-1e7 && st.seg[rs].t2<1e7);
  int ce=nondet_int(), cs=nondet_int(); REQ(ce>=h_st-1 && ce<=h_end); C0=ce; W=nondet_int(); REQ(W>=0 && W<=n);
  MW=nondet_double(); REQ(MW>-1e7 && MW<1e7); WF(W); if (ce<h_end) { WN(ce+1); REQ(K[ce+1]==0||K[ce+1]==1); } 
  int cs0=cs; segment_hyp_for_utt(hyp_segs,stm,&cs,&ce,h_st,h_end,rs,r_st,r_end);
  ENS("the first word of the segment is not moved", cs==cs0);
  ENS("the segment takes words in order and only words of the channel", ce>=C0 && ce<=h_end);
  if (rs==r_end || rs==m-1) ENS("the last segment takes all remaining words", ce==h_end);
  else { ENS("every word taken has its midpoint before the end of the segment", !(W>C0 && W<=ce && (K[W]==0||K[W]==4)) || MW<st.seg[rs].t2);
    ENS("no alternation is split", ce==h_end || K[ce+1]==0 || K[ce+1]==1);
    ENS("the next word has its midpoint at or after the end of the segment", ce==h_end || ce+1!=W || K[W]!=0 || MW>=st.seg[rs].t2); }
  REACH("end"); }""" % (BIG, BIG)))
# ---- chop_WTOKE_2
CI = 'Rend>=Rstart-1 && Rend<=Rendconv && Hend>=Hstart-1 && Hend<=Hendconv'
RA = 'Rend<Rstart || !ref->word[Rend].alternate'
CC = ['overlap', 'printf', 'dump_word_tokens2']
NN = '__CPROVER_assume(!(ref->word[Rend].t1!=ref->word[Rend].t1) && !(hyp->word[Hend].t1!=hyp->word[Hend].t1));'
NNG = 'if (' + CI + ') { ' + NN + ' }'
SK = 'skipped_alt==0||skipped_alt==1'
V3 = ['Rend-Rstart+1', 'Hend-Hstart+1', 'skipped_alt']
DN = 'Rend<=gR && Hend<=gH'
UNITS.append(dict(name='chop_WTOKE_2', source='src/sclite/ctm2ctm.c', functions=['chop_WTOKE_2'], checks='mem', timeout=500, flags=['--sat-solver','cadical'], ghost='int gR, gH;\n',
  assumptions=['times are not NaN', 'overlap by contract (its value is arbitrary here; unit overlap fixes it)'],
  loops={'overlap': {'rename': 'real_overlap', 'before': 'double overlap(double,double,double,double);'}, 'chop_WTOKE_2': dict(nloops=11, loops={
   0: dict(noreach=1, inv=[CI], calls=[], dec='Rend-Rstart+1'),
   1: dict(inv=[CI, RA, SK], calls=CC, dec=V3),
   2: dict(noreach=1, inv=[CI, RA, SK, DN, '!skipped_alt || Rend<gR'], ghost_entry='gR=Rend; gH=Hend;', calls=CC, dec='Rend-Rstart+1'),
   3: dict(noreach=1, inv=[CI, SK, DN, 'Rend<gR && Rend<=__pre3'], ghost_entry='int __pre3=Rend;', calls=[], dec='Rend-Rstart+1'),
   4: dict(noreach=1, inv=[CI, RA, 'Hend<=__pre4'], ghost_entry='int __pre4=Hend;', calls=CC, dec='Hend-Hstart+1'),
   5: dict(inv=[CI, RA], calls=CC, writes=[r'\*Rret_end', r'\*Hret_end'], havoc=[NNG], dec=V3[:2]),
   6: dict(inv=[CI, RA, SK, DN, '(skipped_alt && Rend==gR && Hend==gH) || Rend<gR || Hend<gH'], ghost_entry='gR=Rend; gH=Hend;', havoc=[NNG], calls=CC, dec=V3),
   7: dict(noreach=1, inv=[CI, SK, 'Rend<=__pre7'], ghost_entry='int __pre7=Rend;', calls=[], dec='Rend-Rstart+1'),
   8: dict(noreach=1, inv=[CI, RA, 'Hend<=__pre8'], ghost_entry='int __pre8=Hend;', calls=CC, dec='Hend-Hstart+1'),
   9: dict(noreach=1, inv=[CI, RA, SK, 'Rend<=__pre9 && (!skipped_alt || Rend<__pre9)'], ghost_entry='int __pre9=Rend;', calls=CC, dec='Rend-Rstart+1'),
   10: dict(noreach=1, inv=[CI, SK, 'Rend<=__pre10'], ghost_entry='int __pre10=Rend;', calls=[], dec='Rend-Rstart+1'),
  })},
  harness=r"""
double overlap(double a,double b,double c,double d){ return nondet_double(); }
void harness(void){ WTOKE_STR1 r_, h_; WTOKE_STR1 *ref=&r_, *hyp=&h_; long rz=nondet_long(), hz=nondet_long(); int rn=nondet_int(), hn=nondet_int();
  REQ(rn>=0 && rn<%d && hn>=0 && hn<%d && rz==(long)rn+1 && hz==(long)hn+1); r_.n=rn; h_.n=hn; r_.word=malloc(rz*sizeof(WTOKE1)); h_.word=malloc(hz*sizeof(WTOKE1)); REQ(r_.word && h_.word);
  int Rs=nondet_int(), Hs=nondet_int(), Re=nondet_int(), He=nondet_int(), mw=nondet_int(), R, H; REQ(Rs>=1 && Rs<=Re+1 && Re<=rn && Hs>=1 && Hs<=He+1 && He<=hn && mw>=1 && mw<=%d);
  int r=chop_WTOKE_2(ref,hyp,Rs,Hs,Re,He,mw,&R,&H);
  if (r) { ENS("the chunk ends inside the channel on both sides", R>=Rs-1 && R<=Re && H>=Hs-1 && H<=He);
    ENS("a chunk takes at least one word", R>=Rs || H>=Hs);
    ENS("no reference alternation is split", R==Re || R<Rs || !r_.word[R].alternate); }
  else ENS("a chunk as long as the channel is always found", (Rs>Re && Hs>He) || Re-Rs>=mw || He-Hs>=mw);
  REACH("end"); }""" % (BIG, BIG, 4*BIG)))
# the memory obligations and the termination obligations are discharged separately (together they take ten times as long)
import copy as _cp
_u = UNITS.pop()
_m = _cp.deepcopy(_u)
for _l in _m['loops']['chop_WTOKE_2']['loops'].values(): _l.pop('dec', None)
_u.update(name='chop_WTOKE_2_terminates', checks='none', flags=[])
UNITS += [_m, _u]
