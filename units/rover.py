"""rover.c / mfa.c: cutting the inputs at common silences, voting."""
BIG = 2000000
UNITS = []
UNITS.append(dict(name='gap_at_times', source='src/sclite/mfa.c', functions=['gap_at_times'], checks='mem', flags=['--sat-solver', 'cadical'], ghost='extern int W, gk; extern double GPB, GPE, MW, OVW; \n',
  assumptions=['times are finite numbers', 'overlap by contract: positive exactly when the two intervals overlap (unit overlap)'],
  loops={'gap_at_times': dict(nloops=1, loops={0: dict(inv=['i>=ctm->s && i<=end+1 && gk==i', '*mgap_beg==GPB && *mgap_end==GPE', '!(W>=ctm->s && W<i) || !(OVW>0)'],
      ghost_entry='gk=ctm->s;', havoc=['gk=i; if (i>=1 && i<=end) __CPROVER_assume((i!=W || ctm->word[i].t1+ctm->word[i].dur==MW) && ctm->word[i].t1+ctm->word[i].dur<1e9 && (i==end || ctm->word[i+1].t1<1e9));'],
      calls=['overlap'], writes=[r'\*mgap_\w+'], dec='end+1-i')})},
  harness=r"""
int W, gk, EN; double GPB, GPE, MW, OVW, LC, LD; WTOKE_STR1 *C;
double overlap(double a,double b,double c,double d){ PRE("the silence of the other systems is compared", a==GPB && b==GPE); PRE("with the silence after the word (begin)", gk!=W || c==MW); PRE("with the silence after the word (end)", d==(gk<EN ? C->word[gk+1].t1 : 9999999.9));
  double r=nondet_double(); REQ((r>0)==((a<c?c:a)<(b<d?b:d))); if (gk==W) OVW=r; gk++; LC=c; LD=d; return r; }
void harness(void){ WTOKE_STR1 c_; WTOKE_STR1 *ctm=&c_; C=ctm; long sz=nondet_long(); int n=nondet_int(), end=nondet_int(), s=nondet_int(); REQ(n>=0 && n<%d && sz==(long)n+2); c_.n=n; c_.word=malloc(sz*sizeof(WTOKE1)); REQ(c_.word!=0);
  REQ(s>=1 && end>=s-1 && end<=n); EN=end; c_.s=s; W=nondet_int(); REQ(W>=1 && W<=n); GPB=nondet_double(); GPE=nondet_double(); REQ(GPB>-1e7 && GPB<1e7 && GPE>-1e7 && GPE<1e7 && GPB<GPE);
  double b=GPB, e=GPE; int ms=nondet_int();
  int r=gap_at_times(ctm,end,&b,&e,&ms);
  ENS("yes or no", r==0 || r==1);
  if (s>end) ENS("a system without words left takes none and leaves the silence as it is", r==1 && ms==s-1 && b==GPB && e==GPE);
  else { if (r) { ENS("the chunk takes words of the channel only, in order", ms>=s && ms<=end && ms==gk-1);
    ENS("the silence becomes the common part: begin", b==(GPB<LC?LC:GPB)); ENS("the silence becomes the common part: end", e==(LD<GPE?LD:GPE)); ENS("it is not empty", b<e);
    ENS("the first overlapping silence is taken", !(W>=s && W<ms) || !(OVW>0)); REACH("found"); }
    else ENS("no means no word is followed by an overlapping silence", !(W>=s && W<=end) || !(OVW>0)); }
  REACH("end"); }""" % BIG))
UNITS.append(dict(name='find_common_silence', source='src/sclite/mfa.c', functions=['find_common_silence'], checks='mem', ghost='extern int W, NCTM, gn; extern int *S0;\n',
  assumptions=['gap_at_times by contract (unit gap_at_times)', 'the first system and one further, arbitrary system are represented; the others do not matter to either', 'times are not NaN', 'getenv returns no value (debugging output off)'],
  loops={'gap_at_times': {'rename': 'real_gap_at_times', 'before': 'int gap_at_times(WTOKE_STR1 *, int, double *, double *, int *);'},
   'find_common_silence': dict(nloops=3, loops={
    0: dict(inv=['sil_end[0]>=ctms[0]->s && (sil_end[0]<=ctm_end[0]+1 || sil_end[0]==ctms[0]->s)'], havoc=['__CPROVER_havoc_object(sil_end);'], calls=['gap_at_times', 'printf'], writes=[r'sil_end\[0\]', r'sil_end\[nc\]'], dec='ctm_end[0]+1-sil_end[0]'),
    1: dict(inv=['nc>=1 && nc<=nctm', 'failed==0||failed==1', 'failed || W>=nc || (sil_end[W]>=S0[W]-1 && sil_end[W]<=ctm_end[W])', 'sil_end[0]==__p0'], ghost_entry='int __p0=sil_end[0];', havoc=['__CPROVER_havoc_object(sil_end); sil_end[0]=__p0; if (nc>=1 && nc<nctm) { ctms[nc]=ctms[W]; ctms[nc]->s=S0[nc]; __CPROVER_assume(ctm_end[nc]>=S0[nc]-1); }'], calls=['gap_at_times', 'printf'], writes=[r'sil_end\[nc\]'], dec='nctm-nc'),
    2: dict(inv=['nc>=0 && nc<=nctm', 'more_data==0 || more_data==1', 'W>=nc || (sil_end[W]==ctm_end[W] && (more_data || S0[W]>ctm_end[W]))', '0>=nc || (sil_end[0]==ctm_end[0] && (more_data || S0[0]>ctm_end[0]))', 'more_data==0 || (gn>=0 && gn<nc && S0[gn]<=ctm_end[gn] && sil_end[gn]==ctm_end[gn])'],
       ghost_entry='gn=-1;', ghost_step=['gn = (more_data && gn<0) ? nc-1 : gn'], havoc=['__CPROVER_havoc_object(sil_end); gn=nondet_int(); __CPROVER_assume(gn<nctm && (gn>=0)==(more_data!=0)); if (nc>=1 && nc<nctm) { ctms[nc]=ctms[W]; ctms[nc]->s=S0[nc]; }'], calls=['printf'], writes=[r'sil_end\[nc\]'], dec='nctm-nc'),
   })},
  harness=r'''
int W, NCTM, gn=-1; int *S0; int *CE, *SE;
char *getenv(const char *n){ return 0; }
int gap_at_times(WTOKE_STR1 *c, int end, double *b, double *e, int *ms){ int k=(int)(ms-SE); PRE("asked for this system's own end", k>=1 && k<NCTM && end==CE[k] && c->s==S0[k]); *b=nondet_double(); *e=nondet_double();
  int r=nondet_bool(), v=nondet_int(); if (r || c->s>end) { REQ(v>=S0[k]-1 && v<=end); *ms=v; return 1; } return 0; }
void harness(void){ long N=nondet_long(); int nctm=nondet_int(); REQ(nctm>=2 && nctm<=1000 && N==(long)nctm); NCTM=nctm;
  WTOKE_STR1 a_, b_; WTOKE_STR1 **ctms=malloc(N*sizeof(WTOKE_STR1*)); S0=malloc(N*sizeof(int)); int *ctm_end=malloc(N*sizeof(int)), *sil_end=malloc(N*sizeof(int)); REQ(ctms && S0 && ctm_end && sil_end); CE=ctm_end; SE=sil_end;
  W=nondet_int(); REQ(W>=1 && W<nctm); ctms[0]=&a_; ctms[W]=&b_; a_.s=S0[0]; b_.s=S0[W];
  int n=nondet_int(); long sz=nondet_long(); REQ(n>=0 && n<2000000 && sz==(long)n+2); a_.n=n; a_.word=malloc(sz*sizeof(WTOKE1)); REQ(a_.word!=0);
  REQ(S0[0]>=1 && ctm_end[0]>=S0[0]-1 && ctm_end[0]<=n && S0[W]>=1 && S0[W]<2000000 && ctm_end[W]>=S0[W]-1 && ctm_end[W]<2000000);
  double sd=nondet_double(); REQ(sd>=0 && sd<1e6);
  int r=find_common_silence(ctms,nctm,ctm_end,sil_end,sd);
  ENS("yes or no", r==0 || r==1);
  if (r) { ENS("the chunk takes words of the first system's channel only, in order", sil_end[0]>=S0[0]-1 && sil_end[0]<=ctm_end[0]);
    ENS("the chunk takes words of every other system's channel only, in order", sil_end[W]>=S0[W]-1 && sil_end[W]<=ctm_end[W]); ENS("a chunk takes at least one word", sil_end[0]>=S0[0] || (gn>=0 && sil_end[gn]>=S0[gn])); REACH("chunk"); }
  else ENS("no chunk is left only when no system has words left", S0[0]>ctm_end[0] && S0[W]>ctm_end[W]);
  if (!r) REACH("done"); REACH("end"); }'''))
