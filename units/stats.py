"""sc_stats: the decisions of the paired tests, their probabilities, ranks and segment counts."""
UNITS = []
D = '#define NO_DIFF 0\n#define TEST_DIFF 1\n'
CAB = D + r'''
/* contract of compute_acc_binomial: probability of at most r of n fair coin tosses; unit binomial */
double CABV; int CABN, CABM, TH; 
double compute_acc_binomial(int r, int n, double p){ PRE("fair coin tosses", p==0.5); PRE("the number of unique differences", n==CABN);
  if (r==CABM) return CABV; double d; REQ(!__CPROVER_isnand(d) && d>=0.0 && d<=1.0001); if (r>=n) REQ(d>=0.99); return d; }
void form_feed(FILE *fp){} int fprintf(FILE *f, const char *s, ...){ return 0; }
'''
VERB = dict(inv=['i>=0 && i<=num_a+num_b+1'], calls=['compute_acc_binomial', 'fprintf'], writes=[], dec='num_a+num_b+2-i')
UNITS.append(dict(name='McNemar_decision', source='src/sclite/sentmcn.c', functions=['do_McNemar', 'compute_McNemar'], checks='mem', timeout=200,
  assumptions=['compute_acc_binomial by contract (units binomial, binomial_normal)', 'below 1,000,000,000 utterances', 'fprintf writes no program state'],
  loops={'compute_McNemar': dict(nloops=2, loops={0: dict(inv=['i>=0'], calls=['compute_acc_binomial'], writes=[], dec='num_a+num_b-i'), 1: VERB})},
  harness=CAB + r'''
void harness(void){ int r0[2], r1[2], *t[2]; t[0]=r0; t[1]=r1; int a=r1[0], b=r0[1], v=nondet_int(); REQ(a>=0 && b>=0 && a<1000000000 && b<1000000000);
  CABN=a+b; CABM=a<b?a:b; double p; REQ(!__CPROVER_isnand(p) && p>=0.0 && p<=0.51); CABV=p; double c; char n1[2], n2[2];
  int r=do_McNemar(t,n1,n2,v,(FILE*)0,&c);
  ENS("the systems do not differ when each has as many utterances only it missed", a!=b || (r==NO_DIFF && c==1.0));
  ENS("the probability reported is that of the two-tailed binomial test", a==b || c==2.0*p);
  ENS("a difference exactly below the 5% level", a==b || (r!=NO_DIFF)==(2.0*p<0.05));
  ENS("the system with fewer utterances only it missed is the better one", a==b || r==NO_DIFF || (r==(a>b ? TEST_DIFF : -TEST_DIFF)));
  ENS("the table is not changed", r1[0]==a && r0[1]==b); if (a!=b && v) REACH("verbose"); if (r>0) REACH("second"); if (r<0) REACH("first"); REACH("end"); }'''))
UNITS.append(dict(name='sign_test_analysis', source='src/sclite/signtest.c', functions=['sign_test_analysis'], checks='mem', timeout=200,
  assumptions=['compute_acc_binomial by contract (units binomial, binomial_normal)', 'below 1,000,000,000 speakers', 'fprintf writes no program state'],
  loops={'sign_test_analysis': dict(nloops=1, loops={0: dict(inv=['i>=0'], calls=['compute_acc_binomial', 'fprintf'], writes=[], dec='num_a+num_b+1-i')})},
  harness=CAB + r'''
void harness(void){ int a=nondet_int(), b=nondet_int(), z=nondet_int(), v=nondet_int(), zb=nondet_bool(), tp[2]; REQ(a>=0 && b>=0 && z>=0 && a<1000000000 && b<1000000000 && z<500000000 && a+z<1000000000 && b+z<1000000000);
  int A=a+z/2, B=b+z-z/2; CABN=A+B; CABM=A<B?A:B; double p; REQ(!__CPROVER_isnand(p) && p>=0.0 && p<=0.51); CABV=p; double c; char s[2];
  int r=sign_test_analysis(a,b,z,s,s,0,0.05,v,s,s,tp,zb,(FILE*)0,&c);
  ENS("ties are shared between the two signs; the probability is that of the two-tailed binomial test", A==B ? c==1.0 : c==2.0*p);
  ENS("a difference exactly below the 5% level", (r!=NO_DIFF)==(c<0.05));
  ENS("direction follows the order of the two systems", r==NO_DIFF || r==(zb ? TEST_DIFF : -TEST_DIFF)); if (r!=NO_DIFF) REACH("differs"); if (v) REACH("verbose"); REACH("end"); }'''))
UNITS.append(dict(name='wilcoxon_test_analysis', flags=['--cvc5'], source='src/sclite/wilcoxon.c', functions=['wilcoxon_test_analysis'], checks='mem', timeout=300, unwind=11,
  extra=[dict(source='src/sclite/statdist.c', ghost='#define normprob real_normprob\n')],
  assumptions=['normprob by contract (unit normprob)', 'sqrt by contract (some function)', 'between 1 and 1,000,000 speakers', 'fprintf writes no program state'],
  harness=D + r'''
double ZS, NP, SQA, SQR; void form_feed(FILE *fp){} int fprintf(FILE *f, const char *s, ...){ return 0; }
double sqrt(double x){ SQA=x; SQR=nondet_double(); REQ(SQR>=0.5 && SQR<1e12); return SQR; }
double normprob(double z){ ZS=z; NP=nondet_double(); REQ(NP>=0.5 && NP<=1.0); return NP; }
void sort_int_arr(int *a, int n, int *p, int o){} void sort_double_arr(double *a, int n, int *p, int o){} void malloc_died(int n){}
void harness(void){ int a=nondet_int(), b=nondet_int(), v=nondet_int(), zb=nondet_bool(); REQ(a>=0 && b>=0 && a<=1000000 && b<=1000000 && a+b>=1); double sa=nondet_double(), sb=nondet_double(); REQ(sa>=0.0 && sa<1e13 && sb>=0.0 && sb<1e13); double c; char s[2];
  int r=wilcoxon_test_analysis(a,b,sa,sb,s,s,0.05,v,zb,&c,(FILE*)0);
  int n=a+b; 
  ENS("variance of the signed rank sum n(n+1)(2n+1)/24", SQA==(double)n*(double)(n+1)*(double)(2*n+1)/24.0);
  double W=(a<b)?sa:sb, E=((double)n*(double)(n+1)/4.0), t=(W-E)/SQR;
  ENS("statistic (W-E)/sd for the rank sum of the rarer sign", ZS==(t<0.0?-t:t));
  ENS("two-tailed normal probability", c==1.0-(2.0*(NP-0.50)));
  ENS("a difference exactly beyond the 95% interval", (r!=NO_DIFF)==(ZS>1.96));
  int firstbetter=(a>=b)!=zb; ENS("direction follows the counts of the two signs", r==NO_DIFF || r==(firstbetter ? -TEST_DIFF : TEST_DIFF)); if (r!=NO_DIFF) REACH("differs"); REACH("end"); }'''))
UNITS.append(dict(name='Z_decision', source='src/sclite/mtchprs.c', functions=['analyze_Z_score', 'Z_pass', 'print_Z_analysis'], checks='mem', timeout=100, unwind=12,
  extra=[dict(source='src/sclite/statdist.c')], assumptions=['printf writes no program state'],
  harness=D + r'''
void sort_int_arr(int *a, int n, int *p, int o){} void sort_double_arr(double *a, int n, int *p, int o){} void malloc_died(int n){}
void harness(void){ SCORES s1, s2; double m=nondet_double(), va, sd, z=nondet_double(); int v=nondet_bool(); REQ(z==z && m==m);
  int r=analyze_Z_score(&s1,&s2,m,va,sd,z,v);
  ENS("a difference exactly beyond the 95% interval", (r!=NO_DIFF)==(z>1.96 || z< -1.96));
  ENS("a negative mean difference favours the first system, a positive one the second", r==NO_DIFF || r==(m<0.0 ? -TEST_DIFF : TEST_DIFF)); if (r<0) REACH("first"); if (r>0) REACH("second"); REACH("end"); }'''))
UNITS.append(dict(name='normprob', source='src/sclite/statdist.c', functions=['normprob'], checks='mem', timeout=200,
  loops={'normprob': dict(nloops=1, loops={0: dict(inv=['i>=1 && i<=515', 'found==0 || found==1', 'zx>=0.0', 'found || zx>znorm[i-1] || (i==1 && zx>=znorm[0])', '!found || (ix>=0 && ix<514 && ix>=i-2 && ix<=i-1 && znorm[ix]<=zx && zx<znorm[ix+1]) || (ix==i-1 && znorm[ix]==zx)'], writes=[], calls=[], dec='515-i+(found?0:1)')})},
  harness=r'''
void sort_int_arr(int *a, int n, int *p, int o){} void sort_double_arr(double *a, int n, int *p, int o){} void malloc_died(int n){}
void harness(void){ double z=nondet_double(); REQ(z==z); int k=nondet_int(); REQ(k>=0 && k<515);
  double x=z<0.0?-z:z, p=normprob(z);
  __CPROVER_assert(znorm[0]==0.0 && Fnorm[0]==0.5, "ENS the table starts at 0");
  ENS("table sorted", k+1>=515 || (znorm[k]<znorm[k+1] && Fnorm[k]<=Fnorm[k+1]));
  ENS("the tabulated value at or next below z", !(znorm[k]<=x && (k==514 || x<znorm[k+1])) || p==Fnorm[k]);
  REACH("end"); }'''))
UNITS.append(dict(name='binomial', source='src/sclite/statdist.c', functions=['compute_acc_binomial', 'n_CHOOSE_r', 'seq_mult'], checks='none', timeout=200, unwind=23,
  assumptions=['pow(0.5,k) is exact (powers of two)', 'complete for the domain of this branch: n <= 20 fair coin tosses, every r (enumerated by symbolic execution, not sampled)'],
  harness=r'''
double pow(double b, double e){ double r=1.0; int k=(int)e; PRE("powers of one half", b==0.5 && k>=0 && k<=20); for (int i=0;i<k;i++) r*=0.5; return r; }
double fabs(double x){ return x<0.0?-x:x; }
void sort_int_arr(int *a, int n, int *p, int o){} void sort_double_arr(double *a, int n, int *p, int o){} void malloc_died(int n){}
void harness(void){ 
  for (int n=0;n<=20;n++) { long c=1, s=0; for (int r=0;r<=n;r++) { s+=c; double v=compute_acc_binomial(r,n,0.5), x=(double)s/(double)(1L<<n), d=v-x; 
    ENS("probability of at most r heads in n tosses", d<1e-9 && d>-1e-9); c=c*(n-r)/(r+1); } }
  REACH("end"); }'''))
UNITS.append(dict(name='binomial_normal', flags=['--cvc5'], source='src/sclite/statdist.c', functions=['compute_acc_binomial'], checks='mem', timeout=200,
  assumptions=['more than 20 and below 1,000,000 tosses', 'normprob by contract (unit normprob)', 'sqrt by contract (some function)'],
  loops={'normprob': dict(rename='real_normprob'), 'compute_acc_binomial': dict(nloops=1, loops={0: dict(inv=['0'], entry_unreachable=1, noreach=1, writes=[], calls=['n_CHOOSE_r', 'pow', 'printf'])})},
  harness=r'''
void sort_int_arr(int *a, int n, int *p, int o){} void sort_double_arr(double *a, int n, int *p, int o){} void malloc_died(int n){}
double ZS, NP, SQA, SQR; double sqrt(double x){ SQA=x; SQR=nondet_double(); REQ(SQR>=0.5 && SQR<1e12); return SQR; }
double fabs(double x){ return x<0.0?-x:x; }
double normprob(double z){ ZS=z; NP=nondet_double(); REQ(NP>=0.5 && NP<=1.0); return NP; }
void harness(void){ int n=nondet_int(), r=nondet_int(); REQ(n>20 && n<1000000 && r>=-1 && r<=n);
  double v=compute_acc_binomial(r,n,0.5);
  ENS("standard deviation of n fair tosses", SQA==n*0.5*(1.0-0.5));
  double z=((double)r+0.5-n*0.5)/SQR;
  ENS("normal deviate with continuity correction", ZS==(z<0.0?-z:z));
  ENS("lower tail", v==(z<0.0 ? 1.0-NP : NP)); REACH("end"); }'''))
UNITS.append(dict(name='seg_count', source='src/sclite/mtchprs.c', functions=['seg_count'], checks='mem', timeout=100, ghost='extern int *GE,*GR; extern int G0;\n',
  assumptions=['paths below 1,000,000 entries'],
  loops={'seg_count': dict(nloops=1, loops={0: dict(inv=['i>=from && i<=(to<from?from:to+1)', '*err==GE[i]-GE[from]', '*ref==GR[i]-GR[from]'], havoc=['*err=nondet_int(); *ref=nondet_int();'],
     lemma=['!(i>=0 && i<snt->num) || (GE[i+1]==GE[i]+(snt->pset[i].eval!=1) && GR[i+1]==GR[i]+(snt->pset[i].eval!=4) && GE[i]>=0 && GE[i]<=i && GR[i]>=0 && GR[i]<=i)'], writes=[r'\(?\*err\)?', r'\(?\*ref\)?'], calls=[], dec='to+1-i')})},
  harness=r'''
int *GE,*GR,G0;
void harness(void){ PATH p; long n=nondet_long(); int m=nondet_int(), f=nondet_int(), t=nondet_int(); REQ(m>=0 && m<1000000 && n==(long)m); p.num=m; p.pset=malloc(n*sizeof(PATH_SET)); GE=malloc((n+1)*sizeof(int)); GR=malloc((n+1)*sizeof(int)); REQ(p.pset && GE && GR && f>=0 && f<=m && t<m && t>=-1);
  REQ(GE[f]>=0 && GE[f]<=f && GR[f]>=0 && GR[f]<=f); int e, r; int h=t<f?f:t+1;
  seg_count(&p,f,t,&e,&r);
  ENS("errors of the segment: its words that are not correct", e==GE[h]-GE[f]); ENS("reference words of the segment: its words that are not insertions", r==GR[h]-GR[f]); REACH("end"); }'''))

SORT = "void sort_int_arr(int *a, int n, int *p, int o); void sort_double_arr(double *a, int n, int *p, int o);"
def rank(ty, fn):
    eq = lambda i, j: 'arr[ptr_arr[%s]]==arr[ptr_arr[%s]]' % (i, j)
    PERM = lambda i: '!((%s)>=0 && (%s)<num) || (ptr_arr[%s]>=0 && ptr_arr[%s]<num && ((%s)==K || ptr_arr[%s]!=ptr_arr[K]))' % ((i,) * 6)
    return dict(name=fn, source='src/sclite/order.c', functions=[fn], checks='mem', timeout=300, flags=['--sat-solver', 'cadical'], ghost='extern int K, LO, HI; extern long *GP;\n',
      assumptions=['sort_%s_arr by contract: the index array is a permutation that lists the values in order (units sort_arr, sort_compare; qsort itself trusted)' % ty, 'below 30,000 elements (sum of positions within int)', 'the statement is about one arbitrary position K of the sorted order and the block LO..HI of equal values around it', 'floating point division is a function: the mean position RV of the block is the value the expression of the code has for the sum and size of the block'],
      loops={'sort_%s_arr' % ty: dict(rename='real_sort_%s_arr' % ty), fn: dict(nloops=4, loops={
        0: dict(inv=['j>=0 && j<=num', 'j<=LO || j>HI', 'j<=HI || RK(rank_arr[ptr_arr[K]])'], havoc=['__CPROVER_havoc_object(rank_arr);'],
            lemma=[PERM('j'), PERM('j+1'), 'LO>=0 && LO<=K && K<=HI && HI<num', '!(j>=LO && j<HI && j+1<num) || (%s)' % eq('j', 'j+1'), '!(j==HI && j+1<num) || !(%s)' % eq('j', 'j+1'), '!(j==LO-1) || !(%s)' % eq('j', 'j+1')],
            writes=[r'rank_arr\[ptr_arr\[[ij]\]\]'], calls=[], dec='num-j'),
        1: dict(inv=['count>=j && count<num', 'j!=LO || count<=HI', 'j>=LO || count<LO', 'count<=j || (%s)' % eq('j', 'j+1')], 
            lemma=[PERM('count'), PERM('count+1'), '!(count>=LO && count<HI) || (%s)' % eq('count', 'count+1'), '!(count==HI && count+1<num) || !(%s)' % eq('count', 'count+1'), '!(count==LO-1) || !(%s)' % eq('count', 'count+1')], ghost_entry='', writes=[], calls=[], dec='num-count'),
        2: dict(inv=['i>=j && i<=count+1', 'tmp==(int)(GP[i]-GP[j])', 'tmp>=0 && tmp<=(i-j)*30000L'], lemma=['i<0 || i>=num || (GP[i+1]==GP[i]+i && GP[i]>=0 && GP[i]<=1000000000)'], writes=[], calls=[], dec='count+1-i'),
        3: dict(inv=['i>=j && i<=count+1', '(j>LO) || !(i>K) || j!=LO || RK(rank_arr[ptr_arr[K]])', 'j<=HI || RK(rank_arr[ptr_arr[K]])'], havoc=['__CPROVER_havoc_object(rank_arr);'], lemma=[PERM('i'), '!(tmp==(int)(GP[HI+1]-GP[LO]) && count+1-j==HI+1-LO) || (double)tmp/(double)(count+1-j) + 1.0==RV'], writes=[r'rank_arr\[ptr_arr\[i\]\]'], calls=[], dec='count+1-i'),
      }, before='extern double RV; int RK(double d);')},
      harness=r"""
int K, LO, HI; long *GP;
double RV; int RK(double d){ return d==RV; }
int ORD, SORTED; %(T)s *AR; int *PT;
void sort_%(t)s_arr(%(T)s *a, int n, int *p, int o){ PRE("the values are sorted in the order asked for", a==AR && p==PT && o==ORD); SORTED=1; }
void harness(void){ long n=nondet_long(); int num=nondet_int(); REQ(num>=1 && num<30000 && n==(long)num); %(T)s *arr=malloc(n*sizeof(*arr)); int *ptr_arr=malloc(n*sizeof(int)); double *rk=malloc(n*sizeof(double)); GP=malloc((n+1)*sizeof(long)); REQ(arr && ptr_arr && rk && GP); AR=arr; PT=ptr_arr; ORD=nondet_int();
  K=nondet_int(); LO=nondet_int(); HI=nondet_int(); REQ(LO>=0 && LO<=K && K<=HI && HI<num && ptr_arr[K]>=0 && ptr_arr[K]<num);
  REQ(GP[LO]>=0 && GP[LO]<=1000000000 && GP[HI+1]>=GP[LO] && GP[HI+1]<=1000000000); RV=nondet_double(); if (LO==HI) REQ(GP[HI+1]==GP[LO]+LO && RV==(double)(LO+1));
  SORTED=0; %(f)s(arr,num,ptr_arr,rk,ORD);
  ENS("sorted first", SORTED); ENS("the rank of a value is the mean position of the values equal to it", RK(rk[ptr_arr[K]])); REACH("end"); }""" % dict(T=ty, t=ty, f=fn))
UNITS += [rank('int', 'rank_int_arr'), rank('double', 'rank_double_arr')]
UNITS.append(dict(name='sort_compare', source='src/sclite/order.c', functions=['qsort_int_cmp', 'qsort_int_deccmp', 'qsort_int_compare', 'qsort_double_cmp', 'qsort_double_deccmp', 'qsort_double_compare', 'qsort_short_cmp', 'qsort_short_deccmp'], checks='mem', timeout=100,
  assumptions=['integers within +-1,000,000,000, numbers finite'],
  harness=r'''
int SG(int x){ return x<0?-1:x>0; } 
void harness(void){ int ia[2]; double da[2]; short sa[2]; int p=0,q=1; REQ(ia[0]>=-1000000000 && ia[0]<=1000000000 && ia[1]>=-1000000000 && ia[1]<=1000000000); REQ(da[0]>=-1e100 && da[0]<=1e100 && da[1]>=-1e100 && da[1]<=1e100);
  int_cmp_arr=ia; double_cmp_arr=da; short_cmp_arr=sa; int ei=ia[0]<ia[1]?-1:ia[0]>ia[1], ed=da[0]<da[1]?-1:da[0]>da[1], es=sa[0]<sa[1]?-1:sa[0]>sa[1];
  ENS("integers in increasing order", SG(qsort_int_cmp(&p,&q))==ei && SG(qsort_int_compare(&ia[0],&ia[1]))==ei); ENS("integers in decreasing order", SG(qsort_int_deccmp(&p,&q))==-ei);
  ENS("numbers in increasing order", SG(qsort_double_cmp(&p,&q))==ed && SG(qsort_double_compare(&da[0],&da[1]))==ed); ENS("numbers in decreasing order", SG(qsort_double_deccmp(&p,&q))==-ed);
  ENS("short integers in either order", SG(qsort_short_cmp(&p,&q))==es && SG(qsort_short_deccmp(&p,&q))==-es); REACH("end"); }'''))
def sorter(ty):
    return dict(name='sort_%s_arr' % ty, source='src/sclite/order.c', functions=['sort_%s_arr' % ty], checks='mem', timeout=100, ghost='extern int W;\n', assumptions=['qsort sorts by the comparison it is given (C library)'],
      loops={'sort_%s_arr' % ty: dict(nloops=1, loops={0: dict(inv=['j>=0 && j<=num', 'W>=j || ptr_arr[W]==W'], havoc=['__CPROVER_havoc_object(ptr_arr);'], writes=[r'ptr_arr\[j\]'], calls=[], dec='num-j')})},
      harness=r'''
int W, ORD, DONE, N; int *PT; %(T)s *AR;
void qsort(void *b, unsigned long n, unsigned long sz, int (*c)(const void*, const void*)){ PRE("the whole index array is sorted", b==(void*)PT && n==N && sz==sizeof(int)); PRE("every index is listed once", PT[W]==W); PRE("the values compared are those of the array", %(t)s_cmp_arr==AR);
  PRE("in the order asked for", c==(ORD==0 ? qsort_%(t)s_cmp : qsort_%(t)s_deccmp)); DONE=1; }
void harness(void){ long n=nondet_long(); int num=nondet_int(); REQ(num>=1 && num<100000000 && n==(long)num); int *p=malloc(n*sizeof(int)); %(T)s a[1]; REQ(p!=0); N=num; PT=p; AR=a; W=nondet_int(); REQ(W>=0 && W<num); ORD=nondet_bool() ? 0 : 1; DONE=0;
  sort_%(t)s_arr(a,num,p,ORD); ENS("sorted", DONE); REACH("end"); }''' % dict(T=ty, t=ty))
for ty in ('int', 'double', 'short'): UNITS.append(sorter(ty))

NE = lambda e, p, g: dict(inv=['%s==0' % e, 'nw>=0 && nw<=cp->num', 'cp==%s' % p, '%s[nw]==0' % g], havoc=['cp=%s;' % p], lemma=['!(nw<cp->num) || (%s[nw+1]==%s[nw]+(cp->pset[nw].eval!=1) && %s[nw+1]<=%s[cp->num])' % (g, g, g, g)], writes=[], calls=[], dec='cp->num-nw')
SNAP = 'T0=R0[0]; T1=R0[1]; T2=R1[0]; T3=R1[1];'
POS = 'R0[0]>=0 && R0[1]>=0 && R1[0]>=0 && R1[1]>=0 && R0[0]<100000000 && R0[1]<100000000 && R1[0]<100000000 && R1[1]<100000000'
HV = '__CPROVER_havoc_object(R0); __CPROVER_havoc_object(R1); __CPROVER_assume(%s);' % POS
NAMES = 'if (spk1>=0 && spk1<sys1->num_grp) { sys1->grp[spk1].name=N1; sys1->grp[spk1].path=PA1; __CPROVER_assume(sys1->grp[spk1].num_path<=NP); }'
NAME2 = 'if (spk2>=0 && spk2<sys2->num_grp) { sys2->grp[spk2].name=N2; sys2->grp[spk2].path=PA2; __CPROVER_assume(sys2->grp[spk2].num_path<=NP); }'
UNITS.append(dict(name='McNemar_table', source='src/sclite/sentmcn.c', functions=['do_McNemar_by_sent'], checks='mem', timeout=300, flags=['--sat-solver', 'cadical'], unwind=4,
  ghost='extern int SAME, T0, T1, T2, T3, NP; extern int *R0, *R1, *E1, *E2; extern char N1[1], N2[1];\n',
  assumptions=['strcmp by contract (equal or not)', 'paths below 1,000,000 entries, below 100,000,000 utterances', 'E1, E2: number of wrong words up to each position of the two alignments (ghost)', 'the allocation of the 2x2 table is unrolled', 'fprintf writes no program state'],
  loops={'do_McNemar': dict(rename='real_do_McNemar'), 'do_McNemar_by_sent': dict(nloops=9, before='extern PATH **PA1, **PA2, *P1, *P2;', loops={
   2: dict(inv=['spk1>=0 && (spk1<=sys1->num_grp || spk1==0)'], ghost_entry='R0=table[0]; R1=table[1];', havoc=[HV, NAMES], writes=[r'table\[e1\]\[e2\]'], calls=['strcmp', 'fprintf'], dec='sys1->num_grp-spk1'),
   3: dict(inv=['spk2>=0 && (spk2<=sys2->num_grp || spk2==0)'], havoc=[NAME2], writes=[], calls=['strcmp'], dec='sys2->num_grp-spk2'),
   4: dict(inv=['snt1>=0'], havoc=[HV, 'if (snt1>=0 && snt1<sys1->grp[spk1].num_path) PA1[snt1]=P1; __CPROVER_havoc_object(E1);'], writes=[r'table\[e1\]\[e2\]'], calls=['strcmp', 'fprintf'], dec='sys1->grp[spk1].num_path-snt1'),
   5: dict(inv=['snt2>=0'], havoc=[HV, 'if (snt2>=0 && snt2<sys2->grp[spk2].num_path) PA2[snt2]=P2; __CPROVER_havoc_object(E2); SAME=0; __CPROVER_assume(E1[0]==0 && E2[0]==0);', SNAP],
       ghost_step=['__CPROVER_assert(SAME ? (R0[0]-T0==(E1[P1->num]==0 && E2[P2->num]==0) && R0[1]-T1==(E1[P1->num]==0 && E2[P2->num]>0) && R1[0]-T2==(E1[P1->num]>0 && E2[P2->num]==0) && R1[1]-T3==(E1[P1->num]>0 && E2[P2->num]>0)) : (R0[0]==T0 && R0[1]==T1 && R1[0]==T2 && R1[1]==T3),"do_McNemar_by_sent: an utterance of both systems counts once, in the cell of the systems that have a word wrong in it")'],
       writes=[r'table\[e1\]\[e2\]'], calls=['strcmp'], dec='sys2->grp[spk2].num_path-snt2'),
   6: NE('e1', 'P1', 'E1'), 7: NE('e2', 'P2', 'E2')})},
  harness=r"""
int SAME, T0, T1, T2, T3, NP, *R0, *R1, *E1, *E2, CALLED; char N1[1], N2[1], I1[1], I2[1]; PATH **PA1, **PA2, *P1, *P2; extern int _msz_; int _msz_; void malloc_died(int n){ PRE("allocation succeeds", 0); }
int fprintf(FILE *f, const char *s, ...){ return 0; }
int strcmp(const char *a, const char *b){ int r=nondet_bool(); if (a==N1) { PRE("the speakers of the two systems are paired by name", b==N2); return r; } PRE("utterances are paired by their id", a==I1 && b==I2); SAME=!r; return r; }
double CF; int do_McNemar(int **t, char *a, char *b, int v, FILE *f, double *c){ PRE("the test is made on the counts of this table", t[0]==R0 && t[1]==R1); CALLED=1; *c=CF; return nondet_int(); }
void harness(void){ SCORES s1, s2; long g1=nondet_long(), g2=nondet_long(), n=nondet_long(), m1=nondet_long(), m2=nondet_long(); REQ(g1>=0 && g1<1000000 && g2>=0 && g2<1000000 && n>=1 && n<1000000 && m1>=0 && m1<1000000 && m2>=0 && m2<1000000);
  s1.num_grp=(int)g1; s2.num_grp=(int)g2; s1.grp=malloc((g1+1)*sizeof(GRP)); s2.grp=malloc((g2+1)*sizeof(GRP)); PA1=malloc(n*sizeof(PATH*)); PA2=malloc(n*sizeof(PATH*)); PATH p1, p2; P1=&p1; P2=&p2; p1.num=(int)m1; p2.num=(int)m2; p1.pset=malloc((m1+1)*sizeof(PATH_SET)); p2.pset=malloc((m2+1)*sizeof(PATH_SET)); E1=malloc((m1+2)*sizeof(int)); E2=malloc((m2+2)*sizeof(int)); REQ(s1.grp && s2.grp && PA1 && PA2 && p1.pset && p2.pset && E1 && E2);
  p1.id=I1; p2.id=I2; NP=(int)n; char ti[1]; s1.title=ti; s2.title=ti; CALLED=0; double c; CF=nondet_double();
  do_McNemar_by_sent(&s1,&s2,nondet_bool(),(FILE*)0,&c); ENS("the test decides", CALLED); REACH("end"); }"""))

# ---- the segment list of the matched pairs test
UNITS.append(dict(name='count_seg', source='src/sclite/mtchprs.c', functions=['count_seg'], checks='mem', timeout=200, flags=['--sat-solver', 'cadical'], ghost='extern int J;\n',
  assumptions=['seg_count by contract (unit seg_count)', 'below 10,000,000 segments', 'J: one arbitrary earlier segment', 'memcpy by contract'],
  loops={'seg_count': dict(rename='real_seg_count'), 'count_seg': dict(nloops=1, loops={0: dict(inv=['_l>=*num_seg', '_l<=*max_seg', '*max_seg==MX && *num_seg==NS', '(*seg_l)==NL', 'NL[J]==SJ', '_l<=NS || NL[NS]==FR'], havoc=['{ SEG *f=FR; __CPROVER_havoc_object(NL); __CPROVER_assume(NL[J]==SJ && (_l<=NS || NL[NS]==FR)); }'],
     ghost_entry='NL=*seg_l; MX=*max_seg;', ghost_step=['_l==NS+1 ? (void)(FR=NL[NS]) : (void)0'], writes=[r'.*\[_l\]'], calls=['malloc', 'malloc_died', 'fprintf', 'exit'], dec='*max_seg-_l')}, before='extern SEG **NL, *SJ, *FR; extern int MX, NS;')},
  harness=r"""
int J, MX, NS, NE_; SEG **NL, **OL_, *SJ, *FR; extern int _msz_; int _msz_; void malloc_died(int n){ PRE("allocation succeeds", 0); }
int fprintf(FILE *f, const char *s, ...){ return 0; } int printf(const char *s, ...){ return 0; } void PATH_n_print(PATH *p, FILE *f, int a, int b, int c){}
PATH *S1, *S2; int B1, B2, EE1, EE2, XA, XB, YA, YB;
void seg_count(PATH *p, int f, int t, int *e, int *r){ PRE("a segment of its own alignment, from its begin (or the first word)", (p==S1 && f==(B1<0?0:B1) && t==EE1) || (p==S2 && f==(B2<0?0:B2) && t==EE2)); if (p==S1) { *e=XA; *r=YA; } else { *e=XB; *r=YB; } }
void *memcpy(void *d, const void *s, unsigned long n){ PRE("all segments are copied", s==(void*)OL_ && n==NS*sizeof(SEG*) && n<=__CPROVER_OBJECT_SIZE(d)); ((SEG**)d)[J]=SJ; return d; }
void harness(void){ long mx=nondet_long(); int ns=nondet_int(), m=nondet_int(); REQ(m>=1 && m<10000000 && mx==(long)m && ns>=1 && ns<=m); SEG **l=malloc(mx*sizeof(SEG*)); REQ(l!=0); OL_=l; NS=ns; J=nondet_int(); REQ(J>=0 && J<ns); SJ=malloc(sizeof(SEG)); REQ(SJ!=0); l[J]=SJ; SEG sj=*SJ; FR=malloc(sizeof(SEG)); REQ(FR!=0); if (ns<m) l[ns]=FR;
  PATH p1, p2; S1=&p1; S2=&p2; B1=nondet_int(); B2=nondet_int(); EE1=nondet_int(); EE2=nondet_int(); XA=nondet_int(); XB=nondet_int(); YA=nondet_int(); YB=nondet_int(); REQ(XA>=0 && XB>=0 && YA>=0 && YB>=0 && XA<1000000000 && XB<1000000000 && YA<1000000000 && YB<1000000000);
  int num=ns, max=m; count_seg(S1,S2,B1,B2,EE1,EE2,&l,&num,&max,0);
  ENS("a segment without errors is not counted, any other is", num==ns+(XA!=0 || XB!=0)); ENS("room for it", num<=max && ns<max);
  ENS("its reference words and the errors of both systems", l[ns]->number_ref==(YA+YB)/2 && l[ns]->number_errors_for_hyp1==XA && l[ns]->number_errors_for_hyp2==XB);
  ENS("earlier segments stay", l[J]==SJ && SJ->number_ref==sj.number_ref && SJ->number_errors_for_hyp1==sj.number_errors_for_hyp1 && SJ->number_errors_for_hyp2==sj.number_errors_for_hyp2); if (ns==m) REACH("grown"); REACH("end"); }"""))
def mean(ty, fn):
    E = '(Z_list[i] - *mean) *  (Z_list[i] - *mean)'
    return dict(name=fn, source='src/sclite/statdist.c', functions=[fn], checks='none', timeout=300, flags=['--sat-solver', 'cadical'], ghost='extern double *GM, *GV, EM, EV;\n',
      assumptions=['sort_%s_arr by contract: the index array lists the values in order' % ty, 'sqrt is some function', 'floating point operations are functions: GM, GV are the partial sums in list order (of the values, of the squared distances to the mean), EM = GM[n]/n, EV = GV[n]/(n-1)', 'below 1,000,000 values', 'the Z statistic%s itself covered by the bounded part' % (' is' if ty == 'int' else ' and the median of an even number of values are')],
      loops={fn: dict(nloops=3, loops={
        0: dict(inv=['i>=0 && i<=num_Z', 'tmp==GM[i]'], lemma=['i>=num_Z || tmp+Z_list[i]==GM[i+1]', 'i!=num_Z || tmp/(double)num_Z==EM'], writes=[], calls=[], dec='num_Z-i'),
        1: dict(inv=['_ml>=0 && _ml<=num_Z'], havoc=['__CPROVER_havoc_object(ptr);'], writes=[r'\(?ptr\)?\[.*'], calls=[], dec='num_Z-_ml'),
        2: dict(inv=['i>=0 && i<=num_Z', 'tmp==GV[i]', '*mean==EM'], lemma=['i>=num_Z || *mean!=EM || tmp+ %s==GV[i+1]' % E, 'i!=num_Z || tmp / (double)(num_Z - 1)==EV'], writes=[], calls=[], dec='num_Z-i'),
      })}, harness=r'''
double *GM, *GV, EM, EV; extern int _msz_; int _msz_; %(T)s *ZL; int *PT, P0, P1, N; void malloc_died(int n){ PRE("allocation succeeds", 0); }
double SQ; double sqrt(double x){ return SQ; }
void sort_%(t)s_arr(%(T)s *a, int n, int *p, int o){ PRE("all values are sorted", a==ZL && n==N && o==0); PT=p; p[n/2]=P0; if (n%%2==0) p[n/2-1]=P1; }
%(other)s
void free(void *p){}
void harness(void){ int n=nondet_int(); long L=nondet_long(); REQ(n>=0 && n<1000000 && L==(long)n); N=n; %(T)s *z=malloc((L+1)*sizeof(*z)); GM=malloc((L+1)*sizeof(double)); GV=malloc((L+1)*sizeof(double)); REQ(z && GM && GV); REQ(GM[0]==0.0 && GV[0]==0.0); ZL=z; P0=nondet_int(); P1=nondet_int(); EM=nondet_double(); EV=nondet_double(); SQ=nondet_double(); REQ(SQ>=0.0); REQ(P0>=0 && P1>=0 && (P0<n || n==0) && (P1<n || n==0)); %(rng)s
  double me, va, sd, md, zs; %(f)s(z,n,&me,&va,&sd,&md,&zs);
  if (n==0) { ENS("no values: all 0", me==0.0 && va==0.0 && sd==0.0 && md==0.0 && zs==0.0); REACH("empty"); return; }
  ENS("mean", me==EM); 
  ENS("median of an odd number of values: the middle one", n%%2==0 || md==(double)z[P0]);
  %(med)s
  ENS("variance with n-1, deviation its root", GV[n]==0.0 || (va==EV && sd==SQ)); ENS("no spread: variance, deviation and statistic 0", GV[n]!=0.0 || (va==0.0 && sd==0.0 && zs==0.0));
  REACH("end"); }''' % dict(T=ty, t=ty, f=fn, med='ENS("median of an even number of values: half the sum of the middle two", n%2!=0 || md==(double)(z[P0]+z[P1])/2);' if ty == 'int' else '', rng='REQ(z[P0]>=-1000000000 && z[P0]<=1000000000 && z[P1]>=-1000000000 && z[P1]<=1000000000);' if ty == 'int' else 'REQ(z[P0]>=-1e6 && z[P0]<=1e6 && z[P1]>=-1e6 && z[P1]<=1e6);', other='void sort_%s_arr(%s *a, int n, int *p, int o){}' % (('double',) * 2 if ty == 'int' else ('int',) * 2)))
UNITS += [mean('int', 'calc_mean_var_std_dev_Zstat'), mean('double', 'calc_mean_var_std_dev_Zstat_double')]
