"""net_dp.c: dynamic programme over two word networks."""
NET = r'''
#define STRIDE 65536
NET_ALIGN *NA; CELL *FLAT; ARC_LIST_ATOM *LA, *LB; int KA, KB; int ga, gb; int SA, SB; int *IDA, *IDB;
ARC *ARCA, *ARCB;
/* contract of find_arcset_id: the index of a predecessor arc (ghost IDA/IDB), which exists because arcsets are filled in topological order */
static int sel_id(ARCSET *s, ARC *arc, int from){
  int r = nondet_int();
  if (s == &NA->arcset_a) { PRE("predecessor looked up", ga>=0 && ga<KA && arc==LA[ga].arc); r = IDA[ga]; REQ(r>=0 && r<NA->arcset_a.num); }
  else { PRE("predecessor looked up (b)", s == &NA->arcset_b && gb>=0 && gb<KB && arc==LB[gb].arc); r = IDB[gb]; REQ(r>=0 && r<NA->arcset_b.num); }
  return r;
}
'''
SETUP = r'''
  NA = malloc(sizeof(NET_ALIGN)); REQ(NA!=0);
  int na=nondet_int(), nb=nondet_int(); REQ(na>=1 && na<=STRIDE && nb>=1 && nb<=STRIDE);
  NA->arcset_a.num=na; NA->arcset_b.num=nb; NA->arcset_a.max=na; NA->arcset_b.max=nb;
  NA->arcset_a.arcs=malloc(na*sizeof(ARC*)); NA->arcset_b.arcs=malloc(nb*sizeof(ARC*));
  long tot=nondet_long(); REQ(tot==(long)na*STRIDE); FLAT=malloc(tot*sizeof(CELL)); NA->cell=malloc(na*sizeof(CELL*));
  KA=nondet_int(); KB=nondet_int(); REQ(KA>=1 && KA<=STRIDE && KB>=1 && KB<=STRIDE);
  LA=malloc(KA*sizeof(ARC_LIST_ATOM)); LB=malloc(KB*sizeof(ARC_LIST_ATOM)); IDA=malloc(KA*sizeof(int)); IDB=malloc(KB*sizeof(int));
  REQ(NA->arcset_a.arcs && NA->arcset_b.arcs && FLAT && NA->cell && LA && LB && IDA && IDB);
  SA=nondet_int(); SB=nondet_int(); REQ(SA>=0 && SA<KA && SB>=0 && SB<KB);
  REQ(IDA[SA]>=0 && IDA[SA]<na && IDB[SB]>=0 && IDB[SB]<nb);
  ARCA=malloc(sizeof(ARC)); ARCB=malloc(sizeof(ARC)); NODE *na_=malloc(sizeof(NODE)), *nb_=malloc(sizeof(NODE)); REQ(ARCA&&ARCB&&na_&&nb_);
  na_->in_arcs=LA; nb_->in_arcs=LB; ARCA->from_node=na_; ARCB->from_node=nb_;
  int a=nondet_int(), b=nondet_int(); REQ(a>=0 && a<na && b>=0 && b<nb);
  NA->arcset_a.arcs[a]=ARCA; NA->arcset_b.arcs[b]=ARCB; db=0;
  float md; int ia, ib;
'''
NOTE = ['arc lists are laid out contiguously in the harness (the functions only follow ->next)', 'matrices of at most 65536 x 65536 cells (the real code refuses larger ones) and at most 65536 predecessors per arc',
        'find_arcset_id is represented by its contract (unit find_arcset_id)']
def F(x): return 'FLAT[(long)(%s)*STRIDE+(%s)].min_d' % x
BIG = '999999999.9f'
def lst(L, K, p, g): return '%s == (%s<%s ? &%s[%s] : (ARC_LIST_ATOM*)0) && %s>=0 && %s<=%s' % (p, g, K, L, g, g, g, K)
def nxt(L, K, p, g): return '%s = nondet_int(); __CPROVER_assume(%s>=0 && %s<=%s); %s = %s<%s ? &%s[%s] : (ARC_LIST_ATOM*)0; if (%s<%s) %s[%s].next = %s+1<%s ? &%s[%s+1] : (ARC_LIST_ATOM*)0;' % (g, g, g, K, p, g, K, L, g, g, K, L, g, g, K, L, g)
def row(i): return 'NA->cell[%s] = FLAT+(long)(%s)*STRIDE;' % (i, i)
import re as _re
REN = {'find_arcset_id': {'rename': 'real_find_arcset_id', 'before': 'int find_arcset_id(ARCSET *s, ARC *arc, int from);'}}
TAIL = '\nint find_arcset_id(ARCSET *s, ARC *arc, int from){ return sel_id(s,arc,from); }\n'
# NaN-free costs; every cell read by the loop is the one the contract talks about
def U(name, fn, loops, harness, **k):
    sp = dict(REN); sp[fn] = dict(nloops=len(loops), loops=loops)
    d = dict(name=name, source='src/sclite/net_dp.c', functions=[fn], loops=sp, harness=NET + TAIL + harness, checks='mem', assumptions=NOTE); d.update(k); return d
GH = 'struct ARC_LIST_ATOM1; struct NET_ALIGN_struct; struct CELL_struct; extern int ga, gb, KA, KB, SA, SB; extern int *IDA, *IDB; extern struct ARC_LIST_ATOM1 *LA, *LB; extern struct CELL_struct *FLAT; extern struct NET_ALIGN_struct *NA;\n#define STRIDE 65536\n'
def minsp(pd, cur, attained, g, S, K):
    return ['%s<=%s' % (pd, BIG), '!(%s<%s) || !(%s < %s)' % (S, g, cur, pd), attained]

CALLS = ['find_arcset_id', 'fprintf', 'printf', 'print_arc', 'exit']
HD = '__CPROVER_havoc_object(min_arc_d);'; HA = '__CPROVER_havoc_object(min_ind_a);'; HB = '__CPROVER_havoc_object(min_ind_b);'
def att(ia, ib, one):
    return '(%s==-1 && *min_arc_d==%s) || (%s>=0 && %s<NA->arcset_a.num && %s>=0 && %s<NA->arcset_b.num && *min_arc_d==%s)' % (one, BIG, ia, ia, ib, ib, F((ia, ib)))
RA = 'if (ga<KA) { __CPROVER_assume(IDA[ga]>=0 && IDA[ga]<NA->arcset_a.num); %s }' % row('IDA[ga]')
UNITS = [
U('calc_minimum_insert', 'calc_minimum_insert', {0: dict(
    inv=[lst('LB', 'KB', 'arcpb', 'gb'), '*min_arc_d<=' + BIG, '!(SB<gb) || !(%s < *min_arc_d)' % F(('a', 'IDB[SB]')), att('a', '*min_ind_b', '*min_ind_b')],
    havoc=[HD, HB, nxt('LB', 'KB', 'arcpb', 'gb')], ghost_entry='gb=0;', ghost_step=['gb++'],
    writes=[r'\*min_arc_d', r'\*min_ind_b'], calls=CALLS, dec='KB-gb')},
 r"""void harness(void){ %s %s
  calc_minimum_insert(NA,a,b,&md,&ib);
  ENS("no predecessor of b is cheaper", !(%s < md));
  ENS("the minimum is attained at the returned predecessor", (ib==-1 && md==%s) || (ib>=0 && ib<nb && md==%s));
  REACH("end"); }""" % (SETUP, row('a'), F(('a', 'IDB[SB]')), BIG, F(('a', 'ib'))), ghost=GH),
U('calc_minimum_delete', 'calc_minimum_delete', {0: dict(
    inv=[lst('LA', 'KA', 'arcpa', 'ga'), '*min_arc_d<=' + BIG, '!(SA<ga) || !(%s < *min_arc_d)' % F(('IDA[SA]', 'b')), att('*min_ind_a', 'b', '*min_ind_a')],
    havoc=[HD, HA, nxt('LA', 'KA', 'arcpa', 'ga'), RA], ghost_entry='ga=0;', ghost_step=['ga++'],
    writes=[r'\*min_arc_d', r'\*min_ind_a'], calls=CALLS, dec='KA-ga')},
 r"""void harness(void){ %s
  calc_minimum_delete(NA,a,b,&md,&ia);
  ENS("no predecessor of a is cheaper", !(%s < md));
  ENS("the minimum is attained at the returned predecessor", (ia==-1 && md==%s) || (ia>=0 && ia<na && md==%s));
  REACH("end"); }""" % (SETUP, F(('IDA[SA]', 'b')), BIG, F(('ia', 'b'))), ghost=GH),
U('calc_minimum_substi', 'calc_minimum_substi', {
  0: dict(inv=[lst('LA', 'KA', 'arcpa', 'ga'), '*min_arc_d<=' + BIG, '!(SA<ga) || !(%s < *min_arc_d)' % F(('IDA[SA]', 'IDB[SB]')), att('*min_ind_a', '*min_ind_b', '*min_ind_a')],
    havoc=[HD, HA, HB, nxt('LA', 'KA', 'arcpa', 'ga'), RA], ghost_entry='ga=0;', ghost_step=['ga++'],
    writes=[r'\*min_arc_d', r'\*min_ind_[ab]'], calls=CALLS, dec='KA-ga'),
  1: dict(inv=[lst('LB', 'KB', 'arcpb', 'gb'), 'ga>=0 && ga<KA && arcpa==&LA[ga] && arc_a_id==IDA[ga]', '*min_arc_d<=' + BIG,
               '!(SA<ga || (SA==ga && SB<gb)) || !(%s < *min_arc_d)' % F(('IDA[SA]', 'IDB[SB]')), att('*min_ind_a', '*min_ind_b', '*min_ind_a')],
    havoc=[HD, HA, HB, nxt('LB', 'KB', 'arcpb', 'gb')], ghost_entry='gb=0;', ghost_step=['gb++'],
    writes=[r'\*min_arc_d', r'\*min_ind_[ab]'], calls=CALLS, dec='KB-gb')},
 r"""void harness(void){ %s
  calc_minimum_substi(NA,a,b,&md,&ia,&ib);
  ENS("no pair of predecessors is cheaper", !(%s < md));
  ENS("the minimum is attained at the returned pair", (ia==-1 && md==%s) || (ia>=0 && ia<na && ib>=0 && ib<nb && md==%s));
  REACH("end"); }""" % (SETUP, F(('IDA[SA]', 'IDB[SB]')), BIG, F(('ia', 'ib'))), ghost=GH),
]

UNITS += [
dict(name='find_arcset_id', source='src/sclite/net_dp.c', functions=['find_arcset_id'], checks='mem',
 ghost='int SK;\n',
 loops={'find_arcset_id': dict(nloops=2, loops={
   0: dict(inv=['a>=-1 && a<=from && from>=0 && from<arcset->num', 'arclist == arcset->arcs + a', '!(SK>a && SK<=from) || arcset->arcs[SK]!=arc'],
           havoc=['a=nondet_int(); __CPROVER_assume(a>=-1 && a<=from); arclist = arcset->arcs + a;'], dec='a+1'),
   1: dict(inv=['a>=from+1 && a<=arcset->num'], calls=['fprintf'], dec='arcset->num-a')})},
 assumptions=['forming the pointer one before the first arc is treated as harmless (it is never dereferenced)'],
 harness=r'''void harness(void){ ARCSET s; int n=nondet_int(), from=nondet_int(); REQ(n>=1 && n<=65536 && from>=0 && from<=n); s.num=n; s.max=n; s.arcs=malloc(n*sizeof(ARC*)); REQ(s.arcs!=0);
  ARC *x = nondet_ptr(); SK=nondet_int(); REQ(SK>=0 && SK<n);
  int r = find_arcset_id(&s,x,from);
  ENS("a returned index designates the arc and is not past the given position", r==-1 || (r>=0 && r<n && r<=from && s.arcs[r]==x));
  ENS("minus one only if no arc up to the position is the one sought", r!=-1 || SK>from || s.arcs[SK]!=x);
  REACH("end"); }'''),
dict(name='add_to_arcset', source='src/sclite/net_dp.c', functions=['add_to_arcset'], checks='mem',
 harness=r'''void harness(void){ ARCSET s; int n=nondet_int(), m=nondet_int(); REQ(m>=1 && m<=65536 && n>=0 && n<m); s.num=n; s.max=m; s.arcs=malloc(m*sizeof(ARC*)); REQ(s.arcs!=0);
  ARC *x=nondet_ptr(); int k=nondet_int(); REQ(k>=0 && k<n); ARC *o=s.arcs[k]; add_to_arcset(x,&s);
  ENS("appended at the end, others unchanged", s.num==n+1 && s.arcs[n]==x && s.arcs[k]==o && s.max==m); REACH("end"); }'''),
]
CS = r'''
#define STRIDE 65536
NET_ALIGN *NA; NETWORK *NETA; CELL *ROWP, *ROWO; int PP, QQ; ARC *AP, *AQ, *OA, *OB; float GI, GD, GS, WI, WD, WS, XI, XD, XS; int JI, JD, JSA, JSB; int CALLS_I, CALLS_D, CALLS_S;
int cmpf(void *a, void *b){ return nondet_int(); }
static _Bool FIN(void){ CELL c = ROWP[QQ];
  if (PP==0) return c.min_d==XI && c.back_a==0 && c.back_b==(unsigned short)JI;
  if (QQ==0) return c.min_d==XD && c.back_a==(unsigned short)JD && c.back_b==0;
  return (c.min_d==XS && c.back_a==(unsigned short)JSA && c.back_b==(unsigned short)JSB && XS<=XD && XS<=XI)
      || (c.min_d==XD && c.back_a==(unsigned short)JD && c.back_b==(unsigned short)QQ && XD<=XS && XD<=XI)
      || (c.min_d==XI && c.back_a==(unsigned short)PP && c.back_b==(unsigned short)JI && XI<=XS && XI<=XD); }
static void need(NET_ALIGN *n, int a, int b){ PRE("called on the matrix", n==NA && a>=0 && a<NA->arcset_a.num && b>=0 && b<NA->arcset_b.num);
  PRE("every cell it looks back to is already final", !(PP<=a && QQ<=b && !(PP==a && QQ==b)) || FIN()); }
'''
CS2 = r'''
float wwdf(void *x, void *y, int (*c)(void *, void *)){ PRE("words compared with the network's equality", c==NETA->arc_func.equal); PRE("not two empty sides", x || y);
  if (x==AP->data && y==AQ->data) return WS; if (x==AP->data && !y) return WD; if (!x && y==AQ->data) return WI; return nondet_float(); }
void calc_minimum_insert(NET_ALIGN *n, int a, int b, float *d, int *i){ need(n,a,b); if (a==PP && b==QQ) { *d=GI; *i=JI; CALLS_I++; } else { *d=nondet_float(); *i=nondet_int(); } }
void calc_minimum_delete(NET_ALIGN *n, int a, int b, float *d, int *i){ need(n,a,b); if (a==PP && b==QQ) { *d=GD; *i=JD; CALLS_D++; } else { *d=nondet_float(); *i=nondet_int(); } }
void calc_minimum_substi(NET_ALIGN *n, int a, int b, float *d, int *i, int *j){ need(n,a,b); if (a==PP && b==QQ) { *d=GS; *i=JSA; *j=JSB; CALLS_S++; } else { *d=nondet_float(); *i=nondet_int(); *j=nondet_int(); } }
'''
SET2 = r'''
  NA = malloc(sizeof(NET_ALIGN)); NETA = malloc(sizeof(NETWORK)); REQ(NA!=0 && NETA!=0); NETA->arc_func.equal = cmpf; db=0;
  int na=nondet_int(), nb=nondet_int(); REQ(na>=1 && na<STRIDE && nb>=1 && nb<STRIDE);
  NA->arcset_a.num=na; NA->arcset_b.num=nb; NA->arcset_a.max=na; NA->arcset_b.max=nb;
  NA->arcset_a.arcs=malloc(na*sizeof(ARC*)); NA->arcset_b.arcs=malloc(nb*sizeof(ARC*));
  ROWP=malloc(nb*sizeof(CELL)); ROWO=malloc(nb*sizeof(CELL)); NA->cell=malloc(na*sizeof(CELL*));
  AP=malloc(sizeof(ARC)); AQ=malloc(sizeof(ARC)); OA=malloc(sizeof(ARC)); OB=malloc(sizeof(ARC)); 
  REQ(NA->arcset_a.arcs && NA->arcset_b.arcs && ROWP && ROWO && NA->cell && AP && AQ && OA && OB);
  AP->data=malloc(1); AQ->data=malloc(1); REQ(AP->data && AQ->data); OA->data=malloc(1); OB->data=malloc(1); REQ(OA->data && OB->data);
  PP=nondet_int(); QQ=nondet_int(); REQ(PP>=0 && PP<na && QQ>=0 && QQ<nb && (PP||QQ));
  JI=nondet_int(); JD=nondet_int(); JSA=nondet_int(); JSB=nondet_int(); REQ(JI>=0&&JI<nb&&JD>=0&&JD<na&&JSA>=0&&JSA<na&&JSB>=0&&JSB<nb);
  GI=nondet_float(); GD=nondet_float(); GS=nondet_float(); WI=nondet_float(); WD=nondet_float(); WS=nondet_float();
  REQ(GI>=0&&GI<=1e9f&&GD>=0&&GD<=1e9f&&GS>=0&&GS<=1e9f&&WI>=0&&WI<=1e6f&&WD>=0&&WD<=1e6f&&WS>=0&&WS<=1e6f);
  XI=GI+WI; XD=GD+WD; XS=GS+WS; CALLS_I=CALLS_D=CALLS_S=0;
'''
G2 = 'struct ARC1; struct NET_ALIGN_struct; struct CELL_struct; extern int PP, QQ; extern struct CELL_struct *ROWP, *ROWO; extern struct NET_ALIGN_struct *NA; extern struct ARC1 *AP,*AQ,*OA,*OB; static _Bool FIN(void);\n#define STRIDE 65536\n'
RENC = {f: {'rename': 'real_' + f} for f in ('calc_minimum_insert', 'calc_minimum_delete', 'calc_minimum_substi')}
def lay(av, bv): return '%s if ((%s)>=0 && (%s)<NA->arcset_a.num) { NA->cell[%s] = (%s)==PP ? ROWP : ROWO; NA->arcset_a.arcs[%s] = %s==PP ? AP : OA; } if ((%s)>=0 && (%s)<NA->arcset_b.num) NA->arcset_b.arcs[%s] = %s==QQ ? AQ : OB;' % ('', av, av, av, av, av, av, bv, bv, bv, bv)
CL = ['calc_minimum_insert', 'calc_minimum_delete', 'calc_minimum_substi', '<indirect>', 'wwd', 'printf', 'print_arc']
HF = '__CPROVER_havoc_object(ROWP); __CPROVER_havoc_object(ROWO);'
CW = [r'net_ali->cell\[\w+\]\[\w+\]\.\w+']
CA = ['calc_minimum_insert/delete/substi and find_arcset_id are represented by their contracts', 'costs are between 0 and 1e9 and not NaN', 'the words of the two networks are distinct objects',
      'at most 65535 arcs per network (larger inputs are refused by alloc_NET_ALIGN)']
UNITS += [
dict(name='calculate_internal_cells', source='src/sclite/net_dp.c', functions=['calculate_internal_cells'], checks='mem', ghost=G2, assumptions=CA, flags=['--sat-solver', 'cadical'], timeout=400,
 loops=dict(RENC, calculate_internal_cells=dict(nloops=2, loops={
  0: dict(inv=['a>=1 && (a<=NA->arcset_a.num || (a==1 && NA->arcset_a.num==0))', '!(PP==0 || QQ==0 || PP<a) || FIN()'], havoc=[HF], writes=CW, calls=CL, dec='NA->arcset_a.num-a'),
  1: dict(inv=['b>=1 && b<=NA->arcset_b.num && a>=1 && a<NA->arcset_a.num', '!(PP==0 || QQ==0 || PP<a || (PP==a && QQ<b)) || FIN()'], havoc=[HF, lay('a', 'b')], writes=CW, calls=CL, dec='NA->arcset_b.num-b')})),
 harness=CS + CS2 + r'''void harness(void){ %s if (PP==0||QQ==0) REQ(FIN());
  calculate_internal_cells(NA,NETA,NETA,wwdf);
  ENS("every cell holds the cheapest of substitution, deletion and insertion, and points back to it", FIN());
  REACH("end"); }''' % SET2),
dict(name='calculate_margin_cells', source='src/sclite/net_dp.c', functions=['calculate_margin_cells'], checks='mem', ghost=G2, assumptions=CA, flags=[], timeout=400,
 loops=dict(RENC, calculate_margin_cells=dict(nloops=2, loops={
  0: dict(inv=['b>=1 && b<=NA->arcset_b.num', '!(PP==0 && QQ<b) || FIN()'], havoc=[HF, lay('0', 'b')], writes=CW, calls=CL, dec='NA->arcset_b.num-b'),
  1: dict(inv=['a>=1 && a<=NA->arcset_a.num', '!(PP==0) || FIN()', '!(QQ==0 && PP<a) || FIN()'], havoc=[HF, lay('a', '0')], writes=CW, calls=CL, dec='NA->arcset_a.num-a')})),
 harness=CS.replace('!(PP<=a && QQ<=b', '!((PP==0||QQ==0) && PP<=a && QQ<=b') + CS2 + r'''void harness(void){ %s NA->cell[0]= PP==0 ? ROWP : ROWO;
  calculate_margin_cells(NA,NETA,NETA,wwdf);
  ENS("the first row inserts, the first column deletes, at the cheapest predecessor", !(PP==0||QQ==0) || FIN());
  REACH("end"); }''' % SET2),
]

# ---- back trace
def term(F_, pre):   # search for the cheapest end cell (loops 0 and 1), shared by extract_NET_ALIGN_result and create_alinged_NETWORK
    at = '((a==-1 && b==-1 && min_arc_d==999999.9f) || (a>=0 && a<NA->arcset_a.num && b>=0 && b<NA->arcset_b.num && min_arc_d==%s))' % F(('a', 'b'))
    return {0: dict(inv=[lst('LA', 'KA', 'arcpa', 'ga'), 'min_arc_d<=999999.9f', '!(SA<ga) || !(%s < min_arc_d)' % F(('IDA[SA]', 'IDB[SB]')), at],
                    havoc=[nxt('LA', 'KA', 'arcpa', 'ga'), RA], ghost_entry='ga=0;', ghost_step=['ga++'], calls=CALLS, dec='KA-ga'),
            1: dict(inv=[lst('LB', 'KB', 'arcpb', 'gb'), 'ga>=0 && ga<KA && arcpa==&LA[ga] && arc_a_id==IDA[ga]', 'min_arc_d<=999999.9f',
                         '!(SA<ga || (SA==ga && SB<gb)) || !(%s < min_arc_d)' % F(('IDA[SA]', 'IDB[SB]')), at],
                    havoc=[nxt('LB', 'KB', 'arcpb', 'gb')], ghost_entry='gb=0;', ghost_step=['gb++'], calls=CALLS, dec='KB-gb')}
ENDCHK = '''ENS("no end cell is cheaper than the chosen one", !(%s < min_arc_d)); ENS("the chosen end cell is one of the last arcs", a>=0 && b>=0 && min_arc_d==%s); REACH("end cell chosen"); __CPROVER_assume(0);''' % (F(('IDA[SA]', 'IDB[SB]')), F(('a', 'b')))
def endunit(fn, nl, first):
    lp = term(fn, '')
    lp[first] = dict(inv=['1'], noreach=True, ghost_entry=ENDCHK, calls=['<indirect>', 'printf', 'is_null_alt', 'print_arc', 'print_node', 'NETWORK_insert_arc_between_node', 'NETWORK_insert_arc_before_node', 'PATH_alloc', 'copy', 'fprintf', 'insert_arc_between_node', 'exit'], writes=['.*'])
    call = {'extract_NET_ALIGN_result': 'extract_NET_ALIGN_result(NA,&N1,&N2,nondet_int());', 'create_alinged_NETWORK': 'create_alinged_NETWORK(NA,&N1,&N2,(void*)0,1);'}[fn]
    return dict(name=fn + '_end', source='src/sclite/net_dp.c', functions=[fn], loops=dict(REN, **{fn: dict(nloops=nl, loops=lp)}), checks='mem', ghost=GH,
      assumptions=NOTE + ['total costs stay below 999999.9 (at most 65535 words per side at cost 3 each give 393210)'],
      harness=NET + TAIL + 'char *getenv(const char *n){ return (char*)0; }' + r'''
void harness(void){ %s NETWORK N1, N2; NODE S1, S2; N1.stop_node=&S1; N2.stop_node=&S2; S1.in_arcs=LA; S2.in_arcs=LB;
  REQ(%s < 999999.9f); %s }''' % (SETUP, F(('IDA[SA]', 'IDB[SB]')), call))
UNITS += [endunit('extract_NET_ALIGN_result', 4, 2), endunit('create_alinged_NETWORK', 5, 2)]

BT = r'''
NET_ALIGN *NA; NETWORK *N1, *N2; int K, SH, gk; int *QA, *QB, *CN; char *DA, *DB, *ZA, *ZB, *OAr, *OBr; ARC *XA, *XB; CELL *ROW; char EMPTY[1]; PATH *TP; int INCN; int EQS;
int ida_dummy;
int nullf(void *p){ if (p==(void*)&DA[gk]) return ZA[gk]; PRE("null test on a word of this hop", p==(void*)&DB[gk]); return ZB[gk]; }
int optf(void *p){ if (p==(void*)&DA[gk]) return OAr[gk]; PRE("optional deletability of a word of this hop", p==(void*)&DB[gk]); return OBr[gk]; }
int eqf(void *p, void *q){ PRE("words of this hop compared", p==(void*)&DA[gk] && q==(void*)&DB[gk]); return gk==SH ? EQS : nondet_int(); }
int usef(void *p, int i){ PRE("use count of a word of this hop", (p==(void*)&DA[gk] || p==(void*)&DB[gk]) && i==1); return 1; }
void *emptyf(void *p){ return EMPTY; }
char *getenv(const char *n){ return (char*)0; }
int find_arcset_id(ARCSET *s, ARC *arc, int from){ int r=nondet_int(); REQ(r>=0 && r<s->num); return r; }
PATH *PATH_alloc(int s){ PRE("room for every hop", s>=CN[K]); TP=malloc(sizeof(PATH)); REQ(TP!=0); TP->num=0; TP->max=s; TP->pset=malloc(s*sizeof(PATH_SET)); REQ(TP->pset!=0); return TP; }
static int KIND(int k){ return QA[k]==QA[k+1] ? 3 : QB[k]==QB[k+1] ? 1 : 2; }
static int SKIP(int k){ if (INCN) return 0; int q=KIND(k); return q==1 ? ZA[k] : q==3 ? ZB[k] : (ZA[k] && ZB[k]); }
static _Bool ENTRY(void){ PATH_SET e = TP->pset[CN[K]-1-CN[SH]]; int q=KIND(SH);
  if (q==1) return e.a_ptr==(void*)&DA[SH] && (OAr[SH] ? e.b_ptr==(void*)EMPTY && e.eval==0x01 : e.b_ptr==(void*)0 && e.eval==0x08);
  if (q==3) return e.b_ptr==(void*)&DB[SH] && (OBr[SH] ? e.a_ptr==(void*)EMPTY && e.eval==0x01 : e.a_ptr==(void*)0 && e.eval==0x04);
  return e.a_ptr==(void*)&DA[SH] && e.b_ptr==(void*)&DB[SH] && e.eval==(EQS==0 ? 0x01 : 0x02); }
'''
STEPL = ('if (gk<K) { __CPROVER_assume(QA[gk]>=0 && QA[gk]<NA->arcset_a.num && QB[gk]>=0 && QB[gk]<NA->arcset_b.num && (QA[gk]>0||QB[gk]>0) && QA[gk+1]>=0 && QB[gk+1]>=0 && QA[gk+1]<=QA[gk] && QB[gk+1]<=QB[gk] && (QA[gk+1]<QA[gk] || QB[gk+1]<QB[gk]));'
         ' __CPROVER_assume(CN[gk+1]==CN[gk]+(SKIP(gk)?0:1) && CN[gk]>=0 && CN[gk]<=CN[K] && CN[gk+1]<=CN[K] && CN[K]<200000);'
         ' NA->cell[QA[gk]]=ROW; ROW[QB[gk]].back_a=QA[gk+1]; ROW[QB[gk]].back_b=QB[gk+1]; NA->arcset_a.arcs[QA[gk]]=XA; NA->arcset_b.arcs[QB[gk]]=XB; XA->data=&DA[gk]; XB->data=&DB[gk]; }')
HAVK = 'gk=nondet_int(); __CPROVER_assume(gk>=0 && gk<=K); '
CL2 = ['<indirect>', 'is_null_alt', 'is_opt_del', 'use_count', 'make_empty', 'equal', 'printf', 'print_arc']
UNITS += [dict(name='extract_NET_ALIGN_result', source='src/sclite/net_dp.c', functions=['extract_NET_ALIGN_result'], checks='mem', timeout=500, flags=['--sat-solver', 'cadical'],
 ghost='extern int K, SH, gk, INCN; extern int *QA,*QB,*CN; extern char *DA,*DB; struct ARC1; struct CELL_struct; struct NET_ALIGN_struct; struct PATH_struct; extern struct ARC1 *XA,*XB; extern struct CELL_struct *ROW; extern struct NET_ALIGN_struct *NA; extern struct PATH_struct *TP; static int SKIP(int); static _Bool ENTRY(void);\n',
 assumptions=['the recorded back pointers form a chain to the origin that moves back in at least one network at every hop (contracts of calculate_margin_cells and calculate_internal_cells, arcs in topological order)',
              'the choice of the end cell is the contract of unit extract_NET_ALIGN_result_end', 'the ghost array CN is the prefix count of reported hops (its monotonicity is instantiated where used)', 'PATH_alloc by contract'],
 loops={'find_arcset_id': {'rename': 'real_find_arcset_id', 'before': 'int find_arcset_id(ARCSET *s, ARC *arc, int from);'},
  'extract_NET_ALIGN_result': dict(nloops=4, loops={
  0: dict(inv=['1'], noreach=True, havoc=['arcpa=(ARC_LIST_ATOM*)0;'], calls=CALLS),
  1: dict(inv=['1'], noreach=True, havoc=['arcpb=(ARC_LIST_ATOM*)0;'], calls=CALLS),
  2: dict(inv=['gk>=0 && gk<=K && a==QA[gk] && b==QB[gk]', 'hops==CN[gk]'], ghost_entry='__CPROVER_assume(a==QA[0] && b==QB[0]); gk=0;', havoc=[HAVK, STEPL], ghost_step=['gk++'], calls=CL2, dec='K-gk',
     lemma=['gk<K || (a==0 && b==0)']),
  3: dict(inv=['gk>=0 && gk<=K && a==QA[gk] && b==QB[gk]', 't_path==TP && t_path->num==CN[gk]', 'back_path==CN[K]-1-CN[gk]', 'SH>=gk || CN[gk]>=CN[SH+1]', 'SH>=gk || SKIP(SH) || ENTRY()'],
     ghost_entry='gk=0;', havoc=[HAVK, '__CPROVER_assume(CN[SH+1]==CN[SH]+(SKIP(SH)?0:1) && CN[SH]>=0 && CN[SH]<=CN[K] && CN[SH+1]<=CN[K]);', STEPL, '__CPROVER_havoc_object(TP->pset); TP->num=nondet_int();'], ghost_step=['gk++'], calls=CL2, dec='K-gk', lemma=['gk<K || (a==0 && b==0)', 'CN[gk]<=CN[K]', 'CN[SH+1]==CN[SH]+(SKIP(SH)?0:1) && CN[SH]>=0 && CN[SH]<=CN[K] && CN[SH+1]<=CN[K]'],
     writes=[r't_path->pset\[back_path\]\.\w+', r't_path->num'])})},
 harness=BT + r'''
void harness(void){
  NA=malloc(sizeof(NET_ALIGN)); N1=malloc(sizeof(NETWORK)); N2=malloc(sizeof(NETWORK)); XA=malloc(sizeof(ARC)); XB=malloc(sizeof(ARC)); REQ(NA&&N1&&N2&&XA&&XB); db=0;
  int na=nondet_int(), nb=nondet_int(); REQ(na>=1 && na<65536 && nb>=1 && nb<65536); NA->arcset_a.num=na; NA->arcset_b.num=nb;
  NA->arcset_a.arcs=malloc(na*sizeof(ARC*)); NA->arcset_b.arcs=malloc(nb*sizeof(ARC*)); NA->cell=malloc(na*sizeof(CELL*)); ROW=malloc(nb*sizeof(CELL));
  K=nondet_int(); SH=nondet_int(); REQ(K>=1 && K<200000 && SH>=0 && SH<K);
  QA=malloc((K+1)*sizeof(int)); QB=malloc((K+1)*sizeof(int)); CN=malloc((K+1)*sizeof(int)); DA=malloc(K); DB=malloc(K); ZA=malloc(K); ZB=malloc(K); OAr=malloc(K); OBr=malloc(K);
  REQ(NA->arcset_a.arcs && NA->arcset_b.arcs && NA->cell && ROW && QA && QB && CN && DA && DB && ZA && ZB && OAr && OBr);
  REQ(CN[0]==0 && QA[K]==0 && QB[K]==0 && CN[K]>=0 && CN[K]<200000); INCN=nondet_bool(); EQS=nondet_int();
  N1->arc_func.is_null_alt=N2->arc_func.is_null_alt=nullf; N1->arc_func.is_opt_del=N2->arc_func.is_opt_del=optf; N1->arc_func.equal=N2->arc_func.equal=eqf;
  N1->arc_func.use_count=N2->arc_func.use_count=usef; N1->arc_func.make_empty=N2->arc_func.make_empty=emptyf;
  NODE *S1=malloc(sizeof(NODE)), *S2=malloc(sizeof(NODE)); REQ(S1&&S2); S1->in_arcs=0; S2->in_arcs=0; N1->stop_node=S1; N2->stop_node=S2;
  PATH *p = extract_NET_ALIGN_result(NA,N1,N2,INCN);
  ENS("one entry per reported hop", p==TP && p->num==CN[K]);
  if (!SKIP(SH)) { ENS("every hop is reported at its place with its own words and the label of its kind", ENTRY()); REACH("hop"); }
  REACH("end"); }''')]
