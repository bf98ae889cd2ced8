"""word.c: cost structure (wwd_*), word equality, word construction."""
STUBS = r'''
/* contract of TEXT_strcmp / TEXT_strlen / TEXT_strBcmp as seen by word.c: results are functions of the arguments;
   their own contracts are the units of text.py */
WORD *W1, *W2; _Bool N1, N2, Y1, Y2; int EQ; _Bool CMPCALLED;
int TEXT_strcmp(TEXT *a, TEXT *b){
  PRE("TEXT_strcmp operands are strings", a != 0 && b != 0);
  if (b[0]=='@' && b[1]==0) { int r = nondet_int(); REQ(r != 0); return (W1 && a==W1->value && N1) || (W2 && a==W2->value && N2) ? 0 : r; }
  return EQ;
}
TEXT *TEXT_strstr(TEXT *a, TEXT *b){ return ((W1 && a==W1->value && Y1) || (W2 && a==W2->value && Y2)) ? a : (TEXT*)0; }
int cmpf(void *a, void *b){ PRE("words compared in order, both present", a==(void*)W1 && b==(void*)W2 && W1 && W2); CMPCALLED=1; return EQ; }
static WORD *mkw(void){ WORD *w = malloc(sizeof(WORD)); REQ(w!=0); w->value = malloc(4); REQ(w->value != 0); w->intern_value = malloc(4); REQ(w->intern_value!=0); return w; }
'''
SETUP = 'W1 = nondet_bool() ? mkw() : (WORD*)0; W2 = nondet_bool() ? mkw() : (WORD*)0; REQ(W1 || W2); EQ=nondet_int(); N1=nondet_bool(); N2=nondet_bool(); if(!W1) N1=0; if(!W2) N2=0; Y1=0; Y2=0;'
A = ['TEXT_strcmp(w,"@") is zero exactly for the null word; its contract is discharged in unit text_strcmp_master',
     'the word comparison passed to wwd is a function of its arguments']
def U(name, harness, **k):
    d = dict(name=name, source='src/sclite/word.c', harness=STUBS + harness, checks='mem'); d.update(k); return d
UNITS = [
U('wwd_WORD', r'''void harness(void){ %s
  float r = wwd_WORD(W1,W2,cmpf);
  if (!W2 && N1) ENS("deleting the null word is free", r == 0.001f);
  if (!W1 && N2) ENS("inserting the null word is free", r == 0.001f);
  if (!W2 && !N1) ENS("deletion costs 3, 2 if optionally deletable", r == (W1->opt_del ? 2.0f : 3.0f));
  if (!W1 && !N2) ENS("insertion costs 3, 2 if optionally deletable", r == (W2->opt_del ? 2.0f : 3.0f));
  if (W1 && W2 && N1 && N2) ENS("null against null", r == 1.0f);
  if (W1 && W2 && !(N1 && N2)) { ENS("match costs 0, substitution 4", r == (EQ==0 ? 0.0f : 4.0f)); REACH("pair"); }
  ENS("substitution never beats a match and never exceeds deletion plus insertion", r >= 0.0f && r <= 4.0f && 4.0f < 6.0f);
  REACH("end"); }''' % SETUP, functions=['wwd_WORD'], assumptions=A),
U('wwd_weight_WORD', r'''void harness(void){ %s
  float r = wwd_weight_WORD(W1,W2,cmpf);
  if (!W2) ENS("deletion costs the weight", r == (N1 ? 0.001f : (float)W1->weight) || W1->weight != W1->weight);
  if (!W1) ENS("insertion costs the weight", r == (N2 ? 0.001f : (float)W2->weight) || W2->weight != W2->weight);
  if (W1 && W2) { float s = (W1->weight + W2->weight); ENS("match free, substitution costs both weights", EQ==0 ? r == 0.0f : (r == s || s != s)); REACH("pair"); }
  REACH("end"); }''' % SETUP, functions=['wwd_weight_WORD'], assumptions=A, flags=['--cvc5']),
U('wwd_time_WORD', r"""
double FX[2], FR[2]; int FN;
double fabs(double x){ double r = nondet_double(); PRE("two absolute values", FN < 2); FX[FN] = x; FR[FN] = r; FN++; return r; }
void harness(void){ %s FN=0;
  float r = wwd_time_WORD(W1,W2,cmpf);
  if (!W2) ENS("deletion costs the duration", r == (N1 ? 0.001f : (float)W1->T_dur) || W1->T_dur != W1->T_dur);
  if (!W1) ENS("insertion costs the duration", r == (N2 ? 0.001f : (float)W2->T_dur) || W2->T_dur != W2->T_dur);
  if (W1 && W2) { 
     ENS("two absolute differences", FN == 2);
     float w = (float)((FR[0] + FR[1]) + (EQ==0 ? 0.0 : 0.001));
     ENS("pair costs the sum of both, a mismatch 0.001 more", r == w || w != w); REACH("pair"); }
  REACH("end"); }""" % SETUP, functions=['wwd_time_WORD'], assumptions=A + ['fabs is the C library absolute value; that its arguments are the differences of the begin and end times is checked only by the bounded part'], flags=['--cvc5']),
U('wwd_WORD_rover', r'''void harness(void){ %s Y1=0; Y2=0; if (N1||N2) {Y1=0;Y2=0;} 
  float r = wwd_WORD_rover(W1,W2,cmpf);
  if (!W2 || !W1) { WORD *w = W1 ? W1 : W2; _Bool n = W1 ? N1 : N2; ENS("insertion and deletion", r == (n ? 0.001f : w->opt_del ? 2.0f : 3.0f)); }
  else if (N1 && N2) ENS("null against null", r == 1.0f);
  else if (EQ == 0) ENS("match costs 0", r == 0.0f);
  else { ENS("null against a word costs 1, substitution 4", r == ((N1 || N2) ? 1.0f : 4.0f)); REACH("pair"); }
  REACH("end"); }''' % SETUP, functions=['wwd_WORD_rover'], assumptions=A + ['no %sync%time words']),
]

EQS = r'''
WORD *W1, *W2; TEXT *I1, *I2; int L1, L2; TEXT *BA, *BB; int BN, BR, NB, NS, SR; 
int TEXT_strlen(TEXT *t){ PRE("length of an operand", t==I1 || t==I2); return t==I1 ? L1 : L2; }
int TEXT_strcmp(TEXT *a, TEXT *b){ PRE("operands compared in order", a==I1 && b==I2); NS++; return SR; }
int TEXT_strBcmp(TEXT *a, TEXT *b, int n){ BA=a; BB=b; BN=n; NB++; return BR; }
'''
UNITS += [
dict(name='equal_WORD2', source='src/sclite/word.c', checks='mem', functions=['equal_WORD2'],
 assumptions=['TEXT_strlen/TEXT_strcmp/TEXT_strBcmp are represented by their contracts (units of text.py)'],
 harness=EQS + r'''
void harness(void){
  W1 = malloc(sizeof(WORD)); W2 = malloc(sizeof(WORD)); REQ(W1 && W2);
  L1 = nondet_int(); L2 = nondet_int(); REQ(L1 >= 1 && L1 < 1000000 && L2 >= 1 && L2 < 1000000);
  I1 = malloc(L1+1); I2 = malloc(L2+1); TEXT *o1 = malloc(1), *o2 = malloc(1); REQ(I1 && I2 && o1 && o2);
  REQ(I1[L1]==0 && I2[L2]==0);
  /* an optionally deletable word is compared without its parentheses */
  if (W1->opt_del) { W1->intern_value = I1; W1->value = o1; } else { W1->value = I1; W1->intern_value = o1; }
  if (W2->opt_del) { W2->intern_value = I2; W2->value = o2; } else { W2->value = I2; W2->intern_value = o2; }
  SR = nondet_int(); BR = nondet_int();
  int r = equal_WORD2(W1,W2);
  _Bool fr = W1->frag_corr || W2->frag_corr;
  _Bool s1 = I1[0]=='-' && L1>1, p1 = I1[L1-1]=='-' && L1>1, s2 = I2[0]=='-' && L2>1, p2 = I2[L2-1]=='-' && L2>1;
  if (!fr || !(s1||p1||s2||p2)) { ENS("no fragment: whole spellings decide", NS==1 && NB==0 && (r==0) == (SR==0)); REACH("plain"); }
  else if (s1) { if (L2 < L1-1) ENS("a longer tail never matches", r != 0 && NB==0);
                 else ENS("fragment with a leading hyphen matches the tail", NB==1 && NS==0 && (r==0)==(BR==0) && BN==L1-1 && ((BA==I1+1 && BB==I2+(L2-(L1-1))) || (BB==I1+1 && BA==I2+(L2-(L1-1))))); REACH("s1"); }
  else if (p1) ENS("fragment with a trailing hyphen matches the head", NB==1 && NS==0 && (r==0)==(BR==0) && BN==L1-1 && ((BA==I1 && BB==I2)||(BA==I2 && BB==I1)));
  else if (s2) { if (L1 < L2-1) ENS("a longer tail never matches (second)", r != 0 && NB==0);
                 else ENS("second fragment with a leading hyphen matches the tail", NB==1 && NS==0 && (r==0)==(BR==0) && BN==L2-1 && ((BB==I2+1 && BA==I1+(L1-(L2-1))) || (BA==I2+1 && BB==I1+(L1-(L2-1))))); REACH("s2"); }
  else ENS("second fragment with a trailing hyphen matches the head", NB==1 && NS==0 && (r==0)==(BR==0) && BN==L2-1 && ((BA==I1 && BB==I2)||(BA==I2 && BB==I1)));
  int z = equal_WORD2((void*)0, W2), y = equal_WORD2(W1,(void*)0);
  ENS("a missing word equals nothing", z != 0 && y != 0);
  REACH("end"); }'''),
dict(name='new_WORD', source='src/sclite/word.c', checks='mem', functions=['new_WORD', 'get_WORD'],
 assumptions=['TEXT_strdup/TEXT_strBdup are represented by their contracts (units of text.py)'],
 harness=r'''
TEXT *T, *G1, *G2, *D0, *D1, *D2; int L, DL; _Bool B;
int TEXT_strlen(TEXT *t){ PRE("length of the word", t==T); return L; }
TEXT *TEXT_strdup(TEXT *t){ if (t==T) { B=0; return D0; } if (t==G1) return D1; PRE("copy of a given text", t==G2); return D2; }
TEXT *TEXT_strBdup(TEXT *t, int n){ PRE("prefix of the word", t==T); DL=n; B=1; return D0; }
void harness(void){
  _Bool h1 = nondet_bool(), h2 = nondet_bool(), ht = nondet_bool(); L = nondet_int(); REQ(L>=0 && L<1000000);
  T = ht ? malloc(L+1) : 0; G1 = h1 ? malloc(1) : 0; G2 = h2 ? malloc(2) : 0; D0 = malloc(1); D1 = malloc(2); D2 = malloc(3);
  REQ((!ht || T) && (!h1 || G1) && (!h2 || G2) && D0 && D1 && D2);
  int id=nondet_int(), fc=nondet_int(), od=nondet_int(); double t1=nondet_double(), t2=nondet_double(), cf=nondet_double(), wt=nondet_double();
  REQ(t1==t1 && t2==t2 && cf==cf && wt==wt);
  WORD *w = new_WORD(T,id,t1,t2,cf,G1,G2,fc,od,wt);
  ENS("fields carried over", w->use==1 && w->value_id==id && w->T1==t1 && w->T2==t2 && w->weight==wt && w->conf==cf && w->frag_corr==fc && w->opt_del==od && w->intern_value==0);
  ENS("tags copied", (h1 ? w->tag1==D1 : w->tag1==0) && (h2 ? w->tag2==D2 : w->tag2==0));
  if (ht) { ENS("the spelling is copied whole, without one final asterisk", w->value==D0 && ((L>1 && T[L-1]=='*') ? (B && DL==L-1) : (!B || DL==L))); REACH("word"); }
  else ENS("no spelling", w->value==0);
  REACH("end"); }'''),
dict(name='null_alt_opt_del', source='src/sclite/word.c', checks='mem', functions=['null_alt_WORD', 'opt_del_WORD', 'use_count_WORD', 'copy_WORD_via_use_count'],
 harness=r'''
TEXT *V; int S; int TEXT_strcmp(TEXT *a, TEXT *b){ PRE("spelling against the null word", (a==V && b[0]=='@' && b[1]==0)||(b==V && a[0]=='@' && a[1]==0)); return S; }
void harness(void){ WORD w; V = malloc(2); REQ(V!=0); w.value=V; S=nondet_int(); int u=w.use;
  ENS("null word recognised by its spelling", (null_alt_WORD(&w)!=0) == (S==0));
  ENS("optional deletability is the word's flag", (opt_del_WORD(&w)!=0) == (w.opt_del!=0));
  REQ(u>0 && u<1000); int k=nondet_int(); REQ(k>=0 && k<1000);
  use_count_WORD(&w,k); ENS("use count raised", w.use==u+k);
  void *c=copy_WORD_via_use_count(&w); ENS("shared copy", c==(void*)&w && w.use==u+k+1);
  REACH("end"); }'''),
]
