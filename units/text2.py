"""text.c: reading whole lines, cutting tokens and alternatives out of a line, escaping."""
from units.text import SRC, MSZ, BIG, sstr, NOEXIT
UNITS = []
GS = 'typedef unsigned char UC_; extern UC_ *S,*T; extern int N, W, L, gk, B0, NL, LN, gpos, AC, gt; \n'
DEFS = 'TEXT *S,*T; int N,W,L,gk,B0,NL,LN,gpos,AC,gt;\n'
SZF = 'static int SZ(int c){ return STATIC_ENCODING==ASCII||STATIC_ENCODING==EXTASCII||c<0x80 ? 1 : STATIC_ENCODING==GB ? 2 : c<0xE0?2:c<0xF0?3:c<0xF8?4:c<0xFC?5:6; }\n'
# ---- TEXT_ensure_fgets: S is the rest of the file up to and including the end of the current line, LN its length, NL: it ends in a newline
UNITS += [dict(name='TEXT_ensure_fgets', source=SRC, functions=['TEXT_ensure_fgets'], checks='mem', ghost=GS, timeout=400,
 assumptions=['fgets, strcpy and TEXT_strlen by contract', 'the input line contains no NUL byte', 'lines shorter than 2,000,000 bytes (buffer sizes are ints)'],
 loops={'TEXT_strlen': {'rename': 'real_TEXT_strlen', 'before': 'int TEXT_strlen(TEXT *t);'},
  'TEXT_ensure_fgets': dict(nloops=1, loops={0: dict(
   inv=['gpos>=1 && gpos<=LN && gpos<=*len-1 && tc==*arr+gpos && (*arr)[gpos]==0', '*len>=2 && *len<2*%d' % (4 * BIG), '(gpos==LN) || gpos==*len-1', 'W>=gpos || (*arr)[W]==S[W]', '((*arr)[gpos-1]==10)==(NL && gpos==LN)'],
   havoc=['{ long sz=nondet_long(); __CPROVER_assume(sz>=2 && sz<%d); *len=sz; *arr=malloc(sz); __CPROVER_assume(*arr!=0); gpos=nondet_int(); __CPROVER_assume(gpos>=1 && gpos<=LN && gpos<sz); tc=*arr+gpos; }' % (4 * BIG)],
   calls=['malloc', 'malloc_died', 'strcpy', 'free', 'fgets', 'clearerr', 'TEXT_strlen'], writes=[r'\*arr', r'\*len'], dec='LN-gpos')})},
 harness=DEFS + MSZ + r'''
void clearerr(FILE *f){ PRE("only at the end of the file", gpos==LN && !NL); }
char *fgets(char *d, int n, FILE *f){ PRE("the buffer has room for what fgets may write", n>=1 && __CPROVER_OBJECT_SIZE(d)-__CPROVER_POINTER_OFFSET(d) >= (unsigned long)n);
  PRE("reading continues where the text so far ends", gpos==0 || d[0]==0);
  int r = LN-gpos; if (r>n-1) r=n-1; if (r<=0) return (char*)0;
  if (W>=gpos && W<gpos+r) d[W-gpos]=S[W];
  char last=nondet_char(); REQ(last!=0); REQ((last==10)==(NL && gpos+r==LN)); if (W==gpos+r-1) REQ(last==(char)S[W]); d[r-1]=last; d[r]=0; gpos+=r; return d; }
TEXT *OLDP; int TEXT_strlen(TEXT *t){ PRE("text so far is terminated", t[gpos]==0); return gpos; }
char *strcpy(char *d, const char *s){ PRE("the old text fits", s[gpos]==0 && __CPROVER_OBJECT_SIZE(d) > (unsigned long)gpos); if (W<gpos) d[W]=s[W]; d[gpos-1]=s[gpos-1]; d[gpos]=0; return d; }
void harness(void){ LN=nondet_int(); NL=nondet_bool(); REQ(LN>=0 && LN<%d && (LN>0 || !NL)); long a=nondet_long(); REQ(a==(long)LN+1); S=malloc(a); REQ(S!=0); W=nondet_int(); REQ(W>=0 && W<LN); REQ(S[W]!=0); REQ((S[W]==10)==(NL && W==LN-1));
  long b=nondet_long(); REQ(b>=2 && b<100000); int len=b; TEXT *buf=malloc(b); REQ(buf!=0); gpos=0;
  TEXT *r=TEXT_ensure_fgets(&buf,&len,(FILE*)0);
  ENS("a line is returned", r!=0 && r==buf);
  ENS("the whole line was read", gpos==LN && buf[LN]==0);
  ENS("every byte of the line is in the buffer", buf[W]==S[W]);
  ENS("the recorded size does not exceed the buffer", len>=1 && (unsigned long)len<=__CPROVER_OBJECT_SIZE(buf));
  REACH("end"); }''' % BIG)]
# ---- find_next_TEXT_token
ENC = 'int e=nondet_int(); REQ(e==ASCII||e==EXTASCII||e==GB||e==UTF8); STATIC_ENCODING=e; db=0;'
OKC = '__CPROVER_assume((S[k]!=0)==(k<N)); if (k<N) { __CPROVER_assume(!(STATIC_ENCODING==UTF8 && ((S[k]>=0x80 && S[k]<0xC0) || S[k]>=0xFE))); __CPROVER_assume(k+SZ(S[k])<=N); __CPROVER_assume(!(W>k && W<k+SZ(S[k])) || S[W]>=0x80); }'
HV = '{ int k=nondet_int(); __CPROVER_assume(k>=0 && k<=N); *ctext=S+k; gk=k; ' + OKC + ' %s }'
COPYINV = 'gk>=B0 && gk<=N && *ctext==S+gk && c==gk-B0 && token==T+c && c>=0 && c<=len && len==L'
WINV = '!(W>=B0 && W<gk) || T[W-B0]==S[W]'
SPF = '#define SPACE(x) ((x)==32 || ((x)>=9 && (x)<=13))\n'
# in a do loop the state after the last character is examined by the loop condition: the string facts are needed there too
NXT = 'k'
def tok(fn, loops, extra_post, lit, which):
    ENC = {'bytes': 'STATIC_ENCODING = nondet_bool() ? ASCII : EXTASCII; db=0;', 'gb': 'STATIC_ENCODING=GB; db=0;', 'utf8': 'STATIC_ENCODING=UTF8; db=0;'}[which]
    return dict(name=fn + '_' + which, source=SRC, functions=[fn], checks='mem', ghost=GS + SPF, unwind=7, timeout=600, flags=['--sat-solver', 'cadical'],
     assumptions=['characters of the line are complete (no line ends inside a multi byte character) and their trailing bytes have the high bit set', 'isspace by contract (C locale)', 'the precondition "the bytes before the end are not zero" is instantiated at the positions visited'],
     loops={fn: dict(loops, before=SZF)},
     harness=NOEXIT + DEFS + r'''int isspace(int c){ return c==32 || (c>=9 && c<=13); }
int printf(const char *f, ...){ return 0; }
void harness(void){ %s N=nondet_int(); REQ(N>=0 && N<%d); long a=nondet_long(); REQ(a==(long)N+1); S=malloc(a); REQ(S!=0); REQ(S[N]==0);
  L=nondet_int(); REQ(L>=1 && L<%d); long b=nondet_long(); REQ(b==(long)L+1); T=malloc(b); REQ(T!=0); W=nondet_int(); REQ(W>=0 && W<N && S[W]!=0);
  int st=nondet_int(); REQ(st>=0 && st<=N); { int k=st; %s } TEXT *p=S+st; B0=-1;
  int r=%s(&p,T,L); int e2=p-S;
  if (r) { ENS("the token starts at the first character that is not a separator", B0>=st && (!(W>=st && W<B0) || %s) && !(%s));
    ENS("the token is terminated within its buffer", e2-B0<=L && T[e2-B0]==0);
    ENS("every byte of the token is the byte of the text", !(W>=B0 && W<e2) || T[W-B0]==S[W]); ENS("the text is consumed up to the end of the token", e2>=B0+1 && e2<=N);
    %s REACH("token"); }
  REACH("end"); }''' % (ENC, BIG, BIG, OKC, fn, lit % (('S[W]',) * lit.count('%s')), lit % (('S[B0]',) * lit.count('%s')), extra_post))
CALLS = ['TEXT_nbytes_of_char', 'isspace', 'printf', 'fprintf', 'end_of_TEXT']
def skip(sepinv): return dict(inv=['*ctext>=S && *ctext-S<=N && *ctext==S+(*ctext-S) && *ctext-S>=gt', '!(W>=gt && W<*ctext-S) || %s' % sepinv],
      ghost_entry='gt=*ctext-S;', havoc=[HV % ''], writes=[r'\(\*ctext\)', r'\*ctext'], calls=CALLS, dec='N-(*ctext-S)')
def copyloop(more=(), hv='', ent='B0=*ctext-S;'):
    k1 = '{ int k=gk+SZ(S[gk]); if (gk<N) { ' + OKC + ' } }'
    return dict(inv=[COPYINV, 'gk<N', WINV] + list(more), ghost_entry=ent + 'gk=B0;',
      havoc=['__CPROVER_havoc_object(T); ' + HV % '' + ' token=T+((c>=0 && c<=L)?c:0);' + k1, hv], writes=[r'\*\(token\+\+\)', r'\(\*ctext\)', r'\*ctext', r'\*token', r'\*\(\*ctext\)'], calls=CALLS, ghost_step=['gk=*ctext-S'], dec='N-(*ctext-S)')
for which in ('bytes', 'gb', 'utf8'):
  UNITS += [tok('find_next_TEXT_token', dict(nloops=5, loops={
   0: skip('SPACE(S[W])'), 1: copyloop(['alt_cnt>=0 && alt_cnt<=c', '(c==0) ? (alt_cnt==0 && S[gk]==123) : alt_cnt>0', 'S[B0]==123']), 3: copyloop(['S[B0]!=123', '!(W>B0 && W<=gk) || !SPACE(S[W])'])}),
   'if (S[B0]==123) REACH("alternation"); else ENS("a word runs to the next white space or the end", (e2==N || SPACE(S[e2])) && (!(W>B0 && W<e2) || !SPACE(S[W])));', 'SPACE(%s)', which),
  tok('find_next_TEXT_alternation', dict(nloops=3, loops={
   0: skip('(SPACE(S[W])||S[W]==47)'), 1: copyloop(['alt_cnt<=c && alt_cnt>=-c'])}),
   'ENS("an alternative runs to a slash, a closing brace or the end", e2==N || S[e2]==47 || S[e2]==125);', '(SPACE(%s)||%s==47)', which)]
