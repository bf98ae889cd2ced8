"""text.c: character sizes, code points, case folding, comparison and copying of strings."""
import unicodedata
MSZ = r'''extern int _msz_; int _msz_; void malloc_died(int n){ PRE("allocation succeeds", 0); }
'''
NOEXIT = 'void exit(int c){ PRE("no fatal exit on well formed text", 0); __CPROVER_assume(0); }\nint fprintf(FILE *f, const char *s, ...){ return 0; }\n'
SRC = 'src/sclite/text.c'
UNITS = []
UNITS += [dict(name='TEXT_nbytes_of_char', source=SRC, functions=['TEXT_nbytes_of_char'], checks='all', harness=NOEXIT + r'''
void harness(void){ int e=nondet_int(); REQ(e==ASCII||e==EXTASCII||e==GB||e==UTF8); STATIC_ENCODING=e; TEXT c[1]; c[0]=nondet_uchar();
  REQ(!(e==UTF8) || !(c[0]>=0x80 && c[0]<0xC0) && c[0]<0xFE);
  int n=TEXT_nbytes_of_char(c);
  ENS("single byte encodings", !(e==ASCII||e==EXTASCII) || n==1);
  ENS("a 7 bit character is one byte", !(c[0]<0x80) || n==1);
  ENS("a GB character is two bytes", !(e==GB && c[0]>=0x80) || n==2);
  ENS("a UTF-8 lead byte gives its length", !(e==UTF8 && c[0]>=0x80) || n==(c[0]<0xE0?2:c[0]<0xF0?3:c[0]<0xF8?4:c[0]<0xFC?5:6));
  REACH("end"); }''')]
UNITS += [dict(name='utf8_codepoint_roundtrip', source=SRC, functions=['TEXT_getUTFCodePoint', 'TEXT_UTFCodePointToTEXT', 'TEXT_nbytes_of_char'], checks='all', unwind=12, harness=NOEXIT + r'''
void harness(void){ STATIC_ENCODING=UTF8; long c=nondet_long(); REQ(c>=0 && c<0x20000);
  TEXT *t=TEXT_UTFCodePointToTEXT(c); int n=TEXT_nbytes_of_char(t);
  ENS("encoded length", n==(c<0x80?1:c<0x800?2:c<0x10000?3:4));
  ENS("continuation bytes", !(n>1 && (t[1]&0xC0)!=0x80) && !(n>2 && (t[2]&0xC0)!=0x80) && !(n>3 && (t[3]&0xC0)!=0x80));
  ENS("decoding returns the code point", TEXT_getUTFCodePoint(t)==c);
  REACH("encode");
  TEXT u[6]; u[0]=nondet_uchar(); u[1]=nondet_uchar(); u[2]=nondet_uchar(); u[3]=nondet_uchar(); u[4]=nondet_uchar(); u[5]=0;
  REQ(u[0]<0x80 || (u[0]>=0xC2 && u[0]<=0xF4)); int m=TEXT_nbytes_of_char(u); REQ(!(m>1)||(u[1]&0xC0)==0x80); REQ(!(m>2)||(u[2]&0xC0)==0x80); REQ(!(m>3)||(u[3]&0xC0)==0x80);
  long d=TEXT_getUTFCodePoint(u); long x = m==1?u[0]:m==2?((u[0]&31)<<6|(u[1]&63)):m==3?((u[0]&15)<<12|(u[1]&63)<<6|(u[2]&63)):((u[0]&7)<<18|(u[1]&63)<<12|(u[2]&63)<<6|(u[3]&63));
  ENS("decoding follows RFC 3629", d==x);
  REACH("end"); }''')]
# upper case letters each language profile declares (the specification: pairs follow Unicode simple case mapping, Turkish keeps dotted and dotless i apart)
def cyr(*r): return r
PROF = {
 'LPROF_BABEL_TURKISH': 'ÇÖÜİIĞŞ', 'LPROF_BABEL_LITHUANIAN': 'ĄČĘĖĮŠŲŪŽ', 'LPROF_BABEL_KURMANJI': 'ÇÊÎÛŞ', 'LPROF_BABEL_CEBUANO': 'Ñ',
 'LPROF_BABEL_KAZAKH': 'АӘБВГҒДЕЁЖЗИЙКҚЛМНҢОӨПРСТУҰҮФХҺЦЧШЩЪЫІЬЭЮЯ', 'LPROF_BABEL_MONGOLIAN': 'ЁАБВГДЕЖЗИЙКЛМНОПРСТУФХЦЧШЩЪЫЬЭЮЯҮӨ',
 'LPROF_BABEL_GUARANI': 'ÃÁẼÉĨÍÕÓŨÚỸÝÑ',
 'LPROF_BABEL_VIETNAMESE': 'ĐÁÀẢÃẠĂẮẰẲẴẶÂẤẦẨẪẬÉÈẺẼẸÊẾỀỂỄỆÍÌỈĨỊÓÒỎÕỌƠỚỜỞỠỢÔỐỒỔỖỘÚÙỦŨỤƯỨỪỬỮỰÝỲỶỸỴ',
 'LPROF_UKRAINIAN': ''.join(chr(c) for c in range(0x400, 0x500) if unicodedata.category(chr(c)) == 'Lu' and c not in (0x4C0, )),
}
TRL = {'İ': 'i', 'I': 'ı'}
def low(p, ch): return TRL.get(ch, ch.lower()) if p == 'LPROF_BABEL_TURKISH' else ch.lower()
def table(p, lo):
    pr = [(ord(u), ord(low(p, u))) for u in PROF[p]]
    return ' '.join('if (c==%d) return %d;' % ((u, l) if lo else (l, u)) for u, l in pr)
for p in PROF:
    n = len(PROF[p])
    UNITS.append(dict(name='case_table_' + p[6:].lower(), source=SRC, functions=['getKnownUFTCaseCP'], checks='all', unwind=130, flags=['--no-unwinding-assertions'] if 0 else [],
     harness='static int SPEC(int c, int lo){ if (lo) { %s } else { %s } return -1; }\n' % (table(p, 1), table(p, 0)) + r'''
void harness(void){ STATIC_LPROF=%s; int c=nondet_int(), lo=nondet_bool(); REQ(c>=0 && c<0x110000);
  int r=getKnownUFTCaseCP(c,lo);
  ENS("case pair of the language profile", r==SPEC(c,lo));
  if (r!=-1 && c!=73 && c!=105) ENS("the mapping is undone by the opposite one", getKnownUFTCaseCP(r,!lo)==c);
  REACH("end"); }''' % p))
UNITS.append(dict(name='case_table_generic', source=SRC, functions=['getKnownUFTCaseCP'], checks='all', unwind=130, harness=r'''
void harness(void){ STATIC_LPROF=LPROF_GENERIC; ENS("no letter outside ASCII changes in the generic profile", getKnownUFTCaseCP(nondet_int(),nondet_bool())==-1); REACH("end"); }'''))
# ---- strings: S is a string of N bytes, N arbitrary
STR = r'''extern TEXT *S; extern int N; extern int W; '''
def sstr(k, s='S', n='N'): return '((%s>=0 && %s<=%s) ? ((%s[%s]!=0)==(%s<%s)) : 1)' % (k, k, n, s, k, k, n)
BIG = 2000000
SETS = r'''N=nondet_int(); REQ(N>=0 && N<%d); long tot=nondet_long(); REQ(tot==(long)N+1); S=malloc(tot); REQ(S!=0); REQ(S[N]==0); W=nondet_int(); REQ(W>=0 && W<N); REQ(S[W]!=0);
''' % BIG
GS = 'typedef unsigned char UC_; extern UC_ *S,*D; extern int N, W, M; extern long tot;\n'
DEFS = 'TEXT *S,*D; int N,W,M;\n'
UNITS += [dict(name='TEXT_strlen', source=SRC, functions=['TEXT_strlen'], checks='mem', ghost=GS,
 loops={'TEXT_strlen': dict(nloops=1, loops={0: dict(inv=['i>=0 && i<=N', 'text==S+i', 'S[N]==0'], havoc=['text=S+(i>=0&&i<=N?i:0);'], lemma=[sstr('i')], dec='N-i')})},
 harness=DEFS + 'void harness(void){ ' + SETS + r''' ENS("number of bytes before the terminator", TEXT_strlen(S)==N); REACH("end"); }'''),
dict(name='TEXT_strBcpy', source=SRC, functions=['TEXT_strBcpy'], checks='mem', ghost=GS,
 loops={'TEXT_strBcpy': dict(nloops=1, loops={0: dict(inv=['i>=0 && i<=N && i<=M', 'p_t==D+i && p1_t==S+i', 'S[N]==0', 'W>=i || D[W]==S[W]'], havoc=['__CPROVER_havoc_object(D); p_t=D+(i>=0&&i<=M?i:0); p1_t=S+(i>=0&&i<=N?i:0);'], lemma=[sstr('i')], writes=[r'\*p_t\+\+'], dec='N-i')})},
 harness=DEFS + 'void harness(void){ ' + SETS + r''' M=nondet_int(); REQ(M>=0 && M<%d); long dt=nondet_long(); REQ(dt==(long)M+1); D=malloc(dt); REQ(D!=0);
  TEXT *r=TEXT_strBcpy(D,S,M); int k= N<M?N:M; ENS("returns the target", r==D); ENS("terminated after the shorter of the text and the limit", D[k]==0); ENS("bytes copied", !(W<k) || D[W]==S[W]); REACH("end"); }''' % BIG)]
# comparison without case: S and D are compared
UNITS += [dict(name='TEXT_strcmp', source=SRC, functions=['TEXT_strcmp', 'TEXT_strcmp_master', 'end_of_TEXT'], checks='mem', ghost=GS, unwind=7, timeout=400,
 assumptions=['multi byte characters of the two strings are complete (no string ends inside a character)', 'the precondition "the bytes before the end are not zero" is instantiated at the positions visited'],
 loops={'TEXT_strcmp_master': dict(nloops=2, loops={0: dict(
   inv=['_p1-p1>=0 && _p1-p1<=N && _p1-p1<=M && _p2-p2==_p1-p1 && _p1==S+(_p1-p1) && _p2==D+(_p1-p1)', 'W>=_p1-p1 || S[W]==D[W]', 'S[N]==0 && D[M]==0'],
   havoc=['{ int k=nondet_int(); __CPROVER_assume(k>=0 && k<=N && k<=M); _p1=S+k; _p2=D+k; __CPROVER_assume((S[k]!=0)==(k<N)); __CPROVER_assume((D[k]!=0)==(k<M)); if (k<N) { __CPROVER_assume(!(STATIC_ENCODING==UTF8 && ((S[k]>=0x80 && S[k]<0xC0) || S[k]>=0xFE))); __CPROVER_assume(k+SZ(S[k])<=N); } if (k<M) { __CPROVER_assume(!(STATIC_ENCODING==UTF8 && ((D[k]>=0x80 && D[k]<0xC0) || D[k]>=0xFE))); __CPROVER_assume(k+SZ(D[k])<=M); } }'],
   calls=['end_of_TEXT', 'TEXT_nbytes_of_char'], dec='N-(_p1-p1)')}, before='static int SZ(int c){ return STATIC_ENCODING==ASCII||STATIC_ENCODING==EXTASCII||c<0x80 ? 1 : STATIC_ENCODING==GB ? 2 : c<0xE0?2:c<0xF0?3:c<0xF8?4:c<0xFC?5:6; }')},
 harness=NOEXIT + DEFS + MSZ + r'''void TEXT_str_case_change_unused(void){}
void harness(void){ int e=nondet_int(); REQ(e==ASCII||e==EXTASCII||e==GB||e==UTF8); STATIC_ENCODING=e;
  N=nondet_int(); M=nondet_int(); REQ(N>=0 && N<%d && M>=0 && M<%d); long a=nondet_long(), b=nondet_long(); REQ(a==(long)N+1 && b==(long)M+1); S=malloc(a); D=malloc(b); REQ(S&&D); REQ(S[N]==0 && D[M]==0);
  W=nondet_int(); REQ(W>=0 && W<N && W<M); REQ(S[W]!=0 && D[W]!=0); int same=(N==M) && nondet_bool();
  int r=TEXT_strcmp(S,D);
  ENS("equal texts have equal length", !(r==0) || N==M); ENS("equal texts have equal bytes", !(r==0) || S[W]==D[W]);
  ENS("result is -1, 0 or 1", r==-1||r==0||r==1);
  if (r==0) REACH("equal"); else REACH("different"); }''' % (BIG, BIG))]
import copy
_u = copy.deepcopy(UNITS[-1]); _u['name'] = 'TEXT_strcmp_identical'
_l = _u['loops']['TEXT_strcmp_master']['loops'][0]
_l['havoc'][0] = _l['havoc'][0].rstrip(' }') + '} for (int q=0;q<6;q++) if (k+q<=N) __CPROVER_assume(S[k+q]==D[k+q]); }'
_l['ghost_entry'] = 'for (int q=0;q<6;q++) if (q<=N) __CPROVER_assume(S[q]==D[q]);'
_h = _u['harness']; _i = _h.index('  int r=TEXT_strcmp'); _u['harness'] = _h[:_i] + r"""  REQ(N==M); int r=TEXT_strcmp(S,D); ENS("texts with the same bytes compare equal", r==0); REACH("end"); }"""
_u['unwind'] = 8
UNITS.append(_u)
# ---- case folding of single byte encodings
FOLD = r'''static int FOLD(int c, int lo){ if (STATIC_ENCODING==EXTASCII && c>=128) { if (lo) return (c>=192 && c<=223) ? c+32 : c; return c>=224 ? c-32 : c; }
  if (c>=128) return c; return lo ? ((c>='A'&&c<='Z')?c+32:c) : ((c>='a'&&c<='z')?c-32:c); }
'''

UNITS += [dict(name='TEXT_str_to_master_bytes', source=SRC, functions=['TEXT_str_to_master', 'TEXT_strCcpy'], checks='mem', unwind=7, timeout=400,
 ghost=GS + 'extern int gk; static int FOLD(int,int); extern int LO;\n',
 assumptions=['single byte encodings (ASCII, extended ASCII); the multi byte encodings are covered by the character level units and the bounded part', 'TEXT_strlen and memcpy by contract'],
 loops={'TEXT_strlen': {'rename': 'real_TEXT_strlen', 'before': 'int TEXT_strlen(TEXT *t);'}, 'TEXT_chrlen': {'rename': 'real_TEXT_chrlen', 'before': 'int TEXT_chrlen(TEXT *t);'},
  'TEXT_str_to_master': dict(nloops=2, loops={
   0: dict(inv=['_ml>=0 && _ml<=STATIC_CASECONVTEXT_SIZE'], havoc=['__CPROVER_havoc_object(STATIC_CASECONVTEXT);'], writes=[r'STATIC_CASECONVTEXT\[_ml\]'], dec='STATIC_CASECONVTEXT_SIZE-_ml'),
   1: dict(inv=['gk>=0 && gk<N && buf==S+gk && outP==STATIC_CASECONVTEXT+gk && outP[0]==0 && STATIC_CASECONVTEXT_SIZE>=5 && STATIC_CASECONVTEXT_SIZE<1000000000 && gk<STATIC_CASECONVTEXT_SIZE && hptr==holdSpace',
        'W>=gk || STATIC_CASECONVTEXT[W]==FOLD(S[W],LO)'],
     ghost_entry='gk=0;', ghost_step=['gk++'], calls=['TEXT_nbytes_of_char', 'TEXT_strCcpy', 'tolower', 'toupper', 'TEXT_getUTFCodePoint', 'getKnownUFTCaseCP', 'TEXT_UTFCodePointToTEXT', 'TEXT_strlen', 'malloc', 'malloc_died', 'memcpy', 'free', 'end_of_TEXT'], dec='N-gk',
     havoc=['{ long sz=nondet_long(); __CPROVER_assume(sz>=5 && sz<3*%d); STATIC_CASECONVTEXT_SIZE=sz; STATIC_CASECONVTEXT=malloc(sz); __CPROVER_assume(STATIC_CASECONVTEXT!=0); gk=nondet_int(); __CPROVER_assume(gk>=0 && gk<N && gk<sz); buf=S+gk; outP=STATIC_CASECONVTEXT+gk; hptr=(TEXT*)holdSpace; }' % BIG],
     lemma=[sstr('gk'), sstr('gk+1')], writes=[r'\*hptr', r'\*outP', r'\*\w+'])})},
 harness=DEFS + 'int gk, LO;\n' + FOLD + MSZ + r"""
int TEXT_strlen(TEXT *t){ PRE("length of the text converted so far", t==STATIC_CASECONVTEXT && t[gk]==0 && (W>=gk || t[W]!=0)); return gk; }
int TEXT_chrlen(TEXT *t){ PRE("length of the input", t==S); return N; }
void *memcpy(void *d, const void *s, unsigned long n){ PRE("the old text is copied", s==(void*)STATIC_CASECONVTEXT && n==STATIC_CASECONVTEXT_SIZE && n<=__CPROVER_OBJECT_SIZE(d)); ((TEXT*)d)[gk]=((TEXT*)s)[gk]; if (W<n) ((TEXT*)d)[W]=((TEXT*)s)[W]; return d; }
int tolower(int c){ return (c>='A'&&c<='Z')?c+32:c; }
int toupper(int c){ return (c>='a'&&c<='z')?c-32:c; }
void harness(void){ """ + SETS + r""" STATIC_ENCODING = nondet_bool() ? ASCII : EXTASCII; LO=nondet_bool();
  if (nondet_bool()) STATIC_CASECONVTEXT_SIZE=-1; else { long sz=nondet_long(); REQ(sz>=5 && sz<1000000); STATIC_CASECONVTEXT_SIZE=sz; STATIC_CASECONVTEXT=malloc(sz); REQ(STATIC_CASECONVTEXT!=0); }
  REQ(N>=1 && S[0]!=0);
  TEXT *r=TEXT_str_to_master(S,LO);
  ENS("as long as the input and terminated", r==STATIC_CASECONVTEXT && gk+1==N && r[N]==0);
  ENS("every character is the folded input character", r[W]==FOLD(S[W],LO));
  REACH("end"); }""")]
