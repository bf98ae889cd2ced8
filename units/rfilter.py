"""rfilter1: application of the rules, index of the rules."""
G = r'''
extern int len, g0, nz, fired, lsinl; extern long OL, CAP;
extern unsigned char RSIN[1], RL[1], RR[1], ROUT[1]; 
'''
UNITS = []
UNITS.append(dict(name='apply_rules2', source='src/rfilter1/rfilter1.c', incs=['src/rfilter1'], functions=['apply_rules2'], checks='mem', ghost=G, timeout=300, flags=['--sat-solver', 'cadical'],
  assumptions=['the rule index is as unit get_rules2_index establishes it: positions first..last of a key character lie in the table and name rules', 'strncmp/strncasecmp/strcat/strlen by contract', 'input lines below 1,000,000 bytes, rule outputs up to 256 bytes and an output buffer of 256 bytes per input byte plus one', 'db_level is 0 (no debugging output)'],
  loops={'apply_rules2': dict(nloops=2, loops={
   0: dict(inv=['pi>=pa && pi<=pa+len', 'OL>=0 && OL<=256*(pi-pa)', '*perr==0'],
       ghost_entry='', havoc=['{ int p_=nondet_int(); __CPROVER_assume(p_>=0 && p_<=len); pi=pa+p_; g0=p_; __CPROVER_assume((*pi==0)==(p_==len)); OL=nondet_long(); } fired=0; pb=PB; __CPROVER_havoc_object(PB);'],
       ghost_step=['__CPROVER_assert(fired ? pi==pa+g0+lsinl : pi==pa+g0+1,"apply_rules2: the cursor moves past the match, or by one character")',
                   '__CPROVER_assert(fired || !rset->copy_no_hit || (pb[OL]==pa[g0] && pb[OL+1]==0),"apply_rules2: a character no rule matches is copied")', '(!fired && rset->copy_no_hit) ? OL++ : 0'],
       calls=['strcmp', 'strncmp', 'strncasecmp', 'strcat', 'strlen', 'printf', 'bool_print', 'toupper', '__ctype_toupper_loc'], writes=[r'\*pbx', r'\*\(\+\+pbx\)', r'rset->rule\[irule\]\.val1', r'\*pb\b.*'], dec='len-(pi-pa)'),
   1: dict(inv=['hit==0 || hit==1', 'hit==(nz==3)', 'hit==fired', 'fired ? pi==pa+g0+lsinl : pi==pa+g0', 'lsinl>=1 && g0+lsinl<=len || !fired', 'fired || OL==__ol', '!fired || (OL<=__ol+256 && OL>=0)', '!hit || jrule>rset->first_rule[key_char]'],
       ghost_entry='long __ol=OL; nz=0;', havoc=['fired=nondet_bool(); nz=nondet_int(); lsinl=nondet_int(); OL=nondet_long(); __CPROVER_assume(lsinl>=1 && lsinl<=len); pb=PB; pi = fired ? pa+g0+lsinl : pa+g0; { int f_=rset->first_rule[key_char], l_=rset->last_rule[key_char]; __CPROVER_assume(l_<f_ || (f_>=1 && l_<=rset->nrules)); __CPROVER_assume(jrule>=f_); if (jrule<=l_) { int r_=rset->rule_index[jrule]; __CPROVER_assume(r_>=1 && r_<=rset->nrules); rset->rule[r_].sin=RSIN; rset->rule[r_].lcontext=RL; rset->rule[r_].rcontext=RR; rset->rule[r_].sout=ROUT; __CPROVER_assume(rset->rule[r_].sinl>=1 && rset->rule[r_].lcontextl>=0 && rset->rule[r_].lcontextl<1000 && rset->rule[r_].rcontextl>=0 && rset->rule[r_].soutl>=0 && rset->rule[r_].soutl<=256); SINL=rset->rule[r_].sinl; LCL=rset->rule[r_].lcontextl; RCL=rset->rule[r_].rcontextl; SOL=rset->rule[r_].soutl; } }'],
       calls=['strcmp', 'strncmp', 'strncasecmp', 'strcat', 'printf', 'bool_print'], writes=[r'rset->rule\[irule\]\.val1'], dec='rset->last_rule[key_char]+1-jrule'),
  }, before='extern int SINL, LCL, RCL, SOL; extern unsigned char *PA, *PB;')},
  harness=r'''
int len, g0, nz, fired, lsinl, SINL, LCL, RCL, SOL, CS; long OL, CAP; unsigned char RSIN[1], RL[1], RR[1], ROUT[1], *PA, *PB;
static int cmpn(unsigned char *a, unsigned char *b, unsigned long n){
  if (b==RSIN) { nz=0; PRE("the match is tried at the cursor", a==PA+g0 && n==SINL); if (nondet_bool()) { REQ(g0+SINL<=len); nz=1; return 0; } return 1; }
  if (b==RL) { PRE("the left context lies in the line and ends at the cursor", nz==1 && LCL<=g0 && a==PA+g0-LCL && n==LCL); if (nondet_bool()) { nz=2; return 0; } return 1; }
  PRE("the right context starts behind the match", nz==2 && b==RR && a==PA+g0+SINL && n==RCL); if (nondet_bool()) { nz=3; return 0; } return 1; }
int strncmp(const char *a, const char *b, unsigned long n){ PRE("case matters", CS); return cmpn((unsigned char*)a,(unsigned char*)b,n); }
int strncasecmp(const char *a, const char *b, unsigned long n){ PRE("case does not matter", !CS); return cmpn((unsigned char*)a,(unsigned char*)b,n); }
int strcmp(const char *a, const char *b){ return 0; }
unsigned long strlen(const char *s){ PRE("length of the output", (unsigned char*)s==PB); return OL; }
char *strcat(char *d, const char *s){ PRE("a rule is applied only when it and both contexts match", nz==3 && !fired); PRE("its output is appended to the output line", (unsigned char*)d==PB && (unsigned char*)s==ROUT); PRE("the output has room", OL+SOL<CAP); OL+=SOL; fired=1; lsinl=SINL; return d; }
char *strcpy(char *d, const char *s){ return d; }
int toupper(int c){ int r=nondet_int(); REQ(r>=0 && r<=255); return r; }
void harness(void){ RULESET2 rs, *rset=&rs; long n=nondet_long(), L=nondet_long(); len=nondet_int(); REQ(len>=0 && len<1000000 && L==(long)len); int nr=nondet_int(); REQ(nr>=0 && nr<1000000 && n==(long)nr+1);
  unsigned char *pa=malloc(L+1); REQ(pa!=0); PA=pa; CAP=256*L+1; unsigned char *pb=malloc(CAP+1); REQ(pb!=0); PB=pb; 
   rs.nrules=nr; rs.rule=malloc(n*sizeof(RULE2)); rs.rule_index=malloc(n*sizeof(int)); rs.first_rule=malloc(257*sizeof(int)); rs.last_rule=malloc(257*sizeof(int)); rs.format=RSIN; REQ(rs.rule && rs.rule_index && rs.first_rule && rs.last_rule);
  CS=rs.case_sensitive!=0; db_level=0; OL=0; g0=0; fired=0; nz=0; int err=7;
  unsigned char *r=apply_rules2(pb,pa,rset,&err);
  ENS("no error, the output line is returned", err==0 && r==pb); ENS("the output fits", OL<CAP);
  REACH("end"); }'''))
