"""scores.c / path.c: accumulation of an alignment into a speaker's totals, growth of paths and of the speaker list."""
KI = 'struct PATH_SET_struct'
CNT = dict(corr=1, sub=2, ins=4, **{'del': 8})
UNITS = []
# ---- word and sentence counts
UNITS += [dict(name='add_PATH_score_counts', source='src/sclite/scores.c', functions=['add_PATH_score'], checks='none',
 ghost='int *GC,*GS,*GD,*GN; int W1; extern int _msz_;',
 assumptions=['totals stay within int (about 2e9 words)', 'the speaker list is represented by the speaker being scored and one other', 'memcpy by contract (copies the bytes)', 'every entry of a path carries one of the four labels (contract of extract_NET_ALIGN_result)'],
 loops={'add_PATH_score': {'before': 'GRP OLD;', 'nloops': 1, 'loops': {0: dict(
   inv=['0<=i && i<=path->num',
        'sc->grp[g].corr == OLD.corr + GC[i] && sc->grp[g].sub == OLD.sub + GS[i] && sc->grp[g].del == OLD.del + GD[i] && sc->grp[g].ins == OLD.ins + GN[i]',
        'GC[i]>=0 && GS[i]>=0 && GD[i]>=0 && GN[i]>=0 && GC[i]<=i && GS[i]<=i && GD[i]<=i && GN[i]<=i',
        'err==GS[i]+GD[i]+GN[i]', 'sc->grp[g].nsent==OLD.nsent && sc->grp[g].serr==OLD.serr && sc->grp[g].num_path==OLD.num_path && sc->grp[g].max_path==OLD.max_path && sc->grp[g].merges==OLD.merges && sc->grp[g].splits==OLD.splits'],
   havoc=['{ GRP keep=sc->grp[g]; GRP fresh; fresh.path=keep.path; fresh.name=keep.name; sc->grp[g]=fresh; if (i>=0 && i<path->num) { path->pset[i].a_ptr=malloc(sizeof(WORD)); path->pset[i].b_ptr=malloc(sizeof(WORD)); } }'],
   lemma=['i>=path->num || (GC[i+1]==GC[i]+(path->pset[i].eval==0x01) && GS[i+1]==GS[i]+(path->pset[i].eval==0x02) && GN[i+1]==GN[i]+(path->pset[i].eval==0x04) && GD[i+1]==GD[i]+(path->pset[i].eval==0x08))',
          'i>=path->num || path->pset[i].eval==1||path->pset[i].eval==2||path->pset[i].eval==4||path->pset[i].eval==8'],
   writes=[r'sc->grp\[g\]\.\w+'], calls=['printf'], dec='path->num-i')}}},
 harness=r'''
void malloc_died(int n){ PRE("allocation succeeds", 0); }
int JW; PATH **OP; int NP;
void *memcpy(void *d, const void *s, unsigned long n){ PRE("the kept paths are copied", s==(void*)OP && n==NP*sizeof(PATH*) && n<=__CPROVER_OBJECT_SIZE(d)); ((PATH**)d)[JW]=((PATH**)s)[JW]; return d; }
void harness(void){ SCORES *sc=malloc(sizeof(SCORES)); PATH *p=malloc(sizeof(PATH)); int g=nondet_bool(), w=!g; REQ(sc && p); sc->grp=malloc(2*sizeof(GRP)); REQ(sc->grp!=0);
 int n=nondet_int(); REQ(0<=n && n<1000000); p->num=n; p->pset=malloc(n*sizeof(PATH_SET)); GC=malloc((n+1)*sizeof(int)); GS=malloc((n+1)*sizeof(int)); GD=malloc((n+1)*sizeof(int)); GN=malloc((n+1)*sizeof(int));
 REQ(p->pset && GC && GS && GD && GN); REQ(GC[0]==0 && GS[0]==0 && GD[0]==0 && GN[0]==0);
 GRP *q=&sc->grp[g]; REQ(q->corr>=0 && q->corr<1000000000 && q->sub>=0 && q->sub<1000000000 && q->del>=0 && q->del<1000000000 && q->ins>=0 && q->ins<1000000000 && q->nsent>=0 && q->nsent<1000000000 && q->serr>=0 && q->serr<=q->nsent);
 int np=nondet_int(), mp=nondet_int(); REQ(mp>=2 && mp<10000000 && np>=0 && np<mp); q->num_path=np; q->max_path=mp; q->path=malloc(mp*sizeof(PATH*)); REQ(q->path!=0);
 int j=nondet_int(); REQ(j>=0 && j<np); PATH *pj=q->path[j]; JW=j; OP=q->path; NP=np; int keep=nondet_bool();
 OLD=*q; GRP OW=sc->grp[w];
 add_PATH_score(sc,p,g,keep);
 q=&sc->grp[g];
 ENS("correct words added", q->corr==OLD.corr+GC[n]); ENS("substituted words added", q->sub==OLD.sub+GS[n]); ENS("deleted words added", q->del==OLD.del+GD[n]); ENS("inserted words added", q->ins==OLD.ins+GN[n]);
 ENS("one more sentence", q->nsent==OLD.nsent+1);
 ENS("a sentence in error exactly when one of its words is", q->serr==OLD.serr+((GS[n]+GD[n]+GN[n])>0));
 ENS("no other count changes", q->merges==OLD.merges && q->splits==OLD.splits);
 ENS("the path is kept at the end of the list", !keep ? q->num_path==np : (q->num_path==np+1 && q->path[np]==p));
 ENS("earlier paths stay", q->path[j]==pj);
 ENS("no other speaker changes", sc->grp[w].corr==OW.corr && sc->grp[w].sub==OW.sub && sc->grp[w].del==OW.del && sc->grp[w].ins==OW.ins && sc->grp[w].nsent==OW.nsent && sc->grp[w].serr==OW.serr && sc->grp[w].num_path==OW.num_path);
 if (keep) REACH("kept"); REACH("end");
}''')]
# ---- paths
PP = r'''extern int _msz_; int _msz_; void malloc_died(int n){ PRE("allocation succeeds", 0); }
'''
UNITS += [dict(name='PATH_append', source='src/sclite/path.c', functions=['PATH_append', 'check_space_in_PATH', 'PATH_remove'], checks='mem', assumptions=['paths shorter than 40 million entries'],
 harness=PP + r'''
int JW; PATH_SET *OP; int NP;
void *memcpy(void *d, const void *s, unsigned long n){ PRE("all entries are copied", s==(void*)OP && n==NP*sizeof(PATH_SET) && n<=__CPROVER_OBJECT_SIZE(d)); ((PATH_SET*)d)[JW]=((PATH_SET*)s)[JW]; return d; }
void harness(void){ PATH *p=malloc(sizeof(PATH)); REQ(p!=0); int n=nondet_int(), m=nondet_int(); REQ(m>=5 && m<=40000000 && n>=0 && n<=m); p->num=n; p->max=m; long sz=(long)m; p->pset=malloc(sz*sizeof(PATH_SET)); REQ(p->pset!=0);
 int j=nondet_int(); REQ(j>=0 && j<n); PATH_SET oj=p->pset[j]; JW=j; OP=p->pset; NP=n; void *a=nondet_ptr(), *b=nondet_ptr(); int ev=nondet_int(); REQ(ev>=0 && ev<128);
 PATH_append(p,a,b,ev);
 ENS("one more entry", p->num==n+1 && p->num<=p->max);
 ENS("the entry is the one appended", p->pset[n].a_ptr==a && p->pset[n].b_ptr==b && p->pset[n].eval==ev);
 ENS("earlier entries stay", p->pset[j].a_ptr==oj.a_ptr && p->pset[j].b_ptr==oj.b_ptr && p->pset[j].eval==oj.eval);
 if (n==m) REACH("grown");
 PATH_remove(p); ENS("remove takes the last entry off", p->num==n); REACH("end"); }'''),
dict(name='PATH_alloc', source='src/sclite/path.c', functions=['PATH_alloc'], checks='mem', harness=PP + r'''
void harness(void){ int s=nondet_int(); REQ(s>=0 && s<=40000000); PATH *p=PATH_alloc(s);
 ENS("empty path with room for the requested entries", p->num==0 && p->max>=s && p->max>=1 && __CPROVER_OBJECT_SIZE(p->pset) >= (unsigned long)p->max*sizeof(PATH_SET));
 ENS("no names yet", p->id==0 && p->labels==0 && p->file==0 && p->channel==0 && p->attrib==0); REACH("end"); }''')]
