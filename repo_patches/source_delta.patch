From 0a3ab1b66ec7d82c923b5d1f0e5ec52a96ac4f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:27 +0000
Subject: [PATCH 01/30] fix: drop the right speakers from the summary
 statistics when several have no reference words

---
 src/sclite/scores.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sclite/scores.c b/src/sclite/scores.c
index 01e194c..a7d2e34 100644
--- a/src/sclite/scores.c
+++ b/src/sclite/scores.c
@@ -1382,7 +1382,8 @@ void print_system_summary(SCORES *sc, char *sys_root_name, int do_sm, int do_raw
     /* added by Brett to compute mean, variance, and standard dev */
     if (Zero_spkr > 0) {
       /* remove any speakers data if word_num_arr[spkr] is 0 */
-      for (spkr=0; spkr<sc->num_grp; spkr++){
+      /* (from the last speaker down: a shift moves only data already scanned) */
+      for (spkr=sc->num_grp-1; spkr>=0; spkr--){
 	if (word_num_arr[spkr] == 0) {
 	  int s2;
 	  /* shift up the speakers data to fill this one */
-- 
2.43.0


From 1ca042e425934fc08fec5bc48f8978a2d6b398eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:46 +0000
Subject: [PATCH 02/30] fix: write a reloadable weight_filename attribute in
 sgml output of weighted alignments

---
 src/sclite/scores.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sclite/scores.c b/src/sclite/scores.c
index a7d2e34..63722af 100644
--- a/src/sclite/scores.c
+++ b/src/sclite/scores.c
@@ -164,7 +164,14 @@ void dump_SCORES_sgml(SCORES *sc, FILE *fp, TEXT *token_separator, TEXT *token_a
     fprintf(fp," frag_corr=\"%s\"", sc->frag_corr ? "TRUE" : "FALSE");
     fprintf(fp," opt_del=\"%s\"", sc->opt_del ? "TRUE" : "FALSE");
     fprintf(fp," weight_ali=\"%s\"", sc->weight_ali ? "TRUE" : "FALSE");
-    fprintf(fp," weight_filename=\"%s\"", sc->weight_ali ? sc->weight_file : "");
+    /* an attribute value can not hold a double quote, write it as a single one */
+    fprintf(fp," weight_filename=\"");
+    if (sc->weight_ali){
+	char *wf;
+	for (wf = sc->weight_file; *wf != '\0'; wf++)
+	    fputc((*wf == '"') ? '\'' : *wf, fp);
+    }
+    fprintf(fp,"\"");
     fprintf(fp,">\n");
 
     for (i=0; i<sc->aset.num_plab; i++)
-- 
2.43.0


From 22db30242dd075b5ae7b5ffd65eb261f73426636 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 01:05:41 +0000
Subject: [PATCH 03/30] fix: size the token buffers of network construction
 from the text

Words and alternations of 10000 bytes or more overran the fixed token
array by one byte or were dropped and cut into pieces.
---
 src/sclite/net_adt.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/sclite/net_adt.c b/src/sclite/net_adt.c
index 9cb76ac..a9edc5d 100644
--- a/src/sclite/net_adt.c
+++ b/src/sclite/net_adt.c
@@ -10,7 +10,6 @@ static void set_node_flag1_to_outarc_count(NODE *node, void *ptr);
 void recursive_connect(NETWORK *net, int connect_factor, void *(*append)(void *, void *), int (*test)(void *, void *), void *test_data, ARC *base_arc, ARC *cur_arc, void *value);
 void find_null_arcs(ARC *arc, void *ptr);
 
-#define MAXSTRING 10000
 
 int Network_add_arc_to_head(NETWORK *net, void *str){
     char *proc="Network_add_arc_to_head";
@@ -471,7 +470,8 @@ NETWORK *Network_create_from_TEXT(TEXT *text, char *name, void (*aprn)(void *),
     NETWORK *net;
     WORD *tword = NULL_WORD;          /* temp storage getting new words */
     TEXT *ctext = text,               /* current position is text string */
-         token[MAXSTRING];                  /* temp storage for tokens */
+         *token;                      /* temp storage for tokens */
+    int token_len = TEXT_strlen(text);  /* no token is longer than the text */
 
     if (db >= 1) printf("Entering: %s\n",proc);
     if (db >= 2) printf("    function args: text='%s'\n",text);
@@ -482,8 +482,9 @@ NETWORK *Network_create_from_TEXT(TEXT *text, char *name, void (*aprn)(void *),
     net = Network_init(aprn,aequal,adestroy,is_null_alt,
 		       is_opt_del, copy,make_empty,use_count,name);
 
+    alloc_singZ(token,token_len + 1,TEXT,NULL_TEXT);
     while (! end_of_TEXT(*ctext)) {
-	if (find_next_TEXT_token(&ctext,token,MAXSTRING)) {	
+	if (find_next_TEXT_token(&ctext,token,token_len)) {	
 	    if (db > 5) printf("    Token: '%s', ctext: %s\n",token,ctext);
 	    /* create new word structure */
 	    
@@ -492,10 +493,12 @@ NETWORK *Network_create_from_TEXT(TEXT *text, char *name, void (*aprn)(void *),
 	    if (Network_add_arc_to_tail(net,(void *)tword) > 0){
 		fprintf(stderr,"Error: Network_add_arc_to_tail failed in %s\n",
 			proc);
+		free_singarr(token,TEXT);
 		return(NULL_NETWORK);
 	    }
 	}
     }
+    free_singarr(token,TEXT);
     Network_traverse(net,NULL,0,expand_alternates,0,0);
 
     return(net);
@@ -956,9 +959,9 @@ static void change_node_name(NODE *node, void *ptr){
 static void expand_alternates(ARC *arc, void *ptr){
     char *proc = "expand_alternates";
     WORD *tw = (WORD *)(arc->data);
-    TEXT *ctext, *p, token[MAXSTRING], *p1;
+    TEXT *ctext, *p, *token, *p1;
     NETWORK *subnet, *subnet2=NULL_NETWORK;
-    int first=1;
+    int first=1, token_len;
     char buf[20];
     static int alt=1;
 
@@ -972,9 +975,11 @@ static void expand_alternates(ARC *arc, void *ptr){
 	p = ctext = TEXT_strdup(tw->value+1);
 	if ((p1 = TEXT_strrchr(p,'}')) != NULL)
 	    *p1 = NULL_TEXT;
+	token_len = TEXT_strlen(p);
+	alloc_singZ(token,token_len + 1,TEXT,NULL_TEXT);
 	
 	while (! end_of_TEXT(*p)) {
-	    if (find_next_TEXT_alternation(&p,token,MAXSTRING)) {
+	    if (find_next_TEXT_alternation(&p,token,token_len)) {
 		if (db >= 5)printf("    Token: '%s'\n",token);
 		sprintf(buf,"Alt-net %d",alt);
 		subnet = Network_create_from_TEXT(token, buf,
@@ -1012,6 +1017,7 @@ static void expand_alternates(ARC *arc, void *ptr){
 	    }
 	}
 	TEXT_free(ctext);
+	free_singarr(token,TEXT);
 
 	if (db >= 10){
 	    printf("Network After Merge\n");
-- 
2.43.0


From 510fc0d065f9dd8f0e25fbda6c209f3b022fd4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:41 +0000
Subject: [PATCH 04/30] fix: print long words in alignments without reading
 outside the filler string or looping forever

A word of more than 40 bytes opposite nothing made PATH_n_print read before
the string of asterisks; a word wider than the line never advanced.
---
 src/sclite/path.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sclite/path.c b/src/sclite/path.c
index 13fab30..a043302 100644
--- a/src/sclite/path.c
+++ b/src/sclite/path.c
@@ -133,7 +133,7 @@ void PATH_n_print(PATH *path, FILE *fp, int from, int to, int max){
 
 	}
 	if (used > 0) fprintf(fp,"\n");
-	endpass = i - ((i < to) ? 1 : 0);
+	endpass = i - ((i < to && i > used + 1) ? 1 : 0);
 
 	for (line=0; line<11; line++){
 	    switch(line) {
@@ -201,7 +201,7 @@ void PATH_n_print(PATH *path, FILE *fp, int from, int to, int max){
 		  case 0: {
 		      sprintf(fmt,"%%-%ds ",wmax);
 		      if (astr == aster) 
-			  astr = aster + (alen - lenb);
+			  astr = aster + ((lenb < alen) ? alen - lenb : 0);
 		      else {
 			  if (BF_notSET(path->attrib,PA_CASE_SENSE) &&
 			      path->pset[i].eval != P_CORR) {
@@ -238,7 +238,7 @@ void PATH_n_print(PATH *path, FILE *fp, int from, int to, int max){
 		  case 4: {	
 		      sprintf(fmt,"%%-%ds ",wmax);
 		      if (bstr == aster) 
-			  bstr = aster + (alen - lena);
+			  bstr = aster + ((lena < alen) ? alen - lena : 0);
 		      else {
 			  if (BF_notSET(path->attrib,PA_CASE_SENSE) &&
 			      path->pset[i].eval != P_CORR){
@@ -386,7 +386,7 @@ void PATH_n_print_html(PATH *path, FILE *fp, int from, int to, int max, int head
 
 	}
 	if (used > 0) fprintf(fp,"\n");
-	endpass = i - ((i < to) ? 1 : 0);
+	endpass = i - ((i < to && i > used + 1) ? 1 : 0);
 
 	fprintf(fp,"<TABLE CELLSPACING=0 CELLPADDING=1>\n");
 
@@ -468,7 +468,7 @@ void PATH_n_print_html(PATH *path, FILE *fp, int from, int to, int max, int head
 		  case 0: {
 		      sprintf(fmt,"<TD>%%-%ds</TD>",wmax);
 		      if (astr == aster) 
-			  astr = aster + (alen - lenb);
+			  astr = aster + ((lenb < alen) ? alen - lenb : 0);
 		      else {
 			  if (BF_notSET(path->attrib,PA_CASE_SENSE) &&
 			      path->pset[i].eval != P_CORR) {
@@ -501,7 +501,7 @@ void PATH_n_print_html(PATH *path, FILE *fp, int from, int to, int max, int head
 		  case 4: {	
 		      sprintf(fmt,"<TD>%%s</TD>");
 		      if (bstr == aster) 
-			  bstr = aster + (alen - lena);
+			  bstr = aster + ((lena < alen) ? alen - lena : 0);
 		      else {
 			  if (BF_notSET(path->attrib,PA_CASE_SENSE) &&
 			      path->pset[i].eval != P_CORR){
-- 
2.43.0


From 276b3e63c6e890f4f794aebbac427d2e2deb93c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:41 +0000
Subject: [PATCH 05/30] fix: grow the word buffers of the sgml writer

Words of 1000 bytes or more overran the stack buffers of dump_SCORES_sgml.
---
 src/sclite/scores.c | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/sclite/scores.c b/src/sclite/scores.c
index 63722af..2d26c00 100644
--- a/src/sclite/scores.c
+++ b/src/sclite/scores.c
@@ -136,7 +136,17 @@ void dump_SCORES_alignments(SCORES *sc, FILE *fp, int lw, int full){
     fprintf(fp,"\n");
 }
 
-TEXT *formatWordForSGML(WORD *word, TEXT *buffer){
+TEXT *formatWordForSGML(WORD *word, TEXT **buf, int *buf_len){
+  TEXT *buffer;
+  /* escaping at most doubles a string, two separators and the terminator are added */
+  int need = 2 * (TEXT_strlen(word->value) +
+		  ((word->tag1 != (TEXT *)0) ? TEXT_strlen(word->tag1) : 0) +
+		  ((word->tag2 != (TEXT *)0) ? TEXT_strlen(word->tag2) : 0)) + 3;
+
+  if (need > *buf_len){
+    expand_singarr_to_size((*buf),0,(*buf_len),need,TEXT);
+  }
+  buffer = *buf;
   TEXT_strcpy_escaped(buffer, word->value, WORD_SGML_SUB_WORD_SEP_CHR);
 
   if (word->tag1 == (TEXT *)0 && word->tag2 == (TEXT *)0)
@@ -153,8 +163,11 @@ TEXT *formatWordForSGML(WORD *word, TEXT *buffer){
 
 void dump_SCORES_sgml(SCORES *sc, FILE *fp, TEXT *token_separator, TEXT *token_attribute_separator){
     int i, p, w;
-    TEXT bufA[1000];
-    TEXT bufB[1000];
+    TEXT *bufA, *bufB;
+    int bufA_len=1000, bufB_len=1000;
+
+    alloc_singZ(bufA,bufA_len,TEXT,NULL_TEXT);
+    alloc_singZ(bufB,bufB_len,TEXT,NULL_TEXT);
 
     fprintf(fp,"<SYSTEM title=\"%s\"",sc->title);
     fprintf(fp," ref_fname=\"%s\"",sc->ref_fname);
@@ -263,26 +276,26 @@ void dump_SCORES_sgml(SCORES *sc, FILE *fp, TEXT *token_separator, TEXT *token_a
 	    for (w=0; w<path->num; w++) {
 		if (path->pset[w].eval == P_INS)
 		  fprintf(fp,"I%s%s\"%s\"", token_attribute_separator, token_attribute_separator, 
-			  formatWordForSGML((WORD *)path->pset[w].b_ptr, bufB));
+			  formatWordForSGML((WORD *)path->pset[w].b_ptr, &bufB, &bufB_len));
 		else if (path->pset[w].eval == P_DEL)
 		    fprintf(fp,"D%s\"%s\"%s",token_attribute_separator, 
-			    formatWordForSGML((WORD *)path->pset[w].a_ptr, bufA),
+			    formatWordForSGML((WORD *)path->pset[w].a_ptr, &bufA, &bufA_len),
 			    token_attribute_separator);
 		else if (path->pset[w].eval == P_CORR)
 		    fprintf(fp,"C%s\"%s\"%s\"%s\"",
 			    token_attribute_separator, 
-			    formatWordForSGML((WORD *)path->pset[w].a_ptr, bufA),
+			    formatWordForSGML((WORD *)path->pset[w].a_ptr, &bufA, &bufA_len),
 			    token_attribute_separator, 
-			    formatWordForSGML((WORD *)path->pset[w].b_ptr, bufB));
+			    formatWordForSGML((WORD *)path->pset[w].b_ptr, &bufB, &bufB_len));
 		else {
 		    fprintf(fp,"%c%s\"%s\"%s\"%s\"",			    
 			    ((path->pset[w].eval == P_SUB) ? 'S' :
 			     ((path->pset[w].eval == P_MRG) ? 'M' : 
 			      ((path->pset[w].eval == P_SPL) ? 'T' : 'U'))),
 			    token_attribute_separator, 
-			    formatWordForSGML((WORD *)path->pset[w].a_ptr, bufA),
+			    formatWordForSGML((WORD *)path->pset[w].a_ptr, &bufA, &bufA_len),
 			    token_attribute_separator, 
-		            formatWordForSGML((WORD *)path->pset[w].b_ptr, bufB));
+		            formatWordForSGML((WORD *)path->pset[w].b_ptr, &bufB, &bufB_len));
 		}
 		/* Extra attributes */
 		if (BF_isSET(path->attrib,PA_REF_WTIMES)){
@@ -343,6 +356,8 @@ void dump_SCORES_sgml(SCORES *sc, FILE *fp, TEXT *token_separator, TEXT *token_a
     }
 
     fprintf(fp,"</SYSTEM>\n");
+    free_singarr(bufA,TEXT);
+    free_singarr(bufB,TEXT);
 }
  
 int load_SCORES_sgml(FILE *fp, SCORES **scor, int *nscor, int maxn)
-- 
2.43.0


From 89b996768ba80cdb77e1a3f7d40d0f446d1ab594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:37 +0000
Subject: [PATCH 06/30] fix: keep the last line of an input file that has no
 final newline

The readers stop at feof(), so a transcript whose last line lacked the
newline silently lost its last utterance.
---
 src/sclite/text.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sclite/text.c b/src/sclite/text.c
index af34db0..1138e16 100644
--- a/src/sclite/text.c
+++ b/src/sclite/text.c
@@ -1240,16 +1240,21 @@ TEXT *TEXT_ensure_fgets(TEXT **arr, int *len, FILE *fp){
     tc = *arr;
     tc = TEXT_strlen(*arr) + *arr;
     while (*(tc-1) != '\n'){
-	if ((tc - *arr) < *len-1)
+	if ((tc - *arr) < *len-1) {
+	    /* a last line without newline: the next read reports the end */
+	    clearerr(fp);
 	    return(*arr);
+	}
 	/* Alloc some data, and re-read */
 	alloc_singarr(xp,*len * 2,TEXT);
 
 	strcpy((char *)xp,(char *)*arr);
 	free_singarr(*arr,TEXT);
 	*arr = xp;
-	if (fgets((char *)(*arr + *len - 1),*len+1,fp) == NULL)
+	if (fgets((char *)(*arr + *len - 1),*len+1,fp) == NULL) {
+	    clearerr(fp);
 	    return(*arr);
+	}
 	*len *= 2;
 	tc = TEXT_strlen(*arr) + *arr;
     }
-- 
2.43.0


From 3ae0d92a1bb10984a9981d52b3758907bb39854d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:12 +0000
Subject: [PATCH 07/30] fix: read ctm fields of any length

A ctm field of 500 bytes or more was cut and its terminator written one
byte past the buffer.
---
 src/sclite/fillmrks.c | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/sclite/fillmrks.c b/src/sclite/fillmrks.c
index f006d64..ecd8c09 100644
--- a/src/sclite/fillmrks.c
+++ b/src/sclite/fillmrks.c
@@ -66,6 +66,7 @@ void fill_WTOKE_structure(WTOKE_STR1 *ctm_segs, FILE *fp_ctm, char *ctm_file, in
    static int in_buf_len = 2000;
        /* sxx[LINE_LENGTH], *sx    = &sxx[0];*/
    char *xconv, *xconf, *xsp, *side, *s2, *s3, *xcorr;
+   int field_len = LINE_LENGTH;        /* room for a field of field_len bytes */
    double xt1, xdur;
    char comment_char = ';';
    boolean in_overlap, in_comment, in_unsure, in_mispron, in_crosstalk;
@@ -73,13 +74,13 @@ void fill_WTOKE_structure(WTOKE_STR1 *ctm_segs, FILE *fp_ctm, char *ctm_file, in
 /* code: */
 db_enter_msg(proc,0); /* debug only */
 
-   alloc_singarr(xconv,LINE_LENGTH,char);
-   alloc_singarr(xconf,LINE_LENGTH,char);
-   alloc_singarr(xcorr,LINE_LENGTH,char);
-   alloc_singarr(xsp,LINE_LENGTH,char);
-   alloc_singarr(side,LINE_LENGTH,char);
-   alloc_singarr(s2,LINE_LENGTH,char);
-   alloc_singarr(s3,LINE_LENGTH,char);
+   alloc_singarr(xconv,field_len+1,char);
+   alloc_singarr(xconf,field_len+1,char);
+   alloc_singarr(xcorr,field_len+1,char);
+   alloc_singarr(xsp,field_len+1,char);
+   alloc_singarr(side,field_len+1,char);
+   alloc_singarr(s2,field_len+1,char);
+   alloc_singarr(s3,field_len+1,char);
    
    /* allocate memory for the input buffer */
    alloc_singZ(in_buf,in_buf_len,TEXT,(TEXT)0);
@@ -115,6 +116,17 @@ db_enter_msg(proc,0); /* debug only */
    gets_rtn = NULL;
    while (n < word_tokens->max-1 && 
 	  (gets_rtn = TEXT_ensure_fgets(&in_buf, &in_buf_len,fp)) != NULL){
+       if (in_buf_len > field_len){
+	   /* no field is longer than the line */
+	   field_len = in_buf_len;
+	   free_singarr(xconv,char);  alloc_singarr(xconv,field_len+1,char);
+	   free_singarr(xconf,char);  alloc_singarr(xconf,field_len+1,char);
+	   free_singarr(xcorr,char);  alloc_singarr(xcorr,field_len+1,char);
+	   free_singarr(xsp,char);    alloc_singarr(xsp,field_len+1,char);
+	   free_singarr(side,char);   alloc_singarr(side,field_len+1,char);
+	   free_singarr(s2,char);     alloc_singarr(s2,field_len+1,char);
+	   free_singarr(s3,char);     alloc_singarr(s3,field_len+1,char);
+       }
        if (*in_buf != (unsigned char)comment_char){
 	   if (!case_sense)
 	       TEXT_str_case_change_with_mem_expand(&in_buf, &in_buf_len, 1);
@@ -131,19 +143,19 @@ db_enter_msg(proc,0); /* debug only */
 	     rp = TEXT_strtok((TEXT *)in_buf + TEXT_strspn(in_buf,
 							   (TEXT*)" \t"),
 			      (TEXT *)" \t\n");
-	       TEXT_strBcpy((TEXT *)xconv,rp,LINE_LENGTH);
+	       TEXT_strBcpy((TEXT *)xconv,rp,field_len);
 	       rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n");
-	       TEXT_strBcpy((TEXT *)side,rp,LINE_LENGTH);
+	       TEXT_strBcpy((TEXT *)side,rp,field_len);
 	       rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n");
-	       TEXT_strBcpy((TEXT *)s2,rp,LINE_LENGTH);
+	       TEXT_strBcpy((TEXT *)s2,rp,field_len);
 	       rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n"); 
-	       TEXT_strBcpy((TEXT *)s3,rp,LINE_LENGTH);
+	       TEXT_strBcpy((TEXT *)s3,rp,field_len);
 	       rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n");
-	       TEXT_strBcpy((TEXT *)xsp,rp,LINE_LENGTH);
+	       TEXT_strBcpy((TEXT *)xsp,rp,field_len);
 	       if ((rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n")) != NULL){
-		 TEXT_strBcpy((TEXT *)xconf,rp,LINE_LENGTH);
+		 TEXT_strBcpy((TEXT *)xconf,rp,field_len);
 		 if ((rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n")) != NULL){
-		   TEXT_strBcpy((TEXT *)xcorr,rp,LINE_LENGTH);
+		   TEXT_strBcpy((TEXT *)xcorr,rp,field_len);
 		 }
 	       }
 	   }	    
-- 
2.43.0


From 23614ee1a080373de062788991210fe2068175af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:22 +0000
Subject: [PATCH 08/30] fix: ignore blank lines in ctm files

---
 src/sclite/fillmrks.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/fillmrks.c b/src/sclite/fillmrks.c
index ecd8c09..858e22e 100644
--- a/src/sclite/fillmrks.c
+++ b/src/sclite/fillmrks.c
@@ -127,7 +127,7 @@ db_enter_msg(proc,0); /* debug only */
 	   free_singarr(s2,char);     alloc_singarr(s2,field_len+1,char);
 	   free_singarr(s3,char);     alloc_singarr(s3,field_len+1,char);
        }
-       if (*in_buf != (unsigned char)comment_char){
+       if (*in_buf != (unsigned char)comment_char && !TEXT_is_empty(in_buf)){
 	   if (!case_sense)
 	       TEXT_str_case_change_with_mem_expand(&in_buf, &in_buf_len, 1);
 	   n += 1;
-- 
2.43.0


From 080347b6508e9bf326a8abc386f40432b2967bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:22 +0000
Subject: [PATCH 09/30] fix: keep the words after an empty alternative of a ctm
 alternation

---
 src/sclite/net_adt.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/sclite/net_adt.c b/src/sclite/net_adt.c
index a9edc5d..bc9d2d1 100644
--- a/src/sclite/net_adt.c
+++ b/src/sclite/net_adt.c
@@ -677,7 +677,7 @@ NETWORK *Network_create_from_WTOKE(WTOKE_STR1 *wt,int start,int end, char *name,
     for (i=start; (i<=wt->n)&&(i<=end); i++){
 	if ((!wt->word[i].ignore) && wt->word[i].alternate) {
 	    NETWORK *alt_net, *alt_net_out=NULL_NETWORK;
-	    int first_alt=1, acnt;
+	    int first_alt=1, acnt, more_alts;
 
 	    /* skip the ALT_BEGIN */
 	    for (; (i<=wt->n) && (i<=end) &&
@@ -729,7 +729,6 @@ NETWORK *Network_create_from_WTOKE(WTOKE_STR1 *wt,int start,int end, char *name,
 			fprintf(stderr,"failed in %s\n",proc);
 			return(NULL_NETWORK);
 		    }
-		    i++;
 		}
 		if (first_alt)
 		    alt_net_out = alt_net;
@@ -739,13 +738,12 @@ NETWORK *Network_create_from_WTOKE(WTOKE_STR1 *wt,int start,int end, char *name,
 					  alt_net_out->stop_node,alt_net);
 		}
 	        first_alt = 0;
-		if (TEXT_strcasecmp((TEXT*)"<ALT>",wt->word[i].sp) == 0 &&
-		    TEXT_strcasecmp((TEXT*)"<ALT_END>",wt->word[i+1].sp) == 0)
-		    ;
-		else if (TEXT_strcasecmp((TEXT*)"<ALT_END>",wt->word[i].sp)!=0)
-		    i++;
-	    } while ((i<=wt->n) && (i<=end) &&
-		     (TEXT_strcasecmp((TEXT*)"<ALT_END>",wt->word[i].sp)!= 0));
+		/* another alternative follows only an <ALT> */
+		more_alts = ((i<=wt->n) && (i<=end) &&
+			     (TEXT_strcasecmp((TEXT*)"<ALT>",
+					      wt->word[i].sp) == 0));
+		if (more_alts) i++;
+	    } while (more_alts);
 
 	    if (alt_net_out == (NETWORK *)0){
 		fprintf(stderr,"Error: %s failed to produce a network for "
-- 
2.43.0


From dc0685f839809620a7e6a1f535201190b442d13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:22 +0000
Subject: [PATCH 10/30] fix: ignore the end mark of an ignored ctm alternation
 (-m hyp)

---
 src/sclite/stm2ctm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sclite/stm2ctm.c b/src/sclite/stm2ctm.c
index 1ca29ef..eabbb0f 100644
--- a/src/sclite/stm2ctm.c
+++ b/src/sclite/stm2ctm.c
@@ -98,6 +98,9 @@ static int align_one_channel(SCORES *scor, int chan, WTOKE_STR1 *hyp_segs, STM *
 		      TEXT_strcasecmp((TEXT *)"<ALT_END>",
 				      hyp_segs->word[yy].sp) != 0); yy++)
 		    hyp_segs->word[yy].ignore= (usable > 0) ? FALSE : TRUE;
+		/* the <ALT_END> goes with its alternate */
+		if (yy <= h_end)
+		    hyp_segs->word[yy].ignore= (usable > 0) ? FALSE : TRUE;
 	    }
 	}
 	for (xx = h_st; xx <= h_end; xx++)
-- 
2.43.0


From a4291bebeab0a28ae4df608e9bea52647412be61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:22 +0000
Subject: [PATCH 11/30] fix: score a last channel of one word in ctm to ctm
 alignments

---
 src/sclite/ctm2ctm.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sclite/ctm2ctm.c b/src/sclite/ctm2ctm.c
index 2fe74b6..0ff43e9 100644
--- a/src/sclite/ctm2ctm.c
+++ b/src/sclite/ctm2ctm.c
@@ -64,13 +64,13 @@ SCORES *align_ctm_to_ctm(char *hyp_file, char *ref_file, char *set_title, int fe
 	fill_WTOKE_structure(hyp, fp_hyp, hyp_file, &hyp_eof, case_sense);
 	fill_WTOKE_structure(ref, fp_ref, ref_file, &ref_eof, case_sense);
 	
-	if ((hyp->n < hyp->s) && (ref->n > ref->s)) {
+	if ((hyp->n < hyp->s) && (ref->n >= ref->s)) {
 	  fprintf(stderr,"Error: premature EOF in hyp file '%s' at conv"
 		  "ersation '%s' of ref file '%s'\n",hyp_file,
 		  ref->word[ref->s].conv,ref_file);
 	  exit(1);
 	}
-	if ((hyp->n > hyp->s) && (ref->n < ref->s)) {
+	if ((hyp->n >= hyp->s) && (ref->n < ref->s)) {
 	  fprintf(stderr,"Error: premature EOF in ref file '%s' at conv"
 		  "ersation '%s' of hyp file '%s'\n",ref_file,
 		  hyp->word[hyp->s].conv,hyp_file);
@@ -96,12 +96,12 @@ SCORES *align_ctm_to_ctm(char *hyp_file, char *ref_file, char *set_title, int fe
 
 	number_of_channels = 1;
 	hyp_end_chan2 = ref_end_chan2 = -1;
-	if (ref_end_chan1+1 < ref->n &&
+	if (ref_end_chan1+1 <= ref->n &&
 	    strcmp(ref->word[ref->s].conv,ref->word[ref_end_chan1+1].conv)==0){
 	    locate_boundary(ref, ref_end_chan1+1, TRUE, TRUE, &ref_end_chan2);
 	    number_of_channels = 2;
 	}
-	if (hyp_end_chan1+1 < hyp->n &&
+	if (hyp_end_chan1+1 <= hyp->n &&
 	    strcmp(hyp->word[hyp->s].conv,hyp->word[hyp_end_chan1+1].conv)==0){
 	    locate_boundary(hyp, hyp_end_chan1+1, TRUE, TRUE, &hyp_end_chan2);
 	    number_of_channels = 2;
-- 
2.43.0


From 3ee28037284ad23eacaa556505bcd1d2907f9635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:15 +0000
Subject: [PATCH 12/30] fix: rover: do not lose a last channel that holds a
 single word

The input was taken as exhausted while its last word token was still
unread (s < n instead of s <= n), so a final file/channel with exactly
one word in every input was never aligned nor written.
---
 src/sclite/mfa.c   | 2 +-
 src/sclite/rover.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sclite/mfa.c b/src/sclite/mfa.c
index 13b3dec..5435f81 100644
--- a/src/sclite/mfa.c
+++ b/src/sclite/mfa.c
@@ -80,7 +80,7 @@ void mfalign_ctm_files(char **hypname, int nhyps, int time_align, int case_sense
 	    for (in=0; in < nhyps; in++){
 		ctms[in]->s = sil_end[in] + 
 		    ((sil_end[in] <= conv_end[in]) ? 1 : 0);
-		if (!eofs[in] || (ctms[in]->s < ctms[in]->n)) done = 0;
+		if (!eofs[in] || (ctms[in]->s <= ctms[in]->n)) done = 0;
 	    }
 	}
     }
diff --git a/src/sclite/rover.c b/src/sclite/rover.c
index 3bd15f4..2ee0316 100644
--- a/src/sclite/rover.c
+++ b/src/sclite/rover.c
@@ -183,7 +183,7 @@ void mfalign_ctm_files_v1(char **hypname, int nhyps, int time_align, int case_se
 	    for (in=0; in < nhyps; in++){
 		ctms[in]->s = sil_end[in] + 
 		    ((sil_end[in] <= conv_end[in]) ? 1 : 0);
-		if (!eofs[in] || (ctms[in]->s < ctms[in]->n)) done = 0;
+		if (!eofs[in] || (ctms[in]->s <= ctms[in]->n)) done = 0;
 	    }
 	}
     }
-- 
2.43.0


From d371611af0de2eaabca4127809e6b969e7cc2e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:16 +0000
Subject: [PATCH 13/30] fix: rover: avgconf on a set whose confidences sum to
 zero

0/0 made every score NaN, no word was selected and rover exited with
'No best word found', even with -a 1.0 where confidences do not matter.
---
 src/sclite/rover.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sclite/rover.c b/src/sclite/rover.c
index 2ee0316..a910fe1 100644
--- a/src/sclite/rover.c
+++ b/src/sclite/rover.c
@@ -428,8 +428,9 @@ void print_linear(NODE *node, void *p){
 				   word_max_conf[i]));
 	    else if (mf_sel_str->method == METH_AVGCONF){
 		word_score[i] = ( mf_sel_str->alpha * ((double)word_occ[i]/(double)Narc) +
-				  ((1.0-mf_sel_str->alpha) * 
-				   word_conf_sum[i] / total_conf));
+				  ((total_conf == 0.0) ? 0.0 :
+				   ((1.0-mf_sel_str->alpha) * 
+				    word_conf_sum[i] / total_conf)));
 		if (mfdb > 5) {
 		    printf("avgconf word_score[%d] = %f\n",i,word_score[i]);
 		    printf("      %.3f * (%.3f / %.3f) + (1 - %.3f) * (%.3f / %.3f)\n",
-- 
2.43.0


From 55500f76b0c9395285755be7cda85447bfbecbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:16 +0000
Subject: [PATCH 14/30] fix: rover: report inputs that go on after the first
 one ends

The conversation check read the word after the last one of the first
input (uninitialised memory) and crashed; it is now a mismatch error.
---
 src/sclite/mfa.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sclite/mfa.c b/src/sclite/mfa.c
index 5435f81..6ed79eb 100644
--- a/src/sclite/mfa.c
+++ b/src/sclite/mfa.c
@@ -151,7 +151,13 @@ void locate_next_file_channel(WTOKE_STR1 **ctms, int nctm, FILE **files, char **
 	fill_WTOKE_structure(ctms[in], files[in], hypname[in],
 			     &(eofs[in]), case_sense);
 	locate_boundary(ctms[in], ctms[in]->s, TRUE,TRUE,&(conv_end[in]));
-	if (in >= 1 && ctms[in]->s <= ctms[in]->n)
+	if (in >= 1 && ctms[in]->s <= ctms[in]->n){
+	    if (ctms[0]->s > ctms[0]->n){
+		fprintf(scfp,"Error: %s has no more data, but %s has "
+			"conversation %s\n",hypname[0],hypname[in],
+			ctms[in]->word[ctms[in]->s].conv);
+		exit(1);
+	    }
 	    if (strcmp(ctms[0]->word[ctms[0]->s].conv,
 		       ctms[in]->word[ctms[in]->s].conv) != 0){
 		fprintf(scfp,"Error: Conversation mismatches in %s and %s, "
@@ -160,6 +166,7 @@ void locate_next_file_channel(WTOKE_STR1 **ctms, int nctm, FILE **files, char **
 			ctms[in]->word[ctms[in]->s].conv);
 		exit(1);
 	    }
+	}
     }
     if (feedback >= 1) {
 	printf("Working on conversation: %s channel: %s\n",	
-- 
2.43.0


From d45817a8500599eec0a1f43d9023c62eeb6eb0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:20 +0000
Subject: [PATCH 15/30] fix: rover: select a word even if no score exceeds -1

Words without a confidence carry -1; with -a 0 a set of such words
scored exactly -1, no word was selected and rover gave up.
---
 src/sclite/rover.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/rover.c b/src/sclite/rover.c
index a910fe1..66c314d 100644
--- a/src/sclite/rover.c
+++ b/src/sclite/rover.c
@@ -442,7 +442,7 @@ void print_linear(NODE *node, void *p){
 		fprintf(scfp,"Error: undefined method PL2 %d\n",mf_sel_str->method);
 		exit(1);
 	    }
-	    if (word_score[i] > max_score){
+	    if (best_w < 0 || word_score[i] > max_score){
 		max_score = word_score[i];
 		best_w = i;
 		ties = 1;
-- 
2.43.0


From 7057a9e4a6c16351ae44a94d0b51502e62db452d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:57 +0000
Subject: [PATCH 16/30] fix: rover: a system without words left must add none
 to the chunk

gap_at_times set the last word of the chunk to the first word of the
next channel, so that word was voted on twice (or, after the last
channel, a token past the end was read).
---
 src/sclite/mfa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/mfa.c b/src/sclite/mfa.c
index 6ed79eb..4761465 100644
--- a/src/sclite/mfa.c
+++ b/src/sclite/mfa.c
@@ -284,7 +284,7 @@ int gap_at_times(WTOKE_STR1 *ctm, int end, double *mgap_beg, double *mgap_end, i
     
     /* if there is no more data in this ctm, that answer is YES */
     if (ctm->s > end) {
-	*mgap_s = ctm->s;
+	*mgap_s = end;
 	return(1);
     }
 
-- 
2.43.0


From 3dd9ac522e9b6965e387ca6e62f99123b0edf7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:27 +0000
Subject: [PATCH 17/30] fix: rfilter1: size of the rule table

Rules are stored from index 1, so max_nrules rules need max_nrules+1
entries; a file without any rule had no table at all and crashed.
---
 src/rfilter1/include/grules2.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rfilter1/include/grules2.c b/src/rfilter1/include/grules2.c
index a4a4833..bcdbb76 100644
--- a/src/rfilter1/include/grules2.c
+++ b/src/rfilter1/include/grules2.c
@@ -265,6 +265,7 @@ RETURN:
     rset->indexed        = F;
     rset->nrules = 0;
     rset->max_nrules = 400;
+    rset->rule = NULL;
   /* open rules file */
 if (db_level > 1) printf("*DB: trying to open '%s'\n",full_fname);
  if ( (fp = fopen((char *)full_fname,"r")) == NULL)
@@ -296,7 +297,7 @@ if (db_level > 2) printf("%s line:'%s'\n",pdb,pline);
 	    }
           else
             {if (n_data_lines_processed == 0)
-               rset->rule = (RULE2*) calloc_safe((size_t)rset->max_nrules,sizeof(RULE2),proc);
+               rset->rule = (RULE2*) calloc_safe((size_t)rset->max_nrules+1,sizeof(RULE2),proc);
              remove_comments(pline,comment_flag);
              r_process_data_line(rset,pline,perr);
              if (*perr > 0) goto RETURN;
@@ -310,6 +311,9 @@ if (db_level > 2) printf("%s line:'%s'\n",pdb,pline);
   /* close file & adjust some variables  */
     if (fclose(fp) != 0)
       fprintf(stderr,"%s: error return from fclose\n",proc);
+  /* a file without rules still needs its (empty) table */
+    if (rset->rule == NULL)
+       rset->rule = (RULE2*) calloc_safe((size_t)rset->max_nrules+1,sizeof(RULE2),proc);
   /* zero out value for each rule */
     for (i=0; i <= rset->nrules; i++) rset->rule[i].val1 = 0;
   /* make rule indexing tables */
-- 
2.43.0


From 2f6f98b8f9e3008a64fbd80b43c157a4040f8f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:27 +0000
Subject: [PATCH 18/30] fix: rfilter1: do not look for a left context before
 the line

The comparison read bytes in front of the input buffer, so a rule with a
left context could fire at the start of a line on whatever was there.
---
 src/rfilter1/include/aprules2.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rfilter1/include/aprules2.c b/src/rfilter1/include/aprules2.c
index ce78a7e..de417c1 100644
--- a/src/rfilter1/include/aprules2.c
+++ b/src/rfilter1/include/aprules2.c
@@ -45,6 +45,7 @@ if (db_level > 1) printf("%s jrule=%d, irule=%d\n",pdb,jrule,irule);
  if (streq((char *)rset->format,"NIST1"))
           {if ( ((rset->case_sensitive)&&
                  (strncmp((char *)pi,(char *)(rset->rule[irule].sin),rset->rule[irule].sinl)==0)&&
+                 (pi-pa >= rset->rule[irule].lcontextl)&&
                  (strncmp((char *)(pi-rset->rule[irule].lcontextl),
                           (char *)rset->rule[irule].lcontext,
                           rset->rule[irule].lcontextl)==0)&&
@@ -53,6 +54,7 @@ if (db_level > 1) printf("%s jrule=%d, irule=%d\n",pdb,jrule,irule);
                           rset->rule[irule].rcontextl)==0))
              || ((!rset->case_sensitive)&&
                  (strncasecmp((char *)pi,(char *)rset->rule[irule].sin,rset->rule[irule].sinl)==0)&&
+                 (pi-pa >= rset->rule[irule].lcontextl)&&
                  (strncasecmp((char *)(pi-rset->rule[irule].lcontextl),
 			      (char *)rset->rule[irule].lcontext,
                           rset->rule[irule].lcontextl)==0)&&
-- 
2.43.0


From 8e5a0567fea065ebb6c3e4c17e68551c691a0cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:27 +0000
Subject: [PATCH 19/30] fix: rfilter1: a slash inside the last brackets is not
 a context mark

'[A] => [B / C]' was cut at the slash because no '[' follows it; only
slashes followed by another '[' were recognised as enclosed.
---
 src/rfilter1/include/grules2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rfilter1/include/grules2.c b/src/rfilter1/include/grules2.c
index bcdbb76..6146d6d 100644
--- a/src/rfilter1/include/grules2.c
+++ b/src/rfilter1/include/grules2.c
@@ -95,7 +95,7 @@ if (db_level > 1) printf("%s processing as format NIST1\n",pdb);
        if (icontext != NULL)
          {irmark = (Char *)strchr((char *)icontext,']');
 	   ilmark = (Char *)strchr((char *)icontext,'[');
-          if (irmark < ilmark) /* enclosed in [] */
+          if ((irmark != NULL)&&((ilmark == NULL)||(irmark < ilmark))) /* enclosed in [] */
             {icontext = NULL;
 	    }
           else
-- 
2.43.0


From 356d198775c5649dade3f7532bd9deda5df0f391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:49 +0000
Subject: [PATCH 20/30] fix: rfilter1: room for output longer than the input
 buffer

Rules that lengthen the text overran the output buffer of 100000 bytes
on long input lines.
---
 src/rfilter1/rfilter1.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rfilter1/rfilter1.c b/src/rfilter1/rfilter1.c
index 56129e6..6ddc3b7 100644
--- a/src/rfilter1/rfilter1.c
+++ b/src/rfilter1/rfilter1.c
@@ -32,9 +32,10 @@ int main(int argc, char **argv)
   Char rxf[LONG_LINE], *fname_rules = &rxf[0];
 #define MAX_INPUT_REC 100000
   Char pax[MAX_INPUT_REC], *pa = &pax[0];
-  Char pbx[MAX_INPUT_REC], *pb = &pbx[0];
+  Char *pb;
   Char *path = (Char *)"";
   int err; int *perr = &err;
+  int i, max_out = 1; /* longest output of one rule */
   RULESET2 rset_data, *rset = &rset_data;
 /*   code   */
   t_sec = time(&t_sec);      /* ANSI, Turbo C */
@@ -58,6 +59,11 @@ if (db_level > 2)
    dump_rules2(rset);
   }
 
+/* each input character may be replaced by the longest output */
+ for (i = 1; i <= rset->nrules; i++)
+   if (rset->rule[i].soutl > max_out) max_out = rset->rule[i].soutl;
+ pb = (Char *)calloc_safe((size_t)MAX_INPUT_REC*max_out,sizeof(Char),(Char *)proc);
+
 /* exercise the rules */
  while (fgets((char *)pa,MAX_INPUT_REC,stdin) != NULL)
    {if (*(pa + strlen((char *)pa) - 1) != '\n')
@@ -78,6 +84,7 @@ if (db_level > 0)
     "%s *DB: At end of run, the rules (with val1= no. of hits) are:\n",pdb);
    dump_rules3(rset,stderr);
   }
+  free(pb);
   free_rules2(rset);
   return 0;
  } /* end main */
-- 
2.43.0


From c5af678f56f0e42a600318a0087a539f3cb8f29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:00 +0000
Subject: [PATCH 21/30] fix: sc_stats: summary lines of the sign and Wilcoxon
 tests overran the title buffer

---
 src/sclite/signtest.c |  9 +++------
 src/sclite/wilcoxon.c | 10 ++++------
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/sclite/signtest.c b/src/sclite/signtest.c
index 7d01e07..00addf8 100644
--- a/src/sclite/signtest.c
+++ b/src/sclite/signtest.c
@@ -189,12 +189,9 @@ int compute_signtest_for_treatment(RANK *rank, int treat1, int treat2, char *blo
         fprintf(fp,pct_format,sum_trt2 /rank->n_blk );
         fprintf(fp,"\n\n");
 
-        sprintf((char *)title_line,"No. Speakers with Positive %s Differences = N(+) = %2d",formula_str,sum_plus);
-        fprintf(fp,"%s\n",center((char *)title_line,paper_width));
-        sprintf((char *)title_line,"No. Speakers with Negative %s Differences = N(-) = %2d",formula_str,sum_minus);
-        fprintf(fp,"%s\n",center((char *)title_line,paper_width));
-        sprintf((char *)title_line,"No. Speakers with No %s Differences = N(0) = %2d",formula_str,sum_equal);
-        fprintf(fp,"%s\n",center((char *)title_line,paper_width));
+        fprintf(fp,"%s\n",center(rsprintf("No. Speakers with Positive %s Differences = N(+) = %2d",formula_str,sum_plus),paper_width));
+        fprintf(fp,"%s\n",center(rsprintf("No. Speakers with Negative %s Differences = N(-) = %2d",formula_str,sum_minus),paper_width));
+        fprintf(fp,"%s\n",center(rsprintf("No. Speakers with No %s Differences = N(0) = %2d",formula_str,sum_equal),paper_width));
         fprintf(fp,"\n\n");
     }
 
diff --git a/src/sclite/wilcoxon.c b/src/sclite/wilcoxon.c
index ba552d0..4631445 100644
--- a/src/sclite/wilcoxon.c
+++ b/src/sclite/wilcoxon.c
@@ -211,12 +211,10 @@ int compute_wilcoxon_for_treatment(RANK *rank, int treat1, int treat2, char *blo
 	fprintf(fp,"%6.2f",sum_trt_diff /rank->n_blk );
         fprintf(fp,"\n\n");
 
-        sprintf((char *)title_line,"Sum of %2d positive ranks = %4.1f",
-		sum_plus,sum_plus_rank);
-        fprintf(fp,"%s\n",center((char *)title_line,paper_width));
-        sprintf((char *)title_line,"Sum of %2d negative ranks = %4.1f",
-		sum_minus,sum_minus_rank);
-        fprintf(fp,"%s\n",center((char *)title_line,paper_width));
+        fprintf(fp,"%s\n",center(rsprintf("Sum of %2d positive ranks = %4.1f",sum_plus,sum_plus_rank),
+				 paper_width));
+        fprintf(fp,"%s\n",center(rsprintf("Sum of %2d negative ranks = %4.1f",sum_minus,sum_minus_rank),
+				 paper_width));
         fprintf(fp,"\n\n");
     }
     
-- 
2.43.0


From a9000ffe57115fa676141a802996223dba9e007c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:47 +0000
Subject: [PATCH 22/30] fix: sc_stats: matched pairs test of two systems
 without errors

---
 src/sclite/statdist.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sclite/statdist.c b/src/sclite/statdist.c
index 3a34163..70f775a 100644
--- a/src/sclite/statdist.c
+++ b/src/sclite/statdist.c
@@ -596,6 +596,10 @@ void calc_mean_var_std_dev_Zstat(int *Z_list, int num_Z, double *mean, double *v
     int i;
     double tmp = 0.0;
 
+    if (num_Z == 0){
+	*mean = *median = *variance = *std_dev = *Z_stat = 0.0;
+	return;
+    }
     for (i=0;i<num_Z;i++){
        tmp+=Z_list[i];
     }
-- 
2.43.0


From 663db50ab60576b15d05f52c8a5d17790f2339fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:20 +0000
Subject: [PATCH 23/30] fix: sc_stats: pair the speakers of different systems
 by name

---
 src/sclite/rank.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/sclite/rank.c b/src/sclite/rank.c
index 9773ee0..603be4e 100644
--- a/src/sclite/rank.c
+++ b/src/sclite/rank.c
@@ -18,7 +18,7 @@
 /**********************************************************************/
 void init_RANK_struct_from_SCORES(RANK *rank, SCORES *scor[], int nscor, char *calc_formula)
 {
-    int blk=0,trt,i,n,mlen=0,msclen=0,g;
+    int blk=0,trt,i,n,mlen=0,msclen=0,g,b;
     int c,s,d;
 
     /* set it to the max number of speakers for all systems */
@@ -58,15 +58,21 @@ void init_RANK_struct_from_SCORES(RANK *rank, SCORES *scor[], int nscor, char *c
 	    s = scor[n]->grp[g].sub; 
 	    d = scor[n]->grp[g].del;
 	    i = scor[n]->grp[g].ins;
+	    /* the row of this speaker: the systems may list them in different orders */
+	    for (b=0; b<scor[0]->num_grp; b++)
+		if (strcmp(scor[0]->grp[b].name,scor[n]->grp[g].name) == 0)
+		    break;
+	    if (b == scor[0]->num_grp)
+		b = g;
             switch (*calc_formula) {
 	      case 'R':
-		rank->pcts[g][n] = pct(c, (c + s + d));
+		rank->pcts[b][n] = pct(c, (c + s + d));
 		break;
 	      case 'E':
-		rank->pcts [g][n] = pct((i + s + d),(c + d + s));
+		rank->pcts[b][n] = pct((i + s + d),(c + d + s));
 		break;
 	      case 'W':
-		rank->pcts[g][n] = 100.0000 - 
+		rank->pcts[b][n] = 100.0000 - 
 		    pct((i + s + d),(c + d + s));
 		break;
 	      default:
-- 
2.43.0


From 54c37bd3719a0e037a29fe0e3a6c40ca51dc2b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:20 +0000
Subject: [PATCH 24/30] fix: sc_stats: continuity correction of the normal
 approximation to the binomial

---
 src/sclite/statdist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/statdist.c b/src/sclite/statdist.c
index 70f775a..2bade1a 100644
--- a/src/sclite/statdist.c
+++ b/src/sclite/statdist.c
@@ -790,7 +790,7 @@ double compute_acc_binomial(int R, int n, double p)
       double mean, stdev, zstat, flip;
       mean = n*p;
       stdev = sqrt(n*p*(1.0-p));
-      flip = (double)R * 0.5;
+      flip = (double)R + 0.5;
       zstat = (flip - mean) / stdev;
       sum = normprob((double)fabs(zstat));
       if (zstat < 0.0)  sum = 1.0 - sum;
-- 
2.43.0


From de37316dcffaa520c0ca5d3582c2ca407827c4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:14 +0000
Subject: [PATCH 25/30] fix: sc_stats: variance of the signed ranks overflowed
 from 1024 speakers on

---
 src/sclite/wilcoxon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/wilcoxon.c b/src/sclite/wilcoxon.c
index 4631445..b335bc2 100644
--- a/src/sclite/wilcoxon.c
+++ b/src/sclite/wilcoxon.c
@@ -267,7 +267,7 @@ static int wilcoxon_test_analysis(int num_a, int num_b, double sum_a, double sum
       if (zero_is_best)  /* make an adjustment for direction of PCTS*/
           better = (better == 'a') ? 'b' : 'a';
       E = ((double)n * (double)(n+1) / 4.0);
-      var = (double)(n * (n+1) * (2*n + 1)) / 24.0;
+      var = (double)n * (double)(n+1) * (double)(2*n + 1) / 24.0;
       test_stat = ((W - E) / (double)sqrt(var));
       /* W will be rounded to the nearest whole number */
       if (dbg){
-- 
2.43.0


From d8ba1faae235be1e274fc6dcdb4d7d6c456f5b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:45 +0000
Subject: [PATCH 26/30] fix: asclite: segments that begin or end with an
 optional alternation

A segment ending with an alternation that has an empty alternative lost the
tokens behind its first possible end, and one beginning with it listed a
token twice, which was freed twice at exit.
---
 src/asclite/core/ctm_inputparser.cpp |  2 +-
 src/asclite/core/segment.cpp         | 25 ++++++++++++++-----------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/asclite/core/ctm_inputparser.cpp b/src/asclite/core/ctm_inputparser.cpp
index 63292a4..0f88ec8 100644
--- a/src/asclite/core/ctm_inputparser.cpp
+++ b/src/asclite/core/ctm_inputparser.cpp
@@ -224,7 +224,7 @@ SpeechSet* CTMInputParser::loadFile(const string& name)
                     Segment* seg = Segment::CreateWithDuration(start_ms, dur_ms, speech);
                     seg->SetSource(string(f_file));
                     seg->SetChannel(string(channel));
-                    Token* tok = BuildToken(start_ms, dur_ms, string(text), alt_seg);
+                    Token* tok = BuildToken(start_ms, dur_ms, string(text), seg);
                     seg->AddFirstToken(tok);
                     seg->AddLastToken(tok);
                     alt_seg->AddLastToken(prec_alt_tok);
diff --git a/src/asclite/core/segment.cpp b/src/asclite/core/segment.cpp
index f533389..ac96b2c 100644
--- a/src/asclite/core/segment.cpp
+++ b/src/asclite/core/segment.cpp
@@ -227,8 +227,13 @@ vector<Token*> Segment::ToTopologicalOrderedStruct()
 	for(size_t i = 0 ; i < f_token->GetNbOfNextTokens() ; ++i)
     {
         Token* token = f_token->GetNextToken(i);
-        res.push_back(token);
-        ToTopologicalOrderedStruct(token, &res);
+
+        // a first token can also follow another one (optional alternation)
+        if (find(res.begin(), res.end(), token) == res.end())
+        {
+            res.push_back(token);
+            ToTopologicalOrderedStruct(token, &res);
+        }
     }
 	
     return res;
@@ -239,17 +244,15 @@ vector<Token*> Segment::ToTopologicalOrderedStruct()
  */
 void Segment::ToTopologicalOrderedStruct(Token* start, vector<Token*>* doneNode)
 {
-    if (!isLastToken(start))
+    // a last token can be followed by tokens of the segment (optional alternation)
+    for(size_t i = 0 ; i < start->GetNbOfNextTokens() ; ++i)
     {
-        for(size_t i = 0 ; i < start->GetNbOfNextTokens() ; ++i)
+        Token* token = start->GetNextToken(i);
+
+        if (token->GetParentSegment() == this && find(doneNode->begin(), doneNode->end(), token) == doneNode->end())
         {
-            Token* token = start->GetNextToken(i);
-            
-            if (find(doneNode->begin(), doneNode->end(), token) == doneNode->end())
-            {
-                doneNode->push_back(token);
-                ToTopologicalOrderedStruct(token, doneNode);
-            }
+            doneNode->push_back(token);
+            ToTopologicalOrderedStruct(token, doneNode);
         }
     }
 }
-- 
2.43.0


From d06f0414d46e36bff361091400956699f40de04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:45 +0000
Subject: [PATCH 27/30] fix: asclite: -D both only applied to the reference

---
 src/asclite/core/levenshtein.cpp | 5 +++--
 src/asclite/core/stt_scorer.cpp  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/asclite/core/levenshtein.cpp b/src/asclite/core/levenshtein.cpp
index a3e9459..4379e66 100644
--- a/src/asclite/core/levenshtein.cpp
+++ b/src/asclite/core/levenshtein.cpp
@@ -53,7 +53,8 @@ void Levenshtein::SetSegments(SegmentsGroup* segmentsGroup, SpeakerMatch* pSpeak
     {
         opt_ref = true;
     }
-    else if (string("both").compare(opt_case) == 0 || string("hyp").compare(opt_case) == 0)
+
+    if (string("both").compare(opt_case) == 0 || string("hyp").compare(opt_case) == 0)
     {
         opt_hyp = true;
     }
@@ -62,7 +63,7 @@ void Levenshtein::SetSegments(SegmentsGroup* segmentsGroup, SpeakerMatch* pSpeak
         opt_ref = false;
         opt_hyp = false;
     }
-    else
+    else if (!opt_ref)
     {
         LOG_WARN(logger, "The <align.optionally> property has an unrecognized value: '"+opt_case+"'");
     }
diff --git a/src/asclite/core/stt_scorer.cpp b/src/asclite/core/stt_scorer.cpp
index 5a7bacd..33fc006 100644
--- a/src/asclite/core/stt_scorer.cpp
+++ b/src/asclite/core/stt_scorer.cpp
@@ -48,7 +48,8 @@ void STTScorer::Score(Alignment* alignment, SpeakerMatch* speakerMatch)
     {
         opt_ref = true;
     }
-    else if ("both" == opt_case || "hyp" == opt_case)
+
+    if ("both" == opt_case || "hyp" == opt_case)
     {
         opt_hyp = true;
     }
@@ -56,7 +57,7 @@ void STTScorer::Score(Alignment* alignment, SpeakerMatch* speakerMatch)
     {
         // do nothing
     }
-    else
+    else if (!opt_ref)
     {
         LOG_WARN(logger, "The <align.optionally> property has an unrecognized value: '"+opt_case+"'");
     }
-- 
2.43.0


From e2a6e50703aaa23022aecadd243970b9774a3211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:45 +0000
Subject: [PATCH 28/30] fix: asclite: two word beginnings match if one is a
 prefix of the other, not a substring

---
 src/asclite/core/token.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asclite/core/token.cpp b/src/asclite/core/token.cpp
index 5ad10e7..ff01cad 100644
--- a/src/asclite/core/token.cpp
+++ b/src/asclite/core/token.cpp
@@ -292,7 +292,7 @@ bool Token::IsEquivalentTo(Token* token)
 			} 
             else if (otherFrag == BEGIN_FRAGMENT) 
             {
-				 return ((tok1.find(tok2, 0) != string::npos) || (tok2.find(tok1, 0) != string::npos));
+				 return ((tok1.find(tok2, 0) == 0) || (tok2.find(tok1, 0) == 0));
 			}
             else 
             {
-- 
2.43.0


From 406fb70cd2daf8d7b08af2046f4f28e4dedd0953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:45 +0000
Subject: [PATCH 29/30] fix: asclite: endless garbage collection when a block
 cannot be compressed

---
 src/asclite/core/compressedlevenshteinmatrix.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/asclite/core/compressedlevenshteinmatrix.cpp b/src/asclite/core/compressedlevenshteinmatrix.cpp
index d81b9a8..d0067cf 100644
--- a/src/asclite/core/compressedlevenshteinmatrix.cpp
+++ b/src/asclite/core/compressedlevenshteinmatrix.cpp
@@ -313,7 +313,10 @@ bool CompressedLevenshteinMatrix::ForcedGarbageCollection()
 	}
 	
 	if(found)
+	{
 		CompressBlock(min_index);
+		found = m_TabbIsCompressed[min_index]; // an incompressible block frees nothing
+	}
 	
 	return found;
 }
-- 
2.43.0


From 7fc861d95426e8217efec6523a037c627f974ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:05 +0000
Subject: [PATCH 30/30] fix: asclite: removing a segment linked its neighbours
 to its own tokens

A segment that begins or ends with an optional alternation has first tokens
preceded, and last tokens followed, by tokens of the segment itself.
---
 src/asclite/core/speech.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/asclite/core/speech.cpp b/src/asclite/core/speech.cpp
index 008bfc6..8471bab 100644
--- a/src/asclite/core/speech.cpp
+++ b/src/asclite/core/speech.cpp
@@ -154,6 +154,11 @@ void Speech::RemoveSegment(Segment* currentSegment)
 			for(size_t p=0; p<firstToken->GetNbOfPrecTokens(); ++p)
 			{
 				Token* previousTokenofFirstToken = firstToken->GetPrecToken(p);
+
+				// inside of the segment: the segment begins with an optional alternation
+				if(previousTokenofFirstToken->GetParentSegment() == currentSegment)
+					continue;
+
 				listPreviousTokenofFirstToken.push_back(previousTokenofFirstToken);
 				previousTokenofFirstToken->UnlinkNextToken(firstToken);
 			}
@@ -170,6 +175,11 @@ void Speech::RemoveSegment(Segment* currentSegment)
 			for(size_t n=0; n<lastToken->GetNbOfNextTokens(); ++n)
 			{
 				Token* nextTokenofLastToken = lastToken->GetNextToken(n);
+
+				// inside of the segment: the segment ends with an optional alternation
+				if(nextTokenofLastToken->GetParentSegment() == currentSegment)
+					continue;
+
 				listNextTokenofLastToken.push_back(nextTokenofLastToken);
 				nextTokenofLastToken->UnlinkPrevToken(lastToken);
 			}
-- 
2.43.0

