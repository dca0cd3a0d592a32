From 31c941119f27a0431c8a6a5f5b645a8b104771ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 01/73] fix: continue right behind an evaluated % item when a
 line is expanded

After ExpandToken had replaced a %-expression by its value it left the index
at the old position, so that part of the following item was skipped and its
own % operator was not recognised (IFIDN %(27), %27+tm failed).
---
 expans.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/expans.c b/expans.c
index 24ef7a8..e0b7330 100644
--- a/expans.c
+++ b/expans.c
@@ -1353,6 +1353,7 @@ static ret_code ExpandToken( char *line, int *pi, struct asm_tok tokenarray[], i
         tokenarray[i].string_ptr = StringBufferEnd;
         AddTokens( tokenarray, i+1, i+1 - *pi, Token_Count );
         Token_Count += (i+1) - *pi;
+        *pi = i+1; /* the tokens behind the expression have been moved */
 
         if ( ERROR == RebuildLine( StringBufferEnd, i, tokenarray,
                                   tmp, tokenarray[i].tokpos - line, bracket_flags ) )
-- 
2.43.0


From 8da86ca4aec351c9d3445e455b1ffdb9cfb18b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:29 +0000
Subject: [PATCH 02/73] fix: exit with failure if any module of the run failed,
 not only the last one

---
 main.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/main.c b/main.c
index a42a973..534ca0d 100644
--- a/main.c
+++ b/main.c
@@ -65,6 +65,7 @@ int main(int argc, char **argv)
 	int     numArgs = 0;
 	int     numFiles = 0;
 	int     rc = 0;
+	int     failed = 0; /* set if any module failed */
 
 #if WILDCARDS
 	/* v2.11: _findfirst/next/close() handle, should be of type intptr_t.
@@ -123,6 +124,7 @@ int main(int argc, char **argv)
 		if ((fh = _findfirst(Options.names[ASM], &finfo)) == -1) {
 			DebugMsg(("main: _findfirst(%s) failed\n", Options.names[ASM]));
 			EmitErr(CANNOT_OPEN_FILE, Options.names[ASM], ErrnoStr());
+			failed = 1;
 			break;
 		}
 		pfn = GetFNamePart(Options.names[ASM]);
@@ -132,10 +134,14 @@ int main(int argc, char **argv)
 				strcpy(&fname[dirsize], finfo.name);
 				DebugMsg(("main: fname=%s\n", fname));
 				rc = AssembleModule(fname);  /* assemble 1 module */
+				if (rc == 0)
+					failed = 1;
 			} while ((_findnext(fh, &finfo) != -1));
 		    _findclose(fh);
 #else
 		rc = AssembleModule( Options.names[ASM] );
+		if (rc == 0)
+			failed = 1;
 #endif
 	};
 	CmdlineFini();
@@ -150,8 +156,10 @@ int main(int argc, char **argv)
 	tm_Fini();
 #endif
 
+	if (failed)
+		rc = 0;
 	DebugMsg(("main: exit, return code=%u\n", 1 - rc));
-	return(1 - rc); /* zero if no errors */
+	return(1 - rc); /* zero if no errors in any module */
 }
 
 
-- 
2.43.0


From edfb474b6cd2947e781436f68710d3c8cfc0a51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:58 +0000
Subject: [PATCH 03/73] fix: OPTION directives and the model of a module no
 longer apply to the next module of the run

---
 assemble.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/assemble.c b/assemble.c
index 4c9e6e2..acbc363 100644
--- a/assemble.c
+++ b/assemble.c
@@ -1575,6 +1575,8 @@ int EXPQUAL AssembleModule( const char *source )
     struct dsym   *seg;
 
 	struct module_info tempInfo;
+	struct global_options savedOptions = Options; /* OPTION directives of the source may change them */
+	unsigned char savedArch = MODULEARCH;
 
 #ifdef _WIN32
 	CONSOLE_SCREEN_BUFFER_INFO screenBufferInfo;
@@ -1820,6 +1822,15 @@ done:
    
 	AssembleFini();
 	ResetOrgFixup();
+	/* what the source has set must not apply to the next module */
+	Options = savedOptions;
+	MODULEARCH = savedArch;
+	ModuleInfo.frame_auto   = tempInfo.frame_auto;
+	ModuleInfo.fctype       = tempInfo.fctype;
+	ModuleInfo.langtype     = tempInfo.langtype;
+	ModuleInfo.sub_format   = tempInfo.sub_format;
+	ModuleInfo.win64_flags  = tempInfo.win64_flags;
+	ModuleInfo.switch_style = tempInfo.switch_style;
     DebugMsg(("AssembleModule exit\n"));
     return( ModuleInfo.g.error_count == 0 );
 }
-- 
2.43.0


From a604f00b74325d0dc2f110dc799ac3f7a6695743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:58 +0000
Subject: [PATCH 04/73] fix: forget @ReservedStack of the previous module; ENDP
 wrote through the dangling pointer

---
 assemble.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/assemble.c b/assemble.c
index acbc363..f07ff31 100644
--- a/assemble.c
+++ b/assemble.c
@@ -1315,6 +1315,7 @@ static void ModuleInit( void )
     memset( SymTables, 0, sizeof( SymTables[0] ) * TAB_LAST );
     ModuleInfo.fmtopt->init( &ModuleInfo );
     gmaskflag = 0;
+    sym_ReservedStack = NULL; /* the symbol of the previous module is gone */
     return;
 }
 
-- 
2.43.0


From 8b134ed330cceea87d11e5ec9fd5d701e3159770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:00 +0000
Subject: [PATCH 05/73] fix: ALIGN above the segment's alignment crashed when
 there is no FLAT group

---
 posndir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posndir.c b/posndir.c
index 4715024..4ab1363 100644
--- a/posndir.c
+++ b/posndir.c
@@ -252,7 +252,7 @@ ret_code AlignDirective( int i, struct asm_tok tokenarray[] )
     }
     if( align_value > seg_align ) {
         if (( Parse_Pass == PASS_1 )&&                   //We need 32 0r 64 bit for VEX and EVEX
-          (ModuleInfo.flat_grp->sym.isdefined == FALSE)) //No warning if "FLAT"
+          (ModuleInfo.flat_grp == NULL || ModuleInfo.flat_grp->sym.isdefined == FALSE)) //No warning if "FLAT"
 		if ( Parse_Pass == PASS_1 && ModuleInfo.Ofssize != USE64 )
             EmitWarn( 1, ALIGN_TOO_HIGH, myltoa( align_value, buffer, 10, FALSE, FALSE ) );
         //return( ERROR ); /* v2.0: don't exit */
-- 
2.43.0


From 01db33775c8b8c1ccac6c59500ddea10c0f7d56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:00 +0000
Subject: [PATCH 06/73] fix: BIN/MZ offsets within a group ignored foreign
 segments between its members

---
 H/symbols.h | 1 +
 bin.c       | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/H/symbols.h b/H/symbols.h
index 6562c19..4d837db 100644
--- a/H/symbols.h
+++ b/H/symbols.h
@@ -300,6 +300,7 @@ struct grp_info {
     int                 grp_idx;        /* its group index (OMF) */
     int                 lname_idx;      /* LNAME index (OMF only) */
     unsigned            numseg;         /* OMF: number of segments in the group */
+    uint_32             fileend;        /* BIN: file offset behind the last segment placed */
 };
 
 typedef uint_8 * (* FlushSegFunc)( struct dsym *, uint_8 *, unsigned, void * );
diff --git a/bin.c b/bin.c
index 2a503d4..16dded5 100644
--- a/bin.c
+++ b/bin.c
@@ -243,7 +243,8 @@ static void CalcOffset( struct dsym *curr, struct calc_param *cp )
                 grp->sym.offset = cp->fileoffset - cp->sizehdr;
                 offset = 0;
             } else
-                offset = grp->sym.total_size + alignbytes;
+                /* segments of other groups may lie between this one and the previous member */
+                offset = grp->sym.total_size + ( cp->fileoffset - grp->e.grpinfo->fileend );
         DebugMsg(("CalcOffset(%s): fileofs=%" I32_SPEC "Xh, alignbytes=%" I32_SPEC "u, ofs=%" I32_SPEC "Xh, group=%s, grp.ofs=%" I32_SPEC "Xh\n",
                   curr->sym.name, cp->fileoffset, alignbytes, offset, grp->sym.name, grp->sym.offset ));
     }
@@ -295,6 +296,7 @@ static void CalcOffset( struct dsym *curr, struct calc_param *cp )
     if ( grp ) {
         //grp->sym.total_size = offset + curr->e.seginfo->start_loc;
         grp->sym.total_size = offset;
+        grp->e.grpinfo->fileend = cp->fileoffset;
         /* v2.07: for 16-bit groups, ensure that it fits in 64 kB */
         if ( grp->sym.total_size > 0x10000 && grp->sym.Ofssize == USE16 ) {
             EmitWarn( 2, GROUP_EXCEEDS_64K, grp->sym.name );
-- 
2.43.0


From 23c3d3d3184a375b53db117c3644588b329243ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:48 +0000
Subject: [PATCH 07/73] fix: BIN: contents of a grouped segment that starts
 with ORG were written below their offsets

---
 bin.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bin.c b/bin.c
index 16dded5..b17221e 100644
--- a/bin.c
+++ b/bin.c
@@ -260,8 +260,16 @@ static void CalcOffset( struct dsym *curr, struct calc_param *cp )
          * - segment is in a group and
          * - group isn't FLAT or segment's name contains '$'
          */
-        if ( grp && ( grp != ModuleInfo.flat_grp || strchr( curr->sym.name, '$' ) ) )
+        if ( grp && ( grp != ModuleInfo.flat_grp || strchr( curr->sym.name, '$' ) ) ) {
+            /* the contents have been stored from start_loc on */
+            if ( curr->e.seginfo->start_loc && curr->e.seginfo->CodeBuffer ) {
+                uint_8 *p = LclAlloc( curr->sym.max_offset );
+                memset( p, 0, curr->e.seginfo->start_loc );
+                memcpy( p + curr->e.seginfo->start_loc, curr->e.seginfo->CodeBuffer, curr->sym.max_offset - curr->e.seginfo->start_loc );
+                curr->e.seginfo->CodeBuffer = p;
+            }
             curr->e.seginfo->start_loc = 0;
+        }
     }
 
     curr->e.seginfo->fileoffset = cp->fileoffset;
-- 
2.43.0


From 24294486c2de4259f21f2ae76820ee9257b344e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:25 +0000
Subject: [PATCH 08/73] fix: the segment of a '$' fixup overwrote its frame
 type, so '$' in a group could lose the group's offset

---
 H/fixup.h | 10 +++-------
 fixup.c   |  1 +
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/H/fixup.h b/H/fixup.h
index 07abdbb..e8758b7 100644
--- a/H/fixup.h
+++ b/H/fixup.h
@@ -124,13 +124,9 @@ struct fixup {
             unsigned char orgoccured:1;             /* v2.04 ORG occured behind this fix */
         };
     };
-    union {
-        struct {
-            int_8           frame_type;     /* frame specifier (SEG=0,GRP=1,,...) */
-            uint_16         frame_datum;    /* additional data, usually index */
-        };
-        struct asym         *segment_var;   /* symbol's segment if assembly time var */
-    };
+    int_8                   frame_type;     /* frame specifier (SEG=0,GRP=1,,...) */
+    uint_16                 frame_datum;    /* additional data, usually index */
+    struct asym             *segment_var;   /* symbol's segment if assembly time var */
     struct dsym             *def_seg;       /* segment the fixup is in - pass 1 only */
     struct asym             *sym;
 };
diff --git a/fixup.c b/fixup.c
index 2d20a7b..cfc386e 100644
--- a/fixup.c
+++ b/fixup.c
@@ -104,6 +104,7 @@ struct fixup *CreateFixup( struct asym *sym, enum fixup_types type, enum fixup_o
     fixup->flags = 0;
     fixup->frame_type = Frame_Type;     /* this is just a guess */
     fixup->frame_datum = Frame_Datum;
+    fixup->segment_var = NULL;
     fixup->def_seg = CurrSeg;           /* may be NULL (END directive) */
     fixup->sym = sym;
 
-- 
2.43.0


From 3b8e89b0cdbc86bffd0a0767327ba7dbc873df86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:12 +0000
Subject: [PATCH 09/73] fix: 'abc ENDS' closed a segment or structure named
 'ab'

---
 segment.c | 2 +-
 types.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/segment.c b/segment.c
index 26f7a63..19c1e40 100644
--- a/segment.c
+++ b/segment.c
@@ -447,7 +447,7 @@ ret_code SetOfssize( void )
 static ret_code CloseSeg( const char *name )
 /******************************************/
 {
-    if( CurrSeg == NULL || ( SymCmpFunc( CurrSeg->sym.name, name, CurrSeg->sym.name_size ) != 0 ) ) {
+    if( CurrSeg == NULL || ( SymCmpFunc( CurrSeg->sym.name, name, CurrSeg->sym.name_size + 1 ) != 0 ) ) {
         return( EmitErr( BLOCK_NESTING_ERROR, name ) );
     }
 
diff --git a/types.c b/types.c
index be9e008..394221e 100644
--- a/types.c
+++ b/types.c
@@ -1062,7 +1062,7 @@ ret_code EndstructDirective( int i, struct asm_tok tokenarray[] )
     }
 
     if ( i == 1 ) { /* an global struct ends with <name ENDS> */
-        if ( SymCmpFunc( tokenarray[0].string_ptr, dir->sym.name, dir->sym.name_size ) != 0 ) {
+        if ( SymCmpFunc( tokenarray[0].string_ptr, dir->sym.name, dir->sym.name_size + 1 ) != 0 ) {
             /* names don't match */
             DebugMsg(("EndstructDirective: names don't match, i=%u, name=%s - %s\n", i, tokenarray[0].string_ptr, dir->sym.name));
             return( EmitErr( UNMATCHED_BLOCK_NESTING, tokenarray[0].string_ptr ) );
-- 
2.43.0


From dc329d889b717e0f3b1ba02caec9cc1983bfcb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:12 +0000
Subject: [PATCH 10/73] fix: a segment class whose name begins another class
 name was taken for that class

---
 segment.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segment.c b/segment.c
index 19c1e40..cd173ff 100644
--- a/segment.c
+++ b/segment.c
@@ -579,7 +579,7 @@ static struct asym *FindClass( const char *name, int len )
 
     for( node = ModuleInfo.g.LnameQueue.head; node; node = node->next ) {
         struct asym *sym = node->sym;
-        if( sym->state == SYM_CLASS_LNAME && ( SymCmpFunc( sym->name, name, len ) == 0 ) )
+        if( sym->state == SYM_CLASS_LNAME && ( SymCmpFunc( sym->name, name, len + 1 ) == 0 ) )
             return( sym );
     }
     return( NULL );
-- 
2.43.0


From 0f1bf707b8ec55b7e3a46df72e4d21d415243531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:48 +0000
Subject: [PATCH 11/73] fix: the most negative number divided by -1 crashed the
 assembler

---
 expreval.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/expreval.c b/expreval.c
index 6f4e2d7..4efc6d1 100644
--- a/expreval.c
+++ b/expreval.c
@@ -3574,7 +3574,10 @@ static ret_code calculate( struct expr *opnd1, struct expr *opnd2, const struct
             return( fnEmitErr( DIVIDE_BY_ZERO_IN_EXPR ) );
         }
 
-        opnd1->value64 /= opnd2->value64;
+        if ( opnd2->value64 == -1 ) /* the most negative number / -1 traps */
+            opnd1->llvalue = -opnd1->llvalue;
+        else
+            opnd1->value64 /= opnd2->value64;
         break;
     case T_BINARY_OPERATOR:
         DebugMsg1(("calculate(%s [T_BINARY_OPERATOR] ): t1-t2 kind %d/%d memtype %X-%X sym %s-%s type %s-%s\n",
-- 
2.43.0


From f51aef2681252d27c2059744a1f25137e21429c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:48 +0000
Subject: [PATCH 12/73] fix: SHL and SHR truncated the count, SHR a value
 ending in 0FFFFFFFFh, to 32 bits

---
 expreval.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/expreval.c b/expreval.c
index 4efc6d1..ca5eb8b 100644
--- a/expreval.c
+++ b/expreval.c
@@ -3734,9 +3734,9 @@ static ret_code calculate( struct expr *opnd1, struct expr *opnd2, const struct
         case T_SHL:
             /* v2.04: check for shift count < 0 */
             DebugMsg1(("calculate(SHL): value=%" I64_SPEC "X << %" I32_SPEC "u (max=%u)\n", opnd1->llvalue, opnd2->value, 8 * sizeof( opnd1->llvalue ) ));
-            if ( opnd2->value < 0 )
+            if ( opnd2->value64 < 0 )
                 fnEmitErr( COUNT_MUST_BE_POSITIVE_OR_ZERO );
-            else if ( opnd2->value >= ( 8 * sizeof( opnd1->llvalue ) ) )
+            else if ( opnd2->value64 >= ( 8 * sizeof( opnd1->llvalue ) ) )
                 opnd1->llvalue = 0;
             else
                 opnd1->llvalue = opnd1->llvalue << opnd2->value;
@@ -3759,14 +3759,14 @@ static ret_code calculate( struct expr *opnd1, struct expr *opnd2, const struct
              * there is a problem with some compilers if shift
              * count is >= 64. So in this case the result is zeroed manually
              */
-	            if ( opnd2->value < 0 )
+	            if ( opnd2->value64 < 0 )
 		             fnEmitErr( COUNT_MUST_BE_POSITIVE_OR_ZERO );
-	            else if ( opnd2->value >= ( 8 * sizeof( opnd1->llvalue ) ) )
+	            else if ( opnd2->value64 >= ( 8 * sizeof( opnd1->llvalue ) ) )
 		             opnd1->llvalue = 0;
 	            else {
                 /* Nidud fix v2.28*/
-		            if ( opnd1->value == -1 && ModuleInfo.Ofssize == USE32 )
-		              opnd1->llvalue = (unsigned long)opnd1->llvalue >> opnd2->value;
+		            if ( opnd1->value64 == -1 && ModuleInfo.Ofssize == USE32 )
+		              opnd1->llvalue = (uint_32)opnd1->llvalue >> opnd2->value;
 		           else
 		             opnd1->llvalue = opnd1->llvalue >> opnd2->value;
 	            }
-- 
2.43.0


From 47189fab2f1554d6459972ab13eef0540e4c6362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:11 +0000
Subject: [PATCH 13/73] fix: IF, WHILE, .ERRE and .ERRNZ looked at the low 32
 bits of their expression only

---
 condasm.c | 12 ++++++------
 loop.c    |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/condasm.c b/condasm.c
index 63e9ce4..8382504 100644
--- a/condasm.c
+++ b/condasm.c
@@ -255,7 +255,7 @@ ret_code CondAsmDirective( int i, struct asm_tok tokenarray[] )
             /* v2.11: don't exit, assume 0 */
             //return( ERROR );
             opndx.kind = EXPR_CONST;
-            opndx.value = 0;
+            opndx.value64 = 0;
             i = Token_Count;
         }
 #if 0 /* v2.05: obsolete */
@@ -266,7 +266,7 @@ ret_code CondAsmDirective( int i, struct asm_tok tokenarray[] )
         if ( opndx.kind == EXPR_CONST )
             ;
         else if ( opndx.kind == EXPR_ADDR && opndx.indirect == FALSE ) {
-            opndx.value += opndx.sym->offset;
+            opndx.value64 += opndx.sym->offset;
             /* v2.07: Masm doesn't accept a relocatable item,
              * so emit at least a warning!
              */
@@ -275,9 +275,9 @@ ret_code CondAsmDirective( int i, struct asm_tok tokenarray[] )
             return( EmitError( CONSTANT_EXPECTED ) );
         }
         if ( directive == T_IF || directive == T_ELSEIF )
-            NextIfState = ( opndx.value ) ? BLOCK_ACTIVE : BLOCK_INACTIVE;
+            NextIfState = ( opndx.value64 ) ? BLOCK_ACTIVE : BLOCK_INACTIVE;
         else
-            NextIfState = ( !opndx.value ) ? BLOCK_ACTIVE : BLOCK_INACTIVE;
+            NextIfState = ( !opndx.value64 ) ? BLOCK_ACTIVE : BLOCK_INACTIVE;
         break;
     case CC_LITARG: /*  [ELSE]IFDIF[I], [ELSE]IFIDN[I] */
         string1 = tokenarray[i].string_ptr;
@@ -487,9 +487,9 @@ ret_code ErrorDirective( int i, struct asm_tok tokenarray[] )
         }
         if ( Parse_Pass == PASS_1 )
             break;
-        if ( direct == T_DOT_ERRNZ && opndx.value ) {
+        if ( direct == T_DOT_ERRNZ && opndx.value64 ) {
             errmsg = FORCED_NOT_ZERO;
-        } else if ( direct == T_DOT_ERRE && !opndx.value ) {
+        } else if ( direct == T_DOT_ERRE && !opndx.value64 ) {
             errmsg = FORCED_EQUAL;
         }
 
diff --git a/loop.c b/loop.c
index 3c7e5da..a6f8b8f 100644
--- a/loop.c
+++ b/loop.c
@@ -57,17 +57,17 @@ ret_code LoopDirective( int i, struct asm_tok tokenarray[] )
          * referenced symbols may be used here!
          */
         if ( EvalOperand( &i, tokenarray, Token_Count, &opnd, EXPF_NOUNDEF ) == ERROR ) {
-            opnd.value = 0;
+            opnd.value64 = 0;
             i = Token_Count;
         } else if ( opnd.kind != EXPR_CONST ) { /* syntax <REPEAT|WHILE 'A'> is valid! */
             DebugMsg(( "LoopDirective(%s): invalid argument type %u\n", GetResWName( directive, NULL ), opnd.kind ));
             EmitError( CONSTANT_EXPECTED );
-            opnd.value = 0;
+            opnd.value64 = 0;
         } else if( tokenarray[i].token != T_FINAL ) {
             EmitErr( SYNTAX_ERROR_EX, tokenarray[i].tokpos );
             /* v2.09: don't exit, the macro lines must be read first. */
             //return( ERROR );
-            opnd.value = 0;
+            opnd.value64 = 0;
         }
         break;
     default: /* FOR, FORC, IRP, IRPC */
@@ -213,7 +213,7 @@ ret_code LoopDirective( int i, struct asm_tok tokenarray[] )
         }
         break;
     case T_WHILE:
-        while ( opnd.kind == EXPR_CONST && opnd.value != 0 ) {
+        while ( opnd.kind == EXPR_CONST && opnd.value64 != 0 ) {
             DebugMsg1(("LoopDirective WHILE: cnt=%u\n", count++ ));
             RunMacro( macro, Token_Count, tokenarray, NULL, 0, &is_exitm );
             if ( is_exitm )
-- 
2.43.0


From b0e94fcf6115c741681c7771534dc93e64181401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:11 +0000
Subject: [PATCH 14/73] fix: DUP and REPEAT silently truncated a count above 32
 bits

---
 data.c | 4 +++-
 loop.c | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/data.c b/data.c
index 33b981b..7c508d0 100644
--- a/data.c
+++ b/data.c
@@ -642,7 +642,9 @@ next_item:  /* <--- continue scan if a comma has been detected */
             return( ERROR );
         }
         /* max dup is 0x7fffffff */
-        if ( opndx.value < 0 ) {
+        if ( opndx.hvalue > 0 )
+            return( EmitConstError( &opndx ) );
+        if ( opndx.value < 0 || opndx.hvalue < 0 ) {
             return( EmitError( COUNT_MUST_BE_POSITIVE_OR_ZERO ) );
         }
         i++;
diff --git a/loop.c b/loop.c
index a6f8b8f..3df6831 100644
--- a/loop.c
+++ b/loop.c
@@ -68,6 +68,9 @@ ret_code LoopDirective( int i, struct asm_tok tokenarray[] )
             /* v2.09: don't exit, the macro lines must be read first. */
             //return( ERROR );
             opnd.value64 = 0;
+        } else if ( directive != T_WHILE && opnd.hvalue > 0 ) {
+            EmitConstError( &opnd );
+            opnd.value64 = 0;
         }
         break;
     default: /* FOR, FORC, IRP, IRPC */
-- 
2.43.0


From 92c6cce0d0eb176102aaaff2a3c75c8bb8d2343d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:32 +0000
Subject: [PATCH 15/73] fix: % expansion truncated constants to 32 bits

---
 expans.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/expans.c b/expans.c
index e0b7330..2768ac3 100644
--- a/expans.c
+++ b/expans.c
@@ -84,7 +84,7 @@ char *myqtoa(uint_64 value, char *buffer, unsigned radix, bool sign, bool addzer
 {
   char   *p;
   char   *dst = buffer;
-  char   tmpbuf[34];
+  char   tmpbuf[66];
 #ifdef DEBUG_OUT
   uint_64 saved_value = value;
 #endif
@@ -97,11 +97,11 @@ char *myqtoa(uint_64 value, char *buffer, unsigned radix, bool sign, bool addzer
     *dst = NULLC;
     return(buffer);
     }
-  for (p = &tmpbuf[33], *p = NULLC; value; value = value / radix)
+  for (p = &tmpbuf[65], *p = NULLC; value; value = value / radix)
     *(--p) = __digits[value % radix];
   if (addzero && (*p > '9')) /* v2: add a leading '0' if first digit is alpha */
     *dst++ = '0';
-  memcpy(dst, p, &tmpbuf[33] + 1 - p);
+  memcpy(dst, p, &tmpbuf[65] + 1 - p);
   DebugMsg1(("myltoa( value=%" I32_SPEC "Xh, out=%s, radix=%u, sign=%u, %u)\n", saved_value, buffer, radix, sign, addzero));
   return(buffer);
 }
@@ -403,7 +403,7 @@ int RunMacro( struct dsym *macro, int idx, struct asm_tok tokenarray[], char *ou
                         }
                         DebugMsg1(( "RunMacro(%s.%u): num expansion, opndx.type=%d, value=%d\n", macro->sym.name, parmidx, opndx.type, opndx.value ));
                         /* v2.08: accept constant and copy any stuff that's following */
-                        myltoa( opndx.uvalue, StringBufferEnd, ModuleInfo.radix, opndx.hvalue < 0, FALSE );
+                        myqtoa( opndx.llvalue, StringBufferEnd, ModuleInfo.radix, opndx.hvalue < 0, FALSE );
                         //ptr += strlen( ptr );
                         if ( i != max ) {
                             /* the evaluator was unable to evaluate the full expression. the rest
@@ -1313,7 +1313,7 @@ static ret_code ExpandToken( char *line, int *pi, struct asm_tok tokenarray[], i
     if ( evaluate ) {
         int old_tokencount = Token_Count;
         if ( i == (pos+1) ) { /* just a single %? */
-            opndx.value = 0;
+            opndx.llvalue = 0;
             i = pos;
         } else {
             i = pos++;
@@ -1323,7 +1323,7 @@ static ret_code ExpandToken( char *line, int *pi, struct asm_tok tokenarray[], i
             tmp = old_tokencount + 1;
             Token_Count = Tokenize( buffer, tmp, tokenarray, TOK_RESCAN );
             if ( EvalOperand( &tmp, tokenarray, Token_Count, &opndx, EXPF_NOUNDEF ) == ERROR )
-                opndx.value = 0; /* v2.09: assume value 0, don't return with ERROR */
+                opndx.llvalue = 0; /* v2.09: assume value 0, don't return with ERROR */
             else if ( opndx.kind != EXPR_CONST ) {
                 /* v2.09: with flag EXPF_NOUNDEF, EvalOperand() will have returned
                  * with error if there's an undefined symbol involved
@@ -1335,13 +1335,16 @@ static ret_code ExpandToken( char *line, int *pi, struct asm_tok tokenarray[], i
                     EmitError( CONSTANT_EXPECTED );
                 //}
                 //return( ERROR );
-                opndx.value = 0; /* assume value 0 */
+                opndx.llvalue = 0; /* assume value 0 */
             }
             Token_Count = old_tokencount;
         }
 #if TEVALUE_UNSIGNED
         /* v2.03: Masm compatible: returns an unsigned value */
-        myltoa( opndx.value, StringBufferEnd, ModuleInfo.radix, FALSE, FALSE );
+        if ( opndx.hvalue == -1 )
+            myltoa( opndx.uvalue, StringBufferEnd, ModuleInfo.radix, FALSE, FALSE );
+        else
+            myqtoa( opndx.llvalue, StringBufferEnd, ModuleInfo.radix, FALSE, FALSE );
 #else
         myltoa( opndx.value, StringBufferEnd, ModuleInfo.radix, opndx.hvalue < 0, FALSE );
 #endif
-- 
2.43.0


From 40ee4e935e1e0df81b3adcdd5b896d9381bcb79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 16/73] fix: constants above 64 (128) bits were silently
 truncated in expressions, negated wrongly

---
 atofloat.c |  2 +-
 equate.c   |  2 +-
 expreval.c | 16 +++++++++++-----
 hll.c      |  2 +-
 invoke.c   |  2 +-
 5 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/atofloat.c b/atofloat.c
index 7ce89d7..7e7bb83 100644
--- a/atofloat.c
+++ b/atofloat.c
@@ -17,7 +17,7 @@
 
 #define USESTRTOF 0 /* 0=use strtod() and convert "manually", 1=use strtof() */
 
-extern void myatoi128( const char *, uint_64[], int, int );
+extern bool myatoi128( const char *, uint_64[], int, int );
 
 /* it's ensured that 'out' points to a buffer with a size of at least 16 */
 
diff --git a/equate.c b/equate.c
index 16b0bb0..86224ec 100644
--- a/equate.c
+++ b/equate.c
@@ -23,7 +23,7 @@
 #include "fixup.h"
 #include "myassert.h"
 
-extern void myatoi128( const char *, uint_64[], int, int );
+extern bool myatoi128( const char *, uint_64[], int, int );
 
 #if defined(LLONG_MAX) || defined(__GNUC__) || defined(__TINYC__)
 /* gcc needs suffixes if the constants won't fit in long type */
diff --git a/expreval.c b/expreval.c
index ca5eb8b..548a592 100644
--- a/expreval.c
+++ b/expreval.c
@@ -804,10 +804,12 @@ static uint_32 GetRecordMask( struct dsym *record )
  * generated code is run, the old strategy needed too much space.
  */
 
-void myatoi128( const char *src, uint_64 dst[], int base, int size )
+bool myatoi128( const char *src, uint_64 dst[], int base, int size )
 /******************************************************************/
+/* returns FALSE if the number does not fit in 128 bits */
 {
     uint_32             val;
+    bool                fits = TRUE;
     unsigned            len;
     const char          *end = src + size;
     uint_16             *px;
@@ -828,10 +830,11 @@ void myatoi128( const char *src, uint_64 dst[], int base, int size )
             *(px++) = val;
             val >>= 16;
         };
-        //myassert( val == 0 ); /* if number doesn't fit in 128 bits */
+        if ( val ) /* number doesn't fit in 128 bits */
+            fits = FALSE;
         src++;
     } while( src < end );
-    return;
+    return( fits );
 }
 
 /* get an operand. operands are:
@@ -896,7 +899,8 @@ static ret_code get_operand( struct expr *opnd, int *idx, struct asm_tok tokenar
     case T_NUM:
         DebugMsg1(("%u get_operand: T_NUM, %s, base=%u, len=%u\n", evallvl, tokenarray[i].string_ptr, tokenarray[i].numbase, tokenarray[i].itemlen ));
         opnd->kind = EXPR_CONST;
-        myatoi128( tokenarray[i].string_ptr, &opnd->llvalue, tokenarray[i].numbase, tokenarray[i].itemlen );
+        if ( !myatoi128( tokenarray[i].string_ptr, &opnd->llvalue, tokenarray[i].numbase, tokenarray[i].itemlen ) )
+            return( fnEmitErr( CONSTANT_VALUE_TOO_LARGE_EX, opnd->hlvalue, opnd->value64 ) );
         //opnd->llvalue = tokenarray[i].value64;
         //opnd->hlvalue = ( tokenarray[i].numflg == NF_NULL ? 0 : *(uint_64 *)( tokenarray[i].string_ptr - sizeof(uint_64) ) );
         break;
@@ -3199,7 +3203,7 @@ static ret_code negative_op( struct expr *opnd1, struct expr *opnd2 )
          * a bit hackish.
          */
         if ( opnd2->hlvalue )
-            opnd1->hlvalue = -opnd2->hlvalue - 1;
+            opnd1->hlvalue = ~opnd2->hlvalue + ( opnd2->llvalue == 0 );
         opnd1->negative = 1 - opnd2->negative; /* ??? supposed to be used for EXPR_FLOAT only! */
     } else if( opnd2->kind == EXPR_FLOAT ) {
         opnd1->kind = EXPR_FLOAT;
@@ -3385,6 +3389,8 @@ static ret_code calculate( struct expr *opnd1, struct expr *opnd2, const struct
             return( fnEmitErr( CONSTANT_VALUE_TOO_LARGE_EX, opnd2->hlvalue, opnd2->value64 ) );
         }
     }
+    if ( opnd1->hlvalue && opnd1->kind == EXPR_CONST && opnd2->is_opattr == FALSE )
+        return( fnEmitErr( CONSTANT_VALUE_TOO_LARGE_EX, opnd1->hlvalue, opnd1->value64 ) );
 
     switch( oper->token ) {
     case T_OP_SQ_BRACKET:
diff --git a/hll.c b/hll.c
index 4cba19d..a831b14 100644
--- a/hll.c
+++ b/hll.c
@@ -66,7 +66,7 @@ typedef int64_t __int64;
 #endif
 
 int Tokenize(char *, unsigned int, struct asm_tok[], unsigned int);
-void myatoi128(const char *src, uint_64 dst[], int base, int size);
+bool myatoi128(const char *src, uint_64 dst[], int base, int size);
 #define LABELSIZE 8
 #define LABELSGLOBAL 0 /* make the generated labels global */
 #define JMPPREFIX      /* define spaces before "jmp" or "loop" */
diff --git a/invoke.c b/invoke.c
index d0678a7..7a7e829 100644
--- a/invoke.c
+++ b/invoke.c
@@ -109,7 +109,7 @@ enum reg_used_flags {
 #endif
 };
 
-extern void myatoi128( const char *, uint_64[], int, int );
+extern bool myatoi128( const char *, uint_64[], int, int );
 static int size_vararg;    /* size of :VARARG arguments */
 static int fcscratch = 0;  /* exclusively to be used by FASTCALL helper functions */
 static int vcallpass = 0;  /* static global to determine which vectorcall pass we're in */
-- 
2.43.0


From 151b8c026b67e545f970342f5d764cb614b3da52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 17/73] fix: immediate operands accepted constants that do not
 fit in 32 bits

---
 parser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser.c b/parser.c
index fc5239a..0075d9e 100644
--- a/parser.c
+++ b/parser.c
@@ -983,6 +983,12 @@ static ret_code idata_nofixup( struct code_info *CodeInfo, unsigned CurrOpnd, co
 		return(EmitConstError(opndx));
 	}
 
+	/* a 128-bit MASK may be the operand of a SSE/AVX move; negative values below 32 bits
+	 * (or above 63 bits) are still accepted for MOV <mem64>,<imm> */
+	if ((opndx->hlvalue && !(CodeInfo->opnd[OPND1].type & OP_XMM)) || (opndx->value64 < -(int_64)0xFFFFFFFF &&
+		(CodeInfo->token != T_MOV || !(CodeInfo->opnd[OPND1].type & (OP_R64 | OP_M64)))))
+		return(EmitConstError(opndx));
+
     /* v2.03: handle QWORD type coercion here as well!
      * This change also reveals an old problem in the expression evaluator:
      * the mem_type field is set whenever a (simple) type token is found.
-- 
2.43.0


From 500048c6cebe28eeaedbaec359326e34fc1837c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 18/73] fix: LENGTHOF and SIZEOF counted a word initialised by
 a 2-character string twice

---
 data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data.c b/data.c
index 7c508d0..9d76d18 100644
--- a/data.c
+++ b/data.c
@@ -833,7 +833,7 @@ next_item:  /* <--- continue scan if a comma has been detected */
                         first = FALSE; /* avoid to touch first_xxx fields below */
                     }
                 }
-				else if (no_of_bytes == 2 && string_len > 1)
+				else if (no_of_bytes == 2 && string_len > 1 && Options.literal_strings && !Options.masm51_compat && !Options.strict_masm_compat)
 				{
 					sym->isarray = TRUE;
 					total += (string_len - 1);
-- 
2.43.0


From 342d66e486e63688fa77d9119db1fec8f9f3d0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 19/73] fix: data items accepted constants that do not fit

---
 data.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/data.c b/data.c
index 9d76d18..10b99e7 100644
--- a/data.c
+++ b/data.c
@@ -911,9 +911,12 @@ next_item:  /* <--- continue scan if a comma has been detected */
                      * 1-8 and 10 bytes instead of just 1-4.
                      */
                     if ( no_of_bytes <= sizeof( int_64 ) ) {
-                        tmp = ( opndx.chararray[7] < 0x80 ? 0 : 0xFF );
-                        memset( opndx.chararray, tmp, no_of_bytes );
-                        if ( opndx.llvalue != 0 && opndx.llvalue != -1 ) {
+                        if ( no_of_bytes < sizeof( int_64 ) ) {
+                            int_64 limit = (int_64)1 << ( no_of_bytes * 8 );
+                            tmp = opndx.value64 >= limit || opndx.value64 <= -limit || ( opndx.hlvalue != 0 && opndx.hlvalue != -1 );
+                        } else
+                            tmp = opndx.hlvalue != 0 && ( opndx.hlvalue != -1 || opndx.llvalue == 0 );
+                        if ( tmp ) {
                             DebugMsg(("data_item.CONST: error, unhandled data is %" I64_SPEC "X_%016" I64_SPEC "X\n", opndx.hlvalue, opndx.llvalue));
                             return( EmitErr( INITIALIZER_MAGNITUDE_TOO_LARGE, opndx.sym ? opndx.sym->name : "" ) );
                         }
-- 
2.43.0


From c7dc52d2c9e15d9020d4a2ff1b27a1c8cd379264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 20/73] fix: operators on a string constant still yielded the
 string (dd high32 'ba')

---
 expreval.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/expreval.c b/expreval.c
index 548a592..abe285a 100644
--- a/expreval.c
+++ b/expreval.c
@@ -4242,6 +4242,9 @@ static ret_code evaluate( struct expr *opnd1, int *i, struct asm_tok tokenarray[
         }
         if (rc != ERROR){
             rc = calculate( opnd1, &opnd2, &tokenarray[curr_operator] );
+            /* the result of an operator is no longer a string */
+            if ( rc != ERROR && opnd1->kind == EXPR_CONST && tokenarray[curr_operator].token != T_OP_BRACKET )
+                opnd1->quoted_string = NULL;
           }
         /* here we get the mask 128 v2.45  */
           p1 = tokenarray[3].string_ptr;
-- 
2.43.0


From 52e563195f483b317f5f71dbbd2cb6f0d9fd55a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 21/73] fix: ZMMWORD items had 32 bytes and were taken for
 floats

---
 data.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/data.c b/data.c
index 10b99e7..17c62ce 100644
--- a/data.c
+++ b/data.c
@@ -82,6 +82,9 @@
 	#endif
 #endif
 
+/* ZMMWORD's type includes the float bit */
+#define IS_FLOAT( mt ) ( ( (mt) & MT_FLOAT ) && (mt) != MT_ZMMWORD )
+
 extern ret_code segm_override( const struct expr *, struct code_info * );
 extern struct asym *SegOverride;
 extern const char szNull[];
@@ -177,7 +180,7 @@ static ret_code InitializeArray( const struct sfield *f, int *pi, struct asm_tok
             rc = NOT_ERROR;
         else {
             lvl = i; /* i must remain the start index */
-            rc = data_item( &lvl, tokenarray, NULL, no_of_bytes, f->sym.type, 1, FALSE, f->sym.mem_type & MT_FLOAT, FALSE, j );
+            rc = data_item( &lvl, tokenarray, NULL, no_of_bytes, f->sym.type, 1, FALSE, IS_FLOAT( f->sym.mem_type ), FALSE, j );
         }
 
     } else {
@@ -192,7 +195,7 @@ static ret_code InitializeArray( const struct sfield *f, int *pi, struct asm_tok
         } else {
             Token_Count = Tokenize( tokenarray[i].string_ptr, j, tokenarray, TOK_RESCAN );
         }
-        rc = data_item( &j, tokenarray, NULL, no_of_bytes, f->sym.type, 1, FALSE, f->sym.mem_type & MT_FLOAT, FALSE, Token_Count );
+        rc = data_item( &j, tokenarray, NULL, no_of_bytes, f->sym.type, 1, FALSE, IS_FLOAT( f->sym.mem_type ), FALSE, Token_Count );
         Token_Count = old_tokencount;
     }
 
@@ -372,7 +375,7 @@ static ret_code InitStructuredVar( int index, struct asm_tok tokenarray[], const
                 int tc = Token_Count;
                 int j = Token_Count+1;
                 Token_Count = Tokenize( f->ivalue, j, tokenarray, TOK_RESCAN );
-                data_item( &j, tokenarray, NULL, no_of_bytes, f->sym.type, 1, FALSE, f->sym.mem_type & MT_FLOAT, FALSE, Token_Count );
+                data_item( &j, tokenarray, NULL, no_of_bytes, f->sym.type, 1, FALSE, IS_FLOAT( f->sym.mem_type ), FALSE, Token_Count );
                 Token_Count = tc;
             } else {
                 char c;
@@ -392,7 +395,7 @@ static ret_code InitStructuredVar( int index, struct asm_tok tokenarray[], const
                 if ( c ) {
                     EmitErr( INITIALIZER_MUST_BE_A_STRING_OR_SINGLE_ITEM, tokenarray[j].tokpos );
                 } else
-                    if ( ERROR == data_item( &j, tokenarray, NULL, no_of_bytes, f->sym.type, 1, FALSE, f->sym.mem_type & MT_FLOAT, FALSE, i ) ) {
+                    if ( ERROR == data_item( &j, tokenarray, NULL, no_of_bytes, f->sym.type, 1, FALSE, IS_FLOAT( f->sym.mem_type ), FALSE, i ) ) {
                         EmitErr( INVALID_DATA_INITIALIZER, f->sym.name );
                     }
             }
@@ -489,10 +492,10 @@ static char *little_endian( const char *src, unsigned len )
 static void output_float( const struct expr *opnd, unsigned size )
 /****************************************************************/
 {
-    /* v2.07: buffer extended to max size of a data item (=32).
+    /* v2.07: buffer extended to max size of a data item (=64).
      * test case: XMMWORD REAL10 ptr 1.0
      */
-    char buffer[32];
+    char buffer[64];
 	char tstr[32];
 
     if ( opnd->mem_type != MT_EMPTY ) {
@@ -1361,8 +1364,8 @@ ret_code data_dir( int i, struct asm_tok tokenarray[], struct asym *type_sym )
         if ( ( mem_type & MT_SPECIAL_MASK ) == MT_ADDRESS ) {
             return( EmitErr( SYNTAX_ERROR_EX, tokenarray[i].string_ptr ) );
         }
-        no_of_bytes = (mem_type & MT_SIZE_MASK) + 1;
-        if ( mem_type & MT_FLOAT )
+        no_of_bytes = SizeFromMemtype( mem_type, USE_EMPTY, NULL );
+        if ( IS_FLOAT( mem_type ) )
             is_float = TRUE;
     }
 
-- 
2.43.0


From e3497c7e5c97c72a1b9a5f3c8796d79de047b515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 22/73] fix: negative YMMWORD and ZMMWORD items were not
 sign-extended

---
 data.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/data.c b/data.c
index 17c62ce..cfcd3f1 100644
--- a/data.c
+++ b/data.c
@@ -895,6 +895,8 @@ next_item:  /* <--- continue scan if a comma has been detected */
                  * clear anything which is above.
                  */
                 if ( no_of_bytes > 16 ) {
+                    if ( opndx.negative && opndx.value64 < 0 && opndx.hlvalue == 0 )
+                        opndx.hlvalue = -1;
                     OutputDataBytes( opndx.chararray, 16 );
                     tmp = ( opndx.chararray[15] < 0x80 ? 0 : 0xFF );
                     FillDataBytes( tmp, no_of_bytes - 16 );
-- 
2.43.0


From 86b055b6558cf2596289c822736e58dda497c287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 23/73] fix: integers in REAL4/REAL8/REAL10 items were rounded
 to 24 bits, truncated to 32 bits

---
 data.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/data.c b/data.c
index cfcd3f1..a056748 100644
--- a/data.c
+++ b/data.c
@@ -510,7 +510,7 @@ static void output_float( const struct expr *opnd, unsigned size )
     } 
 	else if (opnd->kind == EXPR_FLOATI)
 	{
-		snprintf(tstr, sizeof(tstr), "%f", opnd->fvalue);
+		snprintf(tstr, sizeof(tstr), "%" I64_SPEC "u", opnd->llvalue);
 		atofloat( buffer, tstr, size, opnd->negative, 0 );
 	}
 	else {
@@ -759,11 +759,12 @@ next_item:  /* <--- continue scan if a comma has been detected */
         break;
     case EXPR_CONST:
         if ( is_float ) {
-			opndx.fvalue = (float)opndx.value;
+			if (opndx.hlvalue)
+				return(EmitConstError(&opndx));
 			opndx.kind = EXPR_FLOATI;
-			opndx.negative = (opndx.fvalue < 0) ? 1 : 0;
+			opndx.negative = (opndx.value64 < 0) ? 1 : 0;
 			if (opndx.negative)
-				opndx.fvalue *= -1;
+				opndx.llvalue = 0 - opndx.llvalue;
 			output_float( &opndx, no_of_bytes); /* Coerce const integer value to float in data definitions */
 			total++;
 			break;
-- 
2.43.0


From 2bcbd5a9fd61bd7fcf50703b0c5b8153eb392356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 24/73] fix: YMMWORD and ZMMWORD items of 2^127 and above were
 sign-extended

---
 data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data.c b/data.c
index a056748..45129a0 100644
--- a/data.c
+++ b/data.c
@@ -899,7 +899,7 @@ next_item:  /* <--- continue scan if a comma has been detected */
                     if ( opndx.negative && opndx.value64 < 0 && opndx.hlvalue == 0 )
                         opndx.hlvalue = -1;
                     OutputDataBytes( opndx.chararray, 16 );
-                    tmp = ( opndx.chararray[15] < 0x80 ? 0 : 0xFF );
+                    tmp = ( opndx.negative && opndx.chararray[15] >= 0x80 ) ? 0xFF : 0;
                     FillDataBytes( tmp, no_of_bytes - 16 );
                 } else {
                     /* v2.06: TBYTE/OWORD/XMMWORD: extend a negative value to 16-byte */
-- 
2.43.0


From 580ce6c3ce37b7ba4934f3b1e05d97bf44ac919d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:06 +0000
Subject: [PATCH 25/73] fix: fields of RECORDs above 64 bits that cross bit 64
 got wrong upper bits

---
 data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data.c b/data.c
index 45129a0..ad97d43 100644
--- a/data.c
+++ b/data.c
@@ -108,7 +108,7 @@ static ret_code data_item( int *, struct asm_tok[], struct asym *, uint_32, cons
     } 
     else {
       orLo = orLo << pos;
-      num = num >> ~pos;
+      num = pos ? num >> (0x40 - pos) : 0;
       orHi |= num;
     } 
     *dstHi |= orHi;
-- 
2.43.0


From d7ae670df32e44e7f030f6761e1bad11b63a0a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:06 +0000
Subject: [PATCH 26/73] fix: values of RECORD fields were not checked beyond 32
 bits, an omitted one could have garbage there

---
 data.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/data.c b/data.c
index ad97d43..340d2ff 100644
--- a/data.c
+++ b/data.c
@@ -316,7 +316,7 @@ static ret_code InitStructuredVar( int index, struct asm_tok tokenarray[], const
                     EvalOperand( &j, tokenarray, max_item, &opndx, 0 );
                     is_record_set = TRUE;
                 } else {
-                    opndx.value = 0;
+                    opndx.llvalue = 0;
                     opndx.kind = EXPR_CONST;
                     opndx.quoted_string = NULL;
                 }
@@ -327,12 +327,8 @@ static ret_code InitStructuredVar( int index, struct asm_tok tokenarray[], const
             if ( opndx.kind != EXPR_CONST || opndx.quoted_string != NULL )
                 EmitError( CONSTANT_EXPECTED );
 
-            /* fixme: max bits in 64-bit is 64 - see MAXRECBITS! */
-            if ( f->sym.total_size < 32 ) {
-                uint_32 dwMax = (1 << f->sym.total_size);
-                if ( opndx.value >= dwMax )
-                    EmitErr( INITIALIZER_MAGNITUDE_TOO_LARGE, f->sym.name );
-            }
+            else if ( f->sym.total_size < 64 && opndx.llvalue >> f->sym.total_size )
+                EmitErr( INITIALIZER_MAGNITUDE_TOO_LARGE, f->sym.name );
             if (symtype->sym.mem_type == MT_OWORD){
                 dwRecIHi = 0;  /* clear Hi 64 bit for the 128 bit RECORD */
                 dwRecILo = 0;  /* clear Lo 64 bit for the 128 bit RECORD */
-- 
2.43.0


From ab4e951b0a4cf2e6091b7a7ad93e1e93d3b6704f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:25 +0000
Subject: [PATCH 27/73] fix: LENGTHOF of an embedded structure was 0

---
 types.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/types.c b/types.c
index 394221e..06804f0 100644
--- a/types.c
+++ b/types.c
@@ -1116,6 +1116,7 @@ ret_code EndstructDirective( int i, struct asm_tok tokenarray[] )
         //sym->name = dir->sym.name;
         //sym->name_size = strlen( dir->sym.name );
         sym->total_size = dir->sym.total_size;
+        sym->total_length = 1;
         dir->sym.name = ""; /* the type becomes anonymous */
         dir->sym.name_size = 0;
     }
-- 
2.43.0


From 00a315dad0b09f7d3a95b99c01848950cec63562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:06 +0000
Subject: [PATCH 28/73] fix: string instructions with sized memory operands
 emitted a displacement

---
 codegen.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/codegen.c b/codegen.c
index ddb3f14..d716490 100644
--- a/codegen.c
+++ b/codegen.c
@@ -2687,9 +2687,14 @@ static void output_data(const struct code_info *CodeInfo, enum operand_type dete
   if (CodeInfo->token == T_XLAT || CodeInfo->token == T_XLATB)
 	  return;
 
-  /* Never output immediate data for a lods, movs or stos */
-  if (CodeInfo->token == T_LODS || CodeInfo->token == T_MOVS || CodeInfo->token == T_STOS)
-	  return;
+  /* the memory operands of a string instruction are implied, they are never encoded
+   * ( MOVSD and CMPSD may also be SSE2 instructions, whose opcodes differ ) */
+  if ( ( CodeInfo->token >= T_CMPS && CodeInfo->token <= T_STOSD ) ||
+	  ( CodeInfo->token >= T_CMPSQ && CodeInfo->token <= T_STOSQ ) ) {
+	  int opc = CodeInfo->pinstr->opcode;
+	  if ( ( opc >= 0x6C && opc <= 0x6F ) || ( opc >= 0xA4 && opc <= 0xA7 ) || ( opc >= 0xAA && opc <= 0xAF ) )
+		  return;
+  }
 
 #if AVXSUPP
     if (CodeInfo->token >= VEX_START){
-- 
2.43.0


From 258900833ef591504e741dc9c8c0eb26356cae40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:12 +0000
Subject: [PATCH 29/73] fix: segment override by name with a register operand
 set the address-size prefix

---
 parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 0075d9e..c06771d 100644
--- a/parser.c
+++ b/parser.c
@@ -618,7 +618,8 @@ static void seg_override( struct code_info *CodeInfo, int seg_reg, const struct
     } else {
         if ( sym || SegOverride )
             check_assume( CodeInfo, sym, default_seg );
-        if ( sym == NULL && SegOverride ) {
+        /* with a base or index register it's the register that decides */
+        if ( direct && sym == NULL && SegOverride ) {
             CodeInfo->prefix.adrsiz = ADDRSIZE( CodeInfo->Ofssize, GetSymOfssize( SegOverride ) );
         }
     }
-- 
2.43.0


From c028469f173360b77da0cfa7b3fe28489481499c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:28 +0000
Subject: [PATCH 30/73] fix: POPCONTEXT CPU changed @Cpu for the following
 passes

---
 context.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/context.c b/context.c
index 2136790..338e6e9 100644
--- a/context.c
+++ b/context.c
@@ -17,6 +17,7 @@
 #include "expreval.h"
 #include "fastpass.h"
 #include "listing.h"
+#include "equate.h"
 
 /* v2.10: static variables moved to ModuleInfo */
 #define ContextStack ModuleInfo.g.ContextStack
@@ -98,8 +99,6 @@ struct context {
     };
 };
 
-extern struct asym *sym_Cpu;
-
 /* v2.10: major rewrite of this function */
 
 ret_code ContextDirective( int i, struct asm_tok tokenarray[] )
@@ -180,8 +179,8 @@ ret_code ContextDirective( int i, struct asm_tok tokenarray[] )
                     break;
                 case CONT_CPU:
                     ModuleInfo.cpu      = curr->cc.cpu;
-                    if ( sym_Cpu )
-                        sym_Cpu->value  = curr->cc.cpu;
+                    /* the variable's value before this change is to be restored in the next pass */
+                    CreateVariable( "@Cpu", curr->cc.cpu );
                     ModuleInfo.curr_cpu = curr->cc.curr_cpu;
                 }
             }
-- 
2.43.0


From cf6d8991734b76664ab265ef36bd4ac3c6d409a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:14 +0000
Subject: [PATCH 31/73] fix: a module whose segments changed size, but not the
 sum of the sizes, was not assembled again

---
 H/symbols.h |  1 +
 assemble.c  | 12 +++++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/H/symbols.h b/H/symbols.h
index 4d837db..72967d4 100644
--- a/H/symbols.h
+++ b/H/symbols.h
@@ -319,6 +319,7 @@ struct seg_info {
     uint_8              *CodeBuffer;
 #endif
     uint_32             bytes_written;  /* initialized bytes in segment */
+    uint_32             prev_size;      /* size of segment in previous pass */
     union {
         struct asym     *label_list;    /* linked list of labels in this seg */
         FlushSegFunc    flushfunc;      /* to flush the segment buffer */
diff --git a/assemble.c b/assemble.c
index f07ff31..f4f5d5e 100644
--- a/assemble.c
+++ b/assemble.c
@@ -1571,6 +1571,7 @@ int EXPQUAL AssembleModule( const char *source )
 {
     uint_32       prev_written = -1;
     uint_32       curr_written;
+    bool          size_changed;
     int           starttime;
     int           endtime;
     struct dsym   *seg;
@@ -1644,11 +1645,20 @@ int EXPQUAL AssembleModule( const char *source )
         }
 
         /* calculate total size of segments */
+        size_changed = FALSE;
         for ( curr_written = 0, seg = SymTables[TAB_SEG].head; seg ; seg = seg->next ) {
             /* v2.04: use <max_offset> instead of <bytes_written>
              * (the latter is not always reliable due to backpatching).
              */
             curr_written += seg->sym.max_offset;
+            /* the segments' buffers are laid out according to the sizes found
+             * in the previous pass, so it's not sufficient if just the sum of
+             * the sizes is unchanged.
+             */
+            if ( seg->e.seginfo->prev_size != seg->sym.max_offset ) {
+                seg->e.seginfo->prev_size = seg->sym.max_offset;
+                size_changed = TRUE;
+            }
             DebugMsg(("AssembleModule(%u): segm=%-8s start=%8" I32_SPEC "X max_ofs=%8" I32_SPEC "X written=%" I32_SPEC "X\n",
                       Parse_Pass + 1, seg->sym.name, seg->e.seginfo->start_loc, seg->sym.max_offset,
                       seg->e.seginfo->bytes_written ));
@@ -1656,7 +1666,7 @@ int EXPQUAL AssembleModule( const char *source )
 
         /* if there's no phase error and size of segments didn't change, we're done */
         DebugMsg(("AssembleModule(%u): PhaseError=%u, prev_written=%" I32_SPEC "X, curr_written=%" I32_SPEC "X\n", Parse_Pass + 1, ModuleInfo.PhaseError, prev_written, curr_written));
-        if( !ModuleInfo.PhaseError && prev_written == curr_written )
+        if( !ModuleInfo.PhaseError && prev_written == curr_written && !size_changed )
             break;
 
 #ifdef DEBUG_OUT
-- 
2.43.0


From 57972748736c5d39beac5014803a9ebcb9d69d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:25 +0000
Subject: [PATCH 32/73] fix: code that grew by more than 25% after pass 1 was
 written beyond the code buffer

---
 H/symbols.h |  1 +
 assemble.c  | 18 +++++++++++++++---
 segment.c   | 17 ++++++++++-------
 3 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/H/symbols.h b/H/symbols.h
index 72967d4..1a8bfed 100644
--- a/H/symbols.h
+++ b/H/symbols.h
@@ -320,6 +320,7 @@ struct seg_info {
 #endif
     uint_32             bytes_written;  /* initialized bytes in segment */
     uint_32             prev_size;      /* size of segment in previous pass */
+    uint_32             buffer_size;    /* size of segment's part of the code buffer (not OMF) */
     union {
         struct asym     *label_list;    /* linked list of labels in this seg */
         FlushSegFunc    flushfunc;      /* to flush the segment buffer */
diff --git a/assemble.c b/assemble.c
index f4f5d5e..05e1a3d 100644
--- a/assemble.c
+++ b/assemble.c
@@ -234,6 +234,13 @@ char *ConvertSectionName( const struct asym *sym, enum seg_type *pst, char *buff
 }
 #endif
 
+/* The segment may have grown beyond the buffer that has been allocated at
+ * the start of this pass. The bytes that don't fit aren't stored then. It's no
+ * problem because the changed size causes another pass.
+ */
+#define BUFFER_ROOM( seg, idx, len ) ( (seg)->e.seginfo->buffer_size == 0 || \
+    ( (idx) <= (seg)->e.seginfo->buffer_size && (len) <= (seg)->e.seginfo->buffer_size - (idx) ) )
+
 /* Write a byte to the segment buffer.
  * in OMF, the segment buffer is flushed when the max. record size is reached.
  */
@@ -253,7 +260,8 @@ void OutputByte( unsigned char byte )
             idx = CurrSeg->e.seginfo->current_loc - CurrSeg->e.seginfo->start_loc;
         }
         //DebugMsg(("OutputByte: buff=%p, idx=%" I32_SPEC "X, byte=%X, codebuff[0]=%X\n", CurrSeg->e.seginfo->CodeBuffer, idx, byte, *CurrSeg->e.seginfo->CodeBuffer ));
-        CurrSeg->e.seginfo->CodeBuffer[idx] = byte;
+        if ( BUFFER_ROOM( CurrSeg, idx, 1 ) )
+            CurrSeg->e.seginfo->CodeBuffer[idx] = byte;
     }
 #if 1
     /* check this in pass 1 only */
@@ -289,6 +297,7 @@ void OutputBinBytes(unsigned char* pBytes, uint_32 len)
 			idx = CurrSeg->e.seginfo->current_loc - CurrSeg->e.seginfo->start_loc;
 		}
 		//DebugMsg(("OutputByte: buff=%p, idx=%" I32_SPEC "X, byte=%X, codebuff[0]=%X\n", CurrSeg->e.seginfo->CodeBuffer, idx, byte, *CurrSeg->e.seginfo->CodeBuffer ));
+		if ( BUFFER_ROOM( CurrSeg, idx, len ) )
 		for (i = 0; i < len; i++)
 		{
 			CurrSeg->e.seginfo->CodeBuffer[idx++] = *(pBytes++);
@@ -347,7 +356,8 @@ void OutputSegmentBytes(struct dsym* segg, const unsigned char *pbytes, int len,
 		if (fixup)
 			store_fixup(fixup, segg, (int_32 *)pbytes);
 		//DebugMsg(("OutputBytes: buff=%p, idx=%" I32_SPEC "X, byte=%X\n", CurrSeg->e.seginfo->CodeBuffer, idx, *pbytes ));
-		memcpy(&segg->e.seginfo->CodeBuffer[idx], pbytes, len);
+		if ( BUFFER_ROOM( segg, idx, len ) )
+			memcpy(&segg->e.seginfo->CodeBuffer[idx], pbytes, len);
 	}
 #if 1
 	/* check this in pass 1 only */
@@ -386,7 +396,8 @@ void OutputBytes( const unsigned char *pbytes, int len, struct fixup *fixup )
         if ( fixup )
             store_fixup( fixup, CurrSeg, (int_32 *)pbytes );
         //DebugMsg(("OutputBytes: buff=%p, idx=%" I32_SPEC "X, byte=%X\n", CurrSeg->e.seginfo->CodeBuffer, idx, *pbytes ));
-        memcpy( &CurrSeg->e.seginfo->CodeBuffer[idx], pbytes, len );
+        if ( BUFFER_ROOM( CurrSeg, idx, len ) )
+            memcpy( &CurrSeg->e.seginfo->CodeBuffer[idx], pbytes, len );
     }
 #if 1
     /* check this in pass 1 only */
@@ -424,6 +435,7 @@ void OutputInterleavedBytes(const unsigned char *pbytes, int len, struct fixup *
 		if (fixup)
 			store_fixup(fixup, CurrSeg, (int_32 *)pbytes);
 		pOut = &CurrSeg->e.seginfo->CodeBuffer[idx];
+		if ( BUFFER_ROOM( CurrSeg, idx, len*2 ) )
 		for (i = 0; i < len*2; i++)
 		{
 			if (i % 2 == 1)
diff --git a/segment.c b/segment.c
index cd173ff..a4f4256 100644
--- a/segment.c
+++ b/segment.c
@@ -1179,12 +1179,14 @@ void SegmentInit( int pass )
     }
 
     /*
-     * alloc a buffer for the contents
+     * alloc a buffer for the contents; do it again if the segments have grown.
      */
-    if ( ModuleInfo.pCodeBuff == NULL && Options.output_format != OFORMAT_OMF ) {
-        for( curr = SymTables[TAB_SEG].head, buffer_size = 0; curr; curr = curr->next ) {
+    if ( pass != PASS_1 && Options.output_format != OFORMAT_OMF ) {
+        uint_32 size = 0;
+        for( curr = SymTables[TAB_SEG].head; curr; curr = curr->next ) {
             if ( curr->e.seginfo->internal )
                 continue;
+            curr->e.seginfo->buffer_size = 0;
             if ( curr->e.seginfo->bytes_written ) {
                 i = curr->sym.max_offset - curr->e.seginfo->start_loc;
                 /* the segment can grow in step 2-n due to forward references.
@@ -1194,10 +1196,12 @@ void SegmentInit( int pass )
                  */
                 if ( curr->e.seginfo->segtype == SEGTYPE_CODE )
                     i = i + (i >> 2);
-                buffer_size += i;
+                curr->e.seginfo->buffer_size = i;
+                size += i;
             }
         }
-        if ( buffer_size ) {
+        if ( size > buffer_size || ( size && ModuleInfo.pCodeBuff == NULL ) ) {
+            buffer_size = size;
             ModuleInfo.pCodeBuff = LclAlloc( buffer_size );
         }
     }
@@ -1213,8 +1217,7 @@ void SegmentInit( int pass )
                 curr->e.seginfo->CodeBuffer = codebuf;
             } else {
                 curr->e.seginfo->CodeBuffer = p;
-                i = curr->sym.max_offset - curr->e.seginfo->start_loc;
-                p += i;
+                p += curr->e.seginfo->buffer_size;
             }
         }
         if( curr->e.seginfo->combine != COMB_STACK ) {
-- 
2.43.0


From 8d13cd161f52ec87edca575a43e3c35e2bbd4f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:33 +0000
Subject: [PATCH 33/73] fix: MMX/SSE instructions with a full vector tuple were
 taken for string instructions (segment overrides dropped or rejected)

---
 reswords.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/reswords.c b/reswords.c
index 7048998..d85d994 100644
--- a/reswords.c
+++ b/reswords.c
@@ -170,15 +170,20 @@ enum opnd_variants {
 
 #define OpCls( op1, op2, op3 ) OPC_ ## op1 ## op2 ## op3
 
+/* MMX/SSE/AVX entries store the EVEX tuple type in <prefix>; it must not be
+ * taken for one of the values of enum allowed_prefix.
+ */
+#define AllowedPrefix( cpu, prefix ) ( ( (cpu) & P_EXT_MASK ) ? 0 : (prefix) )
+
 const struct instr_item InstrTable[] = {
 #define ins(tok, string, opcls, byte1_info,op_dir,rm_info,opcode,rm_byte,cpu,prefix) \
-    { opcls, byte1_info, prefix, 1, rm_info, op_dir, prefix, cpu, opcode, rm_byte },
+    { opcls, byte1_info, AllowedPrefix( cpu, prefix ), 1, rm_info, op_dir, prefix, cpu, opcode, rm_byte },
 #define insx(tok,string, opcls, byte1_info,op_dir,rm_info,opcode,rm_byte,cpu,prefix,flgs) \
-    { opcls, byte1_info, prefix, 1, rm_info, op_dir, prefix, cpu, opcode, rm_byte },
+    { opcls, byte1_info, AllowedPrefix( cpu, prefix ), 1, rm_info, op_dir, prefix, cpu, opcode, rm_byte },
 #define insn(tok,suffix, opcls, byte1_info,op_dir,rm_info,opcode,rm_byte,cpu,prefix) \
-    { opcls, byte1_info, prefix, 0, rm_info, op_dir, prefix, cpu, opcode, rm_byte },
+    { opcls, byte1_info, AllowedPrefix( cpu, prefix ), 0, rm_info, op_dir, prefix, cpu, opcode, rm_byte },
 #define insm(tok,suffix, opcls, byte1_info,op_dir,rm_info,opcode,rm_byte,cpu,prefix) \
-    { opcls, byte1_info, prefix, 1, rm_info, op_dir, prefix, cpu, opcode, rm_byte },
+    { opcls, byte1_info, AllowedPrefix( cpu, prefix ), 1, rm_info, op_dir, prefix, cpu, opcode, rm_byte },
 #include "instruct.h"
 #include "instr64.h"
   ins(NULL,0,OpCls(NONE,NONE,NONE),0,0,0,0,0,0,0) /* last entry - needed for its ".first" (=1) field */
-- 
2.43.0


From c998b8cd1703c4bf22d8d0abdcf5ebdee6bf746a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:33 +0000
Subject: [PATCH 34/73] fix: in 32-bit code, [si] with 16-bit addressing was
 written with a SIB byte

---
 codegen.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/codegen.c b/codegen.c
index d716490..0d64ff3 100644
--- a/codegen.c
+++ b/codegen.c
@@ -2649,10 +2649,11 @@ static void output_opc(struct code_info *CodeInfo)
             }
 		    OutputCodeByte( tmp );
 
-        //if( ( CodeInfo->Ofssize == USE16 && CodeInfo->prefix.adrsiz == 0 ) ||
-        //   ( CodeInfo->Ofssize == USE32 && CodeInfo->prefix.adrsiz == 1 ) )
-        //    return; /* no SIB for 16bit */
-        if ( CodeInfo->Ofssize == USE16 && CodeInfo->prefix.adrsiz == 0 ) 
+        if ( CodeInfo->Ofssize == USE16 && CodeInfo->prefix.adrsiz == 0 )
+            return; /* no SIB for 16bit */
+        /* the VSIB instructions always have a SIB byte */
+        if ( CodeInfo->Ofssize == USE32 && CodeInfo->prefix.adrsiz == 1 &&
+            ( CodeInfo->token < T_VPGATHERDD || CodeInfo->token > T_VSCATTERQPD ) )
             return; /* no SIB for 16bit */
 
         switch ( tmp & NOT_BIT_345 ) {
-- 
2.43.0


From 118dff5e4f4bc668e07f6f0c01a1b173665e0740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:14 +0000
Subject: [PATCH 35/73] fix: the flags of the AVX instructions were off by the
 four KTEST entries (wrong VEX.vvvv and operand order)

---
 reswords.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reswords.c b/reswords.c
index d85d994..19def6f 100644
--- a/reswords.c
+++ b/reswords.c
@@ -880,6 +880,10 @@ VX_LL|VX_L,      /* VPMULTISHIFTQB */
          VX_NND,      /* KSHIFTRW */
          VX_NND,      /* KSHIFTRD */
          VX_NND,      /* KSHIFTRQ */
+         VX_NND,      /* KTESTB   */
+         VX_NND,      /* KTESTW   */
+         VX_NND,      /* KTESTD   */
+         VX_NND,      /* KTESTQ   */
 		 VX_NND,      /* KMOVB    */
 		 VX_NND,      /* KMOVD    */
 		 VX_NND,      /* KMOVQ    */
-- 
2.43.0


From efdbee590c054822aa7fd5f8842ccf19283e9e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:14 +0000
Subject: [PATCH 36/73] fix: [ebx*4] in 64-bit code lacked the address size
 prefix for the instructions of the new code generator

---
 codegenv2.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/codegenv2.c b/codegenv2.c
index ae4b814..e8d2090 100644
--- a/codegenv2.c
+++ b/codegenv2.c
@@ -1283,10 +1283,11 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 	}
 	else
 	{
-		/* Address format requires Address Size Override Prefix */
-		if ((ModuleInfo.Ofssize == USE64 && baseRegSize == 4) ||
-			(ModuleInfo.Ofssize == USE32 && baseRegSize == 2) ||
-			(ModuleInfo.Ofssize == USE16 && baseRegSize == 4))
+		/* Address format requires Address Size Override Prefix; without a base register the index decides */
+		int addrRegSize = baseRegSize ? baseRegSize : idxRegSize;
+		if ((ModuleInfo.Ofssize == USE64 && addrRegSize == 4) ||
+			(ModuleInfo.Ofssize == USE32 && addrRegSize == 2) ||
+			(ModuleInfo.Ofssize == USE16 && addrRegSize == 4))
 			returnASO = 1;
 	}
 
-- 
2.43.0


From 9ae6c791ddf500a12ba96ea3255b70630ca983f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:38 +0000
Subject: [PATCH 37/73] fix: operands with 16-bit registers in 32-bit code, and
 symbols with registers of another size, were encoded with a wrong address
 size

---
 codegenv2.c | 72 +++++++++++++++++++++++++++++------------------------
 1 file changed, 40 insertions(+), 32 deletions(-)

diff --git a/codegenv2.c b/codegenv2.c
index e8d2090..7af38e2 100644
--- a/codegenv2.c
+++ b/codegenv2.c
@@ -1216,7 +1216,9 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 	int             baseRegSize = 0;
 	int             idxRegSize = 0;
 	int             symSize = 0;
+	int             addrRegSize;
 	bool			skipSIB = FALSE;
+	bool			needDisp = FALSE;
 
 	/* Absolute addressing modes can skip this */
 	if (instr->memOpnd != MEM_ABS_1 && instr->memOpnd != MEM_ABS_0)
@@ -1281,42 +1283,48 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 		}
 
 	}
-	else
-	{
-		/* Address format requires Address Size Override Prefix; without a base register the index decides */
-		int addrRegSize = baseRegSize ? baseRegSize : idxRegSize;
-		if ((ModuleInfo.Ofssize == USE64 && addrRegSize == 4) ||
-			(ModuleInfo.Ofssize == USE32 && addrRegSize == 2) ||
-			(ModuleInfo.Ofssize == USE16 && addrRegSize == 4))
-			returnASO = 1;
-	}
+
+	/* Address format requires Address Size Override Prefix; without a base register the index decides */
+	addrRegSize = baseRegSize ? baseRegSize : idxRegSize;
+	if ((ModuleInfo.Ofssize == USE64 && addrRegSize == 4) ||
+		(ModuleInfo.Ofssize == USE32 && addrRegSize == 2) ||
+		(ModuleInfo.Ofssize == USE16 && addrRegSize == 4))
+		returnASO = 1;
 
 	/* Calculate 16bit memory addressing ModRM in 32bit mode */
 	if (ModuleInfo.Ofssize == USE32 && baseRegSize == 2)
 	{
 		if (instr->memOpnd < NO_MEM)
 		{
-			/* [BX + SI]	[BX + DI]	[BP + SI]	[BP + DI]	[SI]	[DI]	[disp16]	[BX] */
-			if (opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].idx_reg &&
-				opExpr[instr->memOpnd].base_reg->tokval == T_BX && opExpr[instr->memOpnd].idx_reg->tokval == T_SI)
-				* pmodRM |= 0;
-			else if (opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].idx_reg &&
-				opExpr[instr->memOpnd].base_reg->tokval == T_BX && opExpr[instr->memOpnd].idx_reg->tokval == T_DI)
-				* pmodRM |= 1;
-			else if (opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].idx_reg &&
-				opExpr[instr->memOpnd].base_reg->tokval == T_BP && opExpr[instr->memOpnd].idx_reg->tokval == T_SI)
-				* pmodRM |= 2;
-			else if (opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].idx_reg &&
-				opExpr[instr->memOpnd].base_reg->tokval == T_BP && opExpr[instr->memOpnd].idx_reg->tokval == T_DI)
-				* pmodRM |= 3;
-			else if (opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].base_reg->tokval == T_SI)
-				* pmodRM |= 4;
-			else if (opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].base_reg->tokval == T_DI)
-				* pmodRM |= 5;
-			else if (!opExpr[instr->memOpnd].base_reg && !opExpr[instr->memOpnd].idx_reg)
-				* pmodRM |= 6;
-			else if (opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].base_reg->tokval == T_BX)
-				* pmodRM |= 7;
+			/* [BX + SI]	[BX + DI]	[BP + SI]	[BP + DI]	[SI]	[DI]	[BP]	[BX] */
+			int base = opExpr[instr->memOpnd].base_reg->tokval;
+			int idx = opExpr[instr->memOpnd].idx_reg ? opExpr[instr->memOpnd].idx_reg->tokval : 0;
+			if (idx == T_BX || idx == T_BP)
+			{
+				/* base and index may have been written in any order */
+				idx = base;
+				base = opExpr[instr->memOpnd].idx_reg->tokval;
+			}
+			if (base == T_BX && idx == T_SI)
+				*pmodRM |= 0;
+			else if (base == T_BX && idx == T_DI)
+				*pmodRM |= 1;
+			else if (base == T_BP && idx == T_SI)
+				*pmodRM |= 2;
+			else if (base == T_BP && idx == T_DI)
+				*pmodRM |= 3;
+			else if (base == T_SI)
+				*pmodRM |= 4;
+			else if (base == T_DI)
+				*pmodRM |= 5;
+			else if (base == T_BP)
+			{
+				/* [BP] exists with a displacement only */
+				*pmodRM |= 6;
+				needDisp = TRUE;
+			}
+			else
+				*pmodRM |= 7;
 
 			*needModRM |= TRUE;
 
@@ -1361,7 +1369,7 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 	/* Either: User specified
 	           RIP relative addressing mandates it
 	           Specified address format can only be encoded with a displacement. */
-	if (instr->memOpnd > NO_MEM || opExpr[instr->memOpnd].value != 0 ||
+	if (instr->memOpnd > NO_MEM || opExpr[instr->memOpnd].value != 0 || needDisp ||
 		(ModuleInfo.Ofssize == USE64 && opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].base_reg->token == T_RIP) ||
 		MemTable[memModeIdx].flags & MEMF_DSP || MemTable[memModeIdx].flags & MEMF_DSP32 || (opExpr[instr->memOpnd].sym && opExpr[instr->memOpnd].sym->state != SYM_STACK))
 	{
@@ -1392,7 +1400,7 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 			}
 			else
 			{
-				if (ModuleInfo.Ofssize == USE16)
+				if (ModuleInfo.Ofssize == USE16 || (ModuleInfo.Ofssize == USE32 && baseRegSize == 2))
 					*dispSize = 2;	/* 16bit addressing. */
 				else
 					*dispSize = 4;	/* 32bit or 64bit sign extended addressing. */
-- 
2.43.0


From d983eebd5b5035bf3f18241ba93714e9e4bad455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:49 +0000
Subject: [PATCH 38/73] fix: an immediate above 7FFFFFFFh was written as a
 negative operand of a 64-bit instruction (add rax,0FFFFFFFFh)

---
 parser.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser.c b/parser.c
index c06771d..52a0799 100644
--- a/parser.c
+++ b/parser.c
@@ -990,6 +990,11 @@ static ret_code idata_nofixup( struct code_info *CodeInfo, unsigned CurrOpnd, co
 		(CodeInfo->token != T_MOV || !(CodeInfo->opnd[OPND1].type & (OP_R64 | OP_M64)))))
 		return(EmitConstError(opndx));
 
+	/* apart from MOV, an immediate operand of a 64-bit instruction is a sign-extended DWORD */
+	if (CurrOpnd > OPND1 && CodeInfo->token != T_MOV && (CodeInfo->opnd[OPND1].type & OP_R64) &&
+		!opndx->explicit && opndx->value64 != (int_32)opndx->value64)
+		return(EmitConstError(opndx));
+
     /* v2.03: handle QWORD type coercion here as well!
      * This change also reveals an old problem in the expression evaluator:
      * the mem_type field is set whenever a (simple) type token is found.
-- 
2.43.0


From 53c618d0ca7230396039d3a4feb518d8cd49417d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:08 +0000
Subject: [PATCH 39/73] fix: a fourth operand was ignored by instructions that
 have at most three

---
 parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.c b/parser.c
index 52a0799..082167c 100644
--- a/parser.c
+++ b/parser.c
@@ -3684,6 +3684,10 @@ dataInProc:
 	/* ********************************************************* */
 	/* Process CodeInfo and opndx for legacy CodeGen VEX support */
 	/* ********************************************************* */
+	/* only AVX instructions have four operands */
+	if (j > OPND3 + 1 && CodeInfo.token < VEX_START)
+		return(EmitErr(INVALID_INSTRUCTION_OPERANDS));
+
 	for (CurrOpnd = 0; CurrOpnd < j && CurrOpnd < MAX_OPND; CurrOpnd++) 
 	{
 		Frame_Type = FRAME_NONE;
-- 
2.43.0


From 9543543d21a82f5412be99ee6922b865e2e0ef72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:05 +0000
Subject: [PATCH 40/73] fix: an immediate was accepted as the second operand of
 any SSE instruction with an XMM register (paddb xmm6,7Fh)

---
 codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 0d64ff3..5e888ff 100644
--- a/codegen.c
+++ b/codegen.c
@@ -3215,7 +3215,7 @@ static ret_code match_phase_3( struct code_info *CodeInfo, enum operand_type opn
             /* v2.06: condition made more restrictive */
             if (CodeInfo->token < T_VBROADCASTSS)(CodeInfo->evex_flag = 0);
             //if( ( opnd2 & tbl_op2 ) || (CodeInfo->mem_type == MT_EMPTY && (opnd2 & OP_M_ANY) || (tbl_op2 & OP_M_ANY) )) {
-              if ((opnd2 & tbl_op2) || (CodeInfo->mem_type == MT_EMPTY && opnd2 == OP_I8 && CodeInfo->opnd[OPND1].type == OP_XMM) ||
+              if ((opnd2 & tbl_op2) || (CodeInfo->token >= VEX_START && CodeInfo->mem_type == MT_EMPTY && opnd2 == OP_I8 && CodeInfo->opnd[OPND1].type == OP_XMM) ||
                   ((CodeInfo->evex_flag)&&(CodeInfo->token < T_VPBROADCASTB) || (CodeInfo->token > T_VPBROADCASTQ))) {     // 
                 if( check_3rd_operand( CodeInfo ) == ERROR )
                     break;
-- 
2.43.0


From ff89c950a880c325e8d256490d574a0daca73d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:22 +0000
Subject: [PATCH 41/73] fix: blsi with a destination of EBP, ESI, EDI (or
 R12-R15) was written with a wrong opcode extension

---
 codegen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/codegen.c b/codegen.c
index 5e888ff..099b98a 100644
--- a/codegen.c
+++ b/codegen.c
@@ -2551,6 +2551,10 @@ static void output_opc(struct code_info *CodeInfo)
             }
           CodeInfo->rm_byte = tmp;
           }
+        if (CodeInfo->token == T_BLSI){
+          tmp &= ~0x38;
+          tmp |= 0x18;
+          }
         if (CodeInfo->token == T_BLSMSK){
           tmp &= ~0x38;
           tmp |= 0x10;
-- 
2.43.0


From 3b7231d2ab1c8b39acc600f5a04ea5e9ce65f9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:12 +0000
Subject: [PATCH 42/73] fix: FCMOVcc, FCOMI(P), FUCOMI(P) were accepted without
 a coprocessor (.686 with .NO87 or .8087)

---
 H/instruct.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/H/instruct.h b/H/instruct.h
index 187eee7..8fd5436 100644
--- a/H/instruct.h
+++ b/H/instruct.h
@@ -539,14 +539,14 @@ cmov( Z,   0x4,   z )
 
 /* FPU opcodes */
 
-ins (FCMOVB, fcmovb,            OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDA,     0xC0,       P_686,       0)
-ins (FCMOVBE, fcmovbe,          OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDA,     0xD0,       P_686,       0)
-ins (FCMOVE, fcmove,            OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDA,     0xC8,       P_686,       0)
-ins (FCMOVNB, fcmovnb,          OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDB,     0xC0,       P_686,       0)
-ins (FCMOVNBE, fcmovnbe,        OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDB,     0xD0,       P_686,       0)
-ins (FCMOVNE, fcmovne,          OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDB,     0xC8,       P_686,       0)
-ins (FCMOVNU, fcmovnu,          OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDB,     0xD8,       P_686,       0)
-ins (FCMOVU, fcmovu,            OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDA,     0xD8,       P_686,       0)
+ins (FCMOVB, fcmovb,            OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDA,     0xC0,       P_686|P_387, 0)
+ins (FCMOVBE, fcmovbe,          OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDA,     0xD0,       P_686|P_387, 0)
+ins (FCMOVE, fcmove,            OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDA,     0xC8,       P_686|P_387, 0)
+ins (FCMOVNB, fcmovnb,          OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDB,     0xC0,       P_686|P_387, 0)
+ins (FCMOVNBE, fcmovnbe,        OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDB,     0xD0,       P_686|P_387, 0)
+ins (FCMOVNE, fcmovne,          OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDB,     0xC8,       P_686|P_387, 0)
+ins (FCMOVNU, fcmovnu,          OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDB,     0xD8,       P_686|P_387, 0)
+ins (FCMOVU, fcmovu,            OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDA,     0xD8,       P_686|P_387, 0)
 
 ins (FCOM, fcom,                OpCls( STI,      NONE,       NONE ), 0,      0,  0,      0xD8,     0xD0,       P_87,        0)
 insn(FCOM, 1,                   OpCls( M32,      NONE,       NONE ), 0,      0,  0,      0xD8,     0x10,       P_87,        0)
@@ -563,10 +563,10 @@ insn(FUCOM, 1,                  OpCls( NONE,     NONE,       NONE ), 0,      0,
 ins (FUCOMP, fucomp,            OpCls( STI,      NONE,       NONE ), 0,      0,  0,      0xDD,     0xE8,       P_387,       0)
 insn(FUCOMP, 1,                 OpCls( NONE,     NONE,       NONE ), 0,      0,  0,      0xDD,     0xE9,       P_387,       0)
 ins (FUCOMPP, fucompp,          OpCls( NONE,     NONE,       NONE ), 0,      0,  0,      0xDA,     0xE9,       P_387,       0)
-ins (FCOMI, fcomi,              OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDB,     0xF0,       P_686,       0)
-ins (FCOMIP, fcomip,            OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDF,     0xF0,       P_686,       0)
-ins (FUCOMI, fucomi,            OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDB,     0xE8,       P_686,       0)
-ins (FUCOMIP, fucomip,          OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDF,     0xE8,       P_686,       0)
+ins (FCOMI, fcomi,              OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDB,     0xF0,       P_686|P_387, 0)
+ins (FCOMIP, fcomip,            OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDF,     0xF0,       P_686|P_387, 0)
+ins (FUCOMI, fucomi,            OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDB,     0xE8,       P_686|P_387, 0)
+ins (FUCOMIP, fucomip,          OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDF,     0xE8,       P_686|P_387, 0)
 
 /* v2.11: first 2 variants of FADD, FMUL, FDIV, FDIVP, FSUP and FSUBR exchanged */
 ins (FADD, fadd,                OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xD8,     0xC0,       P_87,        0)
-- 
2.43.0


From 62f657f65b32e8f7051221e364162e92023a1428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:52 +0000
Subject: [PATCH 43/73] fix: INTO, BOUND and ARPL were accepted in 64-bit mode

---
 H/instruct.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/H/instruct.h b/H/instruct.h
index 8fd5436..47df589 100644
--- a/H/instruct.h
+++ b/H/instruct.h
@@ -214,8 +214,11 @@ insx(AAA, aaa,                  OpCls( NONE,     NONE,       NONE ), 0,      0,
 insx(AAD, aad,                  OpCls( NONE,     NONE,       NONE ), 0,      0,  0,      0xD5,     0x0A,       P_86,        0, RWF_IA32 )
 insx(AAM, aam,                  OpCls( NONE,     NONE,       NONE ), 0,      0,  0,      0xD4,     0x0A,       P_86,        0, RWF_IA32 )
 insx(AAS, aas,                  OpCls( NONE,     NONE,       NONE ), 0,      0,  no_RM,  0x3F,     0x00,       P_86,        0, RWF_IA32 )
+insx(ARPL, arpl,                OpCls( R16_M16,  R16,        NONE ), 0,      0,  no_WDS, 0x63,     0x00,       P_286,       0, RWF_IA32 )
+insx(BOUND_, bound,             OpCls( RGT8,     MS,         NONE ), 0,      1,  no_WDS, 0x62,     0x00,       P_186,       0, RWF_IA32 )
 insx(DAA, daa,                  OpCls( NONE,     NONE,       NONE ), 0,      0,  no_RM,  0x27,     0x00,       P_86,        0, RWF_IA32 )
 insx(DAS, das,                  OpCls( NONE,     NONE,       NONE ), 0,      0,  no_RM,  0x2F,     0x00,       P_86,        0, RWF_IA32 )
+insx(INTO, into,                OpCls( NONE,     NONE,       NONE ), 0,      0,  no_RM,  0xCE,     0x00,       P_86,        0, RWF_IA32 )
 insx(LDS, lds,                  OpCls( RGT8,     MFPTR,      NONE ), 0,      1,  no_WDS, 0xC5,     0x00,       P_86,        0, RWF_IA32 )
 insx(LES, les,                  OpCls( RGT8,     MFPTR,      NONE ), 0,      1,  no_WDS, 0xC4,     0x00,       P_86,        0, RWF_IA32 )
 insx(POPA,  popa,               OpCls( NONE,     NONE,       NONE ), 0,      0,  no_RM,  0x61,     0x00,       P_186,       0, RWF_IA32 )
@@ -243,7 +246,6 @@ insn(RETW, 1,                   OpCls( NONE,     NONE,       NONE ), F_16,   0,
  * to make Uasm accept, change OP_R16 to OP_RGT8
  */
 
-ins (ARPL, arpl,                OpCls( R16_M16,  R16,      NONE ), 0,       0,  no_WDS, 0x63,     0x00,       P_286,       0)
 ins (LLDT, lldt,                OpCls( R16_M16,  NONE,     NONE ), F_0FNO66,0,  no_WDS, 0x00,     0x10,       P_286p,      0)
 ins (LMSW, lmsw,                OpCls( R16_M16,  NONE,     NONE ), F_0FNO66,0,  no_WDS, 0x01,     0x30,       P_286p,      0)
 ins (LTR,  ltr,                 OpCls( R16_M16,  NONE,     NONE ), F_0FNO66,0,  no_WDS, 0x00,     0x18,       P_286p,      0)
@@ -376,7 +378,6 @@ insn(MOVBE, 1,                  OpCls( MGT8,     RGT8,       NONE ), F_0F38,  0,
 
 /* rest */
 
-ins (BOUND_, bound,             OpCls( RGT8,     MS,         NONE ), 0,      1,  no_WDS, 0x62,     0x00,       P_186,       0)
 ins (BSF, bsf,                  OpCls( RGT8,     RGT8_MS,    NONE ), F_0F,   1,  no_WDS, 0xBC,     0x00,       P_386,       0)
 ins (BSR, bsr,                  OpCls( RGT8,     RGT8_MS,    NONE ), F_0F,   1,  no_WDS, 0xBD,     0x00,       P_386,       0)
 ins (BSWAP, bswap,              OpCls( RGT16,    NONE,       NONE ), F_0F,   0,  R_in_OP,0xC8,     0x00,       P_486,       0)
@@ -403,7 +404,6 @@ ins (IN, in,                    OpCls( A,        DX_ONLY,    NONE ), 0,      0,
 insn(IN, 1,                     OpCls( A,        I8_U,       NONE ), 0,      0,  no_RM,  0xE4,     0x00,       P_86,        0)
 ins (INT, int,                  OpCls( I_3,      NONE,       NONE ), 0,      0,  no_RM,  0xCC,     0x00,       P_86,        0)
 insn(INT, 1,                    OpCls( I8_U,     NONE,       NONE ), 0,      0,  no_RM,  0xCD,     0x00,       P_86,        0)
-ins (INTO, into,                OpCls( NONE,     NONE,       NONE ), 0,      0,  no_RM,  0xCE,     0x00,       P_86,        0)
 ins (INVD, invd,                OpCls( NONE,     NONE,       NONE ), F_0F,   0,  no_RM,  0x08,     0x00,       P_486,       0)
 ins (INVLPG, invlpg,            OpCls( M_ANY,    NONE,       NONE ), F_0F,   0,  no_WDS, 0x01,     0x38,       P_486,       0)
 ins (IRET, iret,                OpCls( NONE,     NONE,       NONE ), F_16,   0,  no_RM,  0xCF,     0x00,       P_86,        0)
-- 
2.43.0


From ed6e4b07cea8dc116036ccbced220e8b43fa3c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:52 +0000
Subject: [PATCH 44/73] fix: in 32- and 64-bit segments instructions of the
 second instruction table were accepted whatever processor or coprocessor was
 selected (.386 with CPUID, .NO87 with FSIN)

---
 H/codegenv2.h |  2 +-
 codegenv2.c   | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/H/codegenv2.h b/H/codegenv2.h
index 44ebc53..9fd8e31 100644
--- a/H/codegenv2.h
+++ b/H/codegenv2.h
@@ -386,7 +386,7 @@ enum op_type      MatchOperand(struct code_info *CodeInfo, struct opnd_item op,
 
 bool Require_OPND_Size_Override(struct Instr_Def* instr, struct code_info* CodeInfo);
 bool Require_ADDR_Size_Override(struct Instr_Def* instr, struct code_info* CodeInfo);
-bool IsValidInCPUMode(struct Instr_Def* instr);
+bool IsValidInCPUMode(struct Instr_Def* instr, enum instr_token token);
 
 unsigned char BuildModRM(unsigned char modRM, struct Instr_Def* instr, struct expr opnd[4], bool* needRM, bool* needSIB,
 						 bool isVEX);																						/* Build instruction ModRM byte */
diff --git a/codegenv2.c b/codegenv2.c
index 7af38e2..dc1da82 100644
--- a/codegenv2.c
+++ b/codegenv2.c
@@ -428,9 +428,10 @@ bool Require_ADDR_Size_Override(struct Instr_Def* instr, struct code_info* CodeI
 	return FALSE;
 }
 
-bool IsValidInCPUMode(struct Instr_Def* instr)
+bool IsValidInCPUMode(struct Instr_Def* instr, enum instr_token token)
 {
 	bool          result = TRUE;
+	unsigned int  cpu = InstrTable[IndexFromToken(token)].cpu;
 	unsigned char cpuModes = instr->validModes;
 
 	/* Don't allow a 64bit instruction in a non 64bit segment */
@@ -444,6 +445,13 @@ bool IsValidInCPUMode(struct Instr_Def* instr)
 	if ((instr->cpu & P_PM) > (ModuleInfo.curr_cpu & P_PM))
 		result = FALSE;
 
+	/* Do the selected cpu, coprocessor and extensions have it? */
+	if ((cpu & P_CPU_MASK) > (ModuleInfo.curr_cpu & P_CPU_MASK)
+		|| (cpu & P_FPU_MASK) > (ModuleInfo.curr_cpu & P_FPU_MASK)
+		|| (cpu & P_EXT_MASK) > (ModuleInfo.curr_cpu & P_EXT_MASK)
+		|| (cpu & P_PM) > (ModuleInfo.curr_cpu & P_PM))
+		result = FALSE;
+
 	return result;
 }
 
@@ -1653,7 +1661,7 @@ ret_code CodeGenV2(const char* instr, struct code_info* CodeInfo, uint_32 oldofs
 		/*----------------------------------------------------------
 		 Check if instruction is valid in current mode.
 		----------------------------------------------------------*/
-		if (!IsValidInCPUMode(matchedInstr))
+		if (!IsValidInCPUMode(matchedInstr, CodeInfo->token))
 		{
 			EmitError(INSTRUCTION_OR_REGISTER_NOT_ACCEPTED_IN_CURRENT_CPU_MODE);
 			return ERROR;
-- 
2.43.0


From 1947f6ec125705dc606d978c61c9f2d2e65cad6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:36 +0000
Subject: [PATCH 45/73] fix: conditions with nested && and || jumped to wrong
 places (each operand now gets its own jump target)

---
 hll.c | 290 +++++++++++++++-------------------------------------------
 1 file changed, 72 insertions(+), 218 deletions(-)

diff --git a/hll.c b/hll.c
index a831b14..d7bfb5f 100644
--- a/hll.c
+++ b/hll.c
@@ -151,12 +151,7 @@ struct hll_item {
 #endif
 };
 
-/* v2.08: struct added */
-struct hll_opnd {
-  char    *lastjmp;
-  uint_32 lasttruelabel; /* v2.08: new member */
-};
-static ret_code GetExpression(struct hll_item *hll, int *i, struct asm_tok[], int ilabel, bool is_true, char *buffer, struct hll_opnd *);
+static ret_code GetExpression(struct hll_item *hll, int *i, struct asm_tok[], uint_32 label, bool is_true, char *buffer);
 
 /* c binary ops.
 * Order of items COP_EQ - COP_LE  and COP_ZERO - COP_OVERFLOW
@@ -580,7 +575,7 @@ static uint_32 GetLabel(struct hll_item *hll, int index)
 * 3. unary operator "!" + one token
 * 4. one token (short form for "<token> != 0")
 */
-static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok tokenarray[], int ilabel, bool is_true, char *buffer, struct hll_opnd *hllop)
+static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok tokenarray[], uint_32 label, bool is_true, char *buffer)
 /**************************************************************************************************************************************************************/
 {
   enum c_bop op;
@@ -592,7 +587,6 @@ static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok
   char *p;
   struct expr op1;
   struct expr op2;
-  uint_32 label;
 
   DebugMsg1(("%u GetSimpleExpression(>%.32s< buf=>%s<) enter\n", evallvl, tokenarray[*i].tokpos, buffer));
 
@@ -623,7 +617,7 @@ static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok
     if (brcnt) {
       (*i)++;
       DebugMsg1(("%u GetSimpleExpression: calling GetExpression, i=%u\n", evallvl, *i));
-      if (ERROR == GetExpression(hll, i, tokenarray, ilabel, is_true, buffer, hllop))
+      if (ERROR == GetExpression(hll, i, tokenarray, label, is_true, buffer))
         return(ERROR);
 
       if (tokenarray[*i].token != T_CL_BRACKET) {
@@ -654,8 +648,6 @@ static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok
   else if (op != COP_NONE)
     (*i)++;
 
-  label = GetLabel(hll, ilabel);
-
   DebugMsg1(("%u GetSimpleExpression: EvalOperand ok, kind=%X, i=%u [%s]\n", evallvl, op1.kind, *i, tokenarray[*i].tokpos));
 
   /* check for special operators with implicite operand:
@@ -667,7 +659,6 @@ static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok
       return(EmitError(SYNTAX_ERROR_IN_CONTROL_FLOW_DIRECTIVE));
     }
     p = buffer;
-    hllop->lastjmp = p;
     RenderJcc(p, flaginstr[op - COP_ZERO], !is_true, label);
     return(NOT_ERROR);
   }
@@ -686,14 +677,12 @@ static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok
     case EXPR_REG:
       if (op1.indirect == FALSE) {
         p = RenderInstr(buffer, "test", op1_pos, op1_end, op1_pos, op1_end, tokenarray);
-        hllop->lastjmp = p;
         RenderJcc(p, 'z', is_true, label);
         break;
       }
       /* no break */
     case EXPR_ADDR:
       p = RenderInstr(buffer, "cmp", op1_pos, op1_end, EMPTY, 0, tokenarray);
-      hllop->lastjmp = p;
       RenderJcc(p, 'z', is_true, label);
       break;
     case EXPR_CONST:
@@ -707,8 +696,6 @@ static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok
       if (op1.hvalue != 0 && op1.hvalue != -1)
         return(EmitConstError(&op1));
 
-      hllop->lastjmp = buffer;
-
       if ((is_true == TRUE && op1.value) ||
         (is_true == FALSE && op1.value == 0)) {
         sprintf(buffer, "jmp " LABELFMT EOLSTR, label);
@@ -741,7 +728,6 @@ static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok
 
   if (op == COP_ANDB) {
     p = RenderInstr(buffer, "test", op1_pos, op1_end, op2_pos, op2_end, tokenarray);
-    hllop->lastjmp = p;
     RenderJcc(p, 'e', is_true, label);
   }
   else if (op <= COP_LE) { /* ==, !=, >, <, >= or <= operator */
@@ -827,7 +813,6 @@ static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok
       p = RenderInstr(buffer, "cmp", op1_pos, op1_end, op2_pos, op2_end, tokenarray);
     }
     instr = ((IS_SIGNED(op1.mem_type) || IS_SIGNED(op2.mem_type)) ? signed_cjmptype[op - COP_EQ] : unsigned_cjmptype[op - COP_EQ]);
-    hllop->lastjmp = p;
     RenderJcc(p, instr, neg_cjmptype[op - COP_EQ] ? is_true : !is_true, label);
   }
   else {
@@ -837,240 +822,111 @@ static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok
   return(NOT_ERROR);
 }
 
-/* invert a Jump:
-* - Jx  -> JNx (x = e|z|c|s|p|o )
-* - JNx -> Jx  (x = e|z|c|s|p|o )
-* - Ja  -> Jbe, Jae -> Jb
-* - Jb  -> Jae, Jbe -> Ja
-* - Jg  -> Jle, Jge -> Jl
-* - Jl  -> Jge, Jle -> Jg
-* added in v2.11:
-* - jmp -> 0
-* - 0   -> jmp
+/* is there an operator <op> in the current (sub)expression, outside of parentheses?
+* For COP_AND, the search ends at the next ||.
 */
-static void InvertJump(char *p)
-/*******************************/
+static bool HasOperator(int i, struct asm_tok tokenarray[], enum c_bop op)
+/************************************************************************/
 {
-  if (*p == NULLC) { /* v2.11: convert 0 to "jmp" */
-    strcpy(p, "jmp ");
-    return;
-  }
-
-  p++;
-  if (*p == 'e' || *p == 'z' || *p == 'c' || *p == 's' || *p == 'p' || *p == 'o') {
-    *(p + 1) = *p;
-    *p = 'n';
-    return;
-  }
-  else if (*p == 'n') {
-    *p = *(p + 1);
-    *(p + 1) = ' ';
-    return;
-  }
-  else if (*p == 'a') {
-    *p++ = 'b';
-  }
-  else if (*p == 'b') {
-    *p++ = 'a';
-  }
-  else if (*p == 'g') {
-    *p++ = 'l';
-  }
-  else if (*p == 'l') {
-    *p++ = 'g';
-  }
-  else {
-    /* v2.11: convert "jmp" to 0 */
-    if (*p == 'm') {
-      p--;
-      *p = NULLC;
+  int level = 0;
+  enum c_bop c;
+
+  for (; tokenarray[i].token != T_FINAL; i++) {
+    if (tokenarray[i].token == T_OP_BRACKET)
+      level++;
+    else if (tokenarray[i].token == T_CL_BRACKET) {
+      if (level == 0)
+        break;
+      level--;
+    }
+    else if (level == 0) {
+      c = GetCOp(&tokenarray[i]);
+      if (c == op)
+        return(TRUE);
+      if (c == COP_OR)
+        break;
     }
-    return;
   }
-  if (*p == 'e')
-    *p = ' ';
-  else
-    *p = 'e';
-  return;
+  return(FALSE);
 }
 
-/* Replace a label in the source lines generated so far.
-* todo: if more than 0xFFFF labels are needed,
-* it may happen that length of nlabel > length of olabel!
-* then the simple memcpy() below won't work!
+/* operator &&, which has the second lowest precedence, is handled here.
+* The code jumps to <label> if the expression is <is_true>, otherwise it
+* goes on behind the expression.
 */
 
-static void ReplaceLabel(char *p, uint_32 olabel, uint_32 nlabel)
-/*****************************************************************/
-{
-  char oldlbl[16];
-  char newlbl[16];
-  int i;
-
-  GetLabelStr(olabel, oldlbl);
-  GetLabelStr(nlabel, newlbl);
-
-  i = (int)strlen(newlbl);
-
-  DebugMsg1(("%u ReplaceLabel(%s->%s, >%s<)\n", evallvl, oldlbl, newlbl, p));
-  while (p = strstr(p, oldlbl)) {
-    memcpy(p, newlbl, i);
-    p += i;
-  }
-}
-
-/* operator &&, which has the second lowest precedence, is handled here */
-
-static ret_code GetAndExpression(struct hll_item *hll, int *i, struct asm_tok tokenarray[], int ilabel, bool is_true, char *buffer, struct hll_opnd *hllop)
-/***********************************************************************************************************************************************************/
+static ret_code GetAndExpression(struct hll_item *hll, int *i, struct asm_tok tokenarray[], uint_32 label, bool is_true, char *buffer)
+/************************************************************************************************************************************/
 {
   char *ptr = buffer;
-  uint_32 truelabel = 0;
-  char buff[16];
-  int nlabel;
-  int olabel;
+  uint_32 endlabel = 0;
+  bool last;
 
   DebugMsg1(("%u GetAndExpression(>%.32s< buf=>%s<) enter\n", evallvl, tokenarray[*i].tokpos, buffer));
 
-  if (ERROR == GetSimpleExpression(hll, i, tokenarray, ilabel, is_true, ptr, hllop))
-    return(ERROR);
-  while (COP_AND == GetCOp(&tokenarray[*i])) {
-
-    (*i)++;
-    DebugMsg1(("%u GetAndExpression: &&-operator found, is_true=%u, lastjmp=%s\n", evallvl, is_true, hllop->lastjmp ? hllop->lastjmp : "NULL"));
-
-    if (is_true) {
-      /* todo: please describe what's done here and why! */
-      if (hllop->lastjmp) {
-        char *p = hllop->lastjmp;
-        InvertJump(p);          /* step 1 */
-        if (truelabel == 0)     /* step 2 */
-          truelabel = GetHllLabel();
-
-        if (*p ) {/* v2.11: there might be a 0 at lastjmp */
-          p += 4;               /* skip 'jcc ' or 'jmp ' */
-          GetLabelStr(truelabel, p);
-          strcat(p, EOLSTR);
-        }
-        /* Uasm 2.18  fixed WHILE with &&  */
-        if (hllop->lasttruelabel)
-          ReplaceLabel(buffer,hllop->lasttruelabel, truelabel);
-          nlabel = GetHllLabel();
-          olabel = GetLabel(hll, ilabel);
-          GetLabelStr(olabel, buff);
-          strcat(ptr, buff);
-          strcat(ptr, LABELQUAL EOLSTR);
-          DebugMsg1(("%u GetAndExpression: label added >%s<\n", evallvl, ptr));
-          ReplaceLabel(buffer, olabel, nlabel);
-          hllop->lastjmp = NULL;
-      }
+  for (;;) {
+    last = !HasOperator(*i, tokenarray, COP_AND);
+    /* if the expression is to jump when it's true, an operand that is false
+     * - but not the last one - has to jump behind the expression.
+     */
+    if (is_true && !last) {
+      if (endlabel == 0)
+        endlabel = GetHllLabel();
+      if (ERROR == GetSimpleExpression(hll, i, tokenarray, endlabel, FALSE, ptr))
+        return(ERROR);
     }
-    ptr += strlen(ptr);
-    hllop->lasttruelabel = 0; /* v2.08 */
-    if (ERROR == GetSimpleExpression(hll, i, tokenarray, ilabel, is_true, ptr, hllop))
+    else if (ERROR == GetSimpleExpression(hll, i, tokenarray, label, is_true, ptr))
       return(ERROR);
-  };
-
-  if (truelabel > 0) {
     ptr += strlen(ptr);
-    GetLabelStr(truelabel, ptr);
+    if (last || COP_AND != GetCOp(&tokenarray[*i]))
+      break;
+    (*i)++;
+  }
+  if (endlabel) {
+    GetLabelStr(endlabel, ptr);
     strcat(ptr, LABELQUAL EOLSTR);
     DebugMsg1(("%u GetAndExpression: label added >%s<\n", evallvl, ptr));
-    hllop->lastjmp = NULL;
   }
   return(NOT_ERROR);
 }
 
 /* operator ||, which has the lowest precedence, is handled here */
 
-static ret_code GetExpression(struct hll_item *hll, int *i, struct asm_tok tokenarray[], int ilabel, bool is_true, char *buffer, struct hll_opnd *hllop)
-/********************************************************************************************************************************************************/
+static ret_code GetExpression(struct hll_item *hll, int *i, struct asm_tok tokenarray[], uint_32 label, bool is_true, char *buffer)
+/*********************************************************************************************************************************/
 {
   char *ptr = buffer;
-  uint_32 truelabel = 0;
+  uint_32 endlabel = 0;
+  bool last;
 
   DebugMsg1(("%u GetExpression(>%.32s< buf=>%s<) enter\n", ++evallvl, tokenarray[*i].tokpos, buffer));
 
-  /* v2.08: structure changed from for(;;) to while() to increase
-  * readability and - optionally - handle the second operand differently
-  * than the first.
-  */
-
-  if (ERROR == GetAndExpression(hll, i, tokenarray, ilabel, is_true, ptr, hllop)) {
-    DebugMsg1(("%u GetExpression exit, error\n", evallvl--));
-    return(ERROR);
-  }
- // __debugbreak();
-  while (COP_OR == GetCOp(&tokenarray[*i])) {
-
-    uint_32 nlabel;
-    uint_32 olabel;
-    char buff[16];
-
-    /* the generated code of last simple expression has to be modified
-    1. the last jump must be inverted
-    2. a "is_true" label must be created (it's used to jump "behind" the expr)
-    3. create a new label
-    4. the current "false" label must be generated
-
-    if it is a .REPEAT, step 4 is slightly more difficult, since the "false"
-    label is already "gone":
-    4a. create a new label
-    4b. replace the "false" label in the generated code by the new label
-    */
-
-    (*i)++;
-    DebugMsg1(("%u GetExpression: ||-operator found, is_true=%u, lastjmp=%s\n", evallvl, is_true, hllop->lastjmp ? hllop->lastjmp : "NULL"));
-
-    if (is_true == FALSE) {
-      if (hllop->lastjmp) {
-        char *p = hllop->lastjmp;
-        InvertJump(p);           /* step 1 */
-        if (truelabel == 0)      /* step 2 */
-          truelabel = GetHllLabel();
-        if (*p ) { /* v2.11: there might be a 0 at lastjmp */
-          p += 4;                /* skip 'jcc ' or 'jmp ' */
-          GetLabelStr(truelabel, p);
-          strcat(p, EOLSTR);
-        }
-        /* v2.08: if-block added */
-        if (hllop->lasttruelabel)
-          ReplaceLabel(ptr, hllop->lasttruelabel, truelabel);
-        DebugMsg1(("%u GetExpression: jmp inverted, dest changed >%s<\n", evallvl, ptr));
-        hllop->lastjmp = NULL;
-
-        nlabel = GetHllLabel();  /* step 3 */
-        olabel = GetLabel(hll, ilabel);
-        if (hll->cmd == HLL_REPEAT) {
-          ReplaceLabel(buffer, olabel, nlabel);
-          sprintf(ptr + strlen(ptr), "%s" LABELQUAL EOLSTR, GetLabelStr(nlabel, buff));
-        }
-        else {
-          sprintf(ptr + strlen(ptr), "%s" LABELQUAL EOLSTR, GetLabelStr(olabel, buff));
-          ReplaceLabel(buffer, olabel, nlabel);
-        }
-        DebugMsg1(("%u GetExpression: dest changed, label added >%s<\n", evallvl, ptr));
+  for (;;) {
+    last = !HasOperator(*i, tokenarray, COP_OR);
+    /* if the expression is to jump when it's false, an operand that is true
+     * - but not the last one - has to jump behind the expression.
+     */
+    if (is_true == FALSE && !last) {
+      if (endlabel == 0)
+        endlabel = GetHllLabel();
+      if (ERROR == GetAndExpression(hll, i, tokenarray, endlabel, TRUE, ptr)) {
+        DebugMsg1(("%u GetExpression exit, error\n", evallvl--));
+        return(ERROR);
       }
     }
-    ptr += strlen(ptr);
-    hllop->lasttruelabel = 0; /* v2.08 */
-    if (ERROR == GetAndExpression(hll, i, tokenarray, ilabel, is_true, ptr, hllop)) {
+    else if (ERROR == GetAndExpression(hll, i, tokenarray, label, is_true, ptr)) {
       DebugMsg1(("%u GetExpression exit, error\n", evallvl--));
       return(ERROR);
     }
-  }
-  if (truelabel > 0) {
-    /* v2.08: this is needed, but ober-hackish. to be improved... */
-    if (hllop->lastjmp && hllop->lasttruelabel) {
-      DebugMsg1(("%u GetExpression: suppressed ReplaceLabel %u -> %u, lastjmp=%s\n", evallvl, hllop->lasttruelabel, truelabel, hllop->lastjmp));
-      ReplaceLabel(ptr, hllop->lasttruelabel, truelabel);
-      *(strchr(hllop->lastjmp, EOLCHAR) + 1) = NULLC;
-    }
     ptr += strlen(ptr);
-    GetLabelStr(truelabel, ptr);
+    if (last || COP_OR != GetCOp(&tokenarray[*i]))
+      break;
+    (*i)++;
+  }
+  if (endlabel) {
+    GetLabelStr(endlabel, ptr);
     strcat(ptr, LABELQUAL EOLSTR);
     DebugMsg1(("%u GetExpression: label added >%s<\n", evallvl, ptr));
-    hllop->lasttruelabel = truelabel; /* v2.08 */
   }
   DebugMsg1(("%u GetExpression exit\n", evallvl--));
   return(NOT_ERROR);
@@ -1121,12 +977,10 @@ static ret_code QueueTestLines(char *src)
 static ret_code EvaluateHllExpression(struct hll_item *hll, int *i, struct asm_tok tokenarray[], int ilabel, bool is_true, char *buffer)
 /****************************************************************************************************************************************/
 {
-  struct hll_opnd hllop = { NULL, 0 };
-
   DebugMsg1(("EvaluateHllExpression enter\n"));
 
   *buffer = NULLC;
-  if (ERROR == GetExpression(hll, i, tokenarray, ilabel, is_true, buffer, &hllop))
+  if (ERROR == GetExpression(hll, i, tokenarray, GetLabel(hll, ilabel), is_true, buffer))
     return(ERROR);
   /* v2.11: changed */
   //if ( *buffer == EOLCHAR ) {
-- 
2.43.0


From 4b2f92986f6bfaa2ba8fc254f8e80bd517ac9b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:36 +0000
Subject: [PATCH 46/73] fix: .WHILE whose condition starts with an operand
 known to be false entered the loop without the test

---
 hll.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hll.c b/hll.c
index d7bfb5f..584489d 100644
--- a/hll.c
+++ b/hll.c
@@ -1638,7 +1638,8 @@ ret_code HllStartDir(int i, struct asm_tok tokenarray[])
 
                             /* create a jump to test label */
                             /* optimisation: if line at 'test' label is just a jump, dont create label and don't jump! */
-      if (_memicmp(buffer, "jmp", 3)) {
+      /* (a jump to somewhere else has more lines behind it) */
+      if (_memicmp(buffer, "jmp", 3) || strncmp(buffer + 4, GetLabelStr(hll->labels[LSTART], buff), strlen(GetLabelStr(hll->labels[LSTART], buff)))) {
         hll->labels[LTEST] = GetHllLabel();
         AddLineQueueX(JMPPREFIX "jmp %s", GetLabelStr(hll->labels[LTEST], buff));
       }
-- 
2.43.0


From 357ae8ddb6ee6f55c696385b833468603e6e4f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:36 +0000
Subject: [PATCH 47/73] fix: .FOR: x=-1, x+=0, var=0 and var op= -n were
 rejected or changed the wrong value or register

---
 hll.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hll.c b/hll.c
index 584489d..0309701 100644
--- a/hll.c
+++ b/hll.c
@@ -1090,7 +1090,7 @@ static ret_code ForInitAndNext(struct asm_tok tokenarray[], int cnt, char *buff)
     param[a] = '\0';
     //end of param
     //is it simple operator
-    if ((buff[b + 1] == '+') || (buff[b + 1] == '-')) {            //if ++ or -- finish it here
+    if ((buff[b] == '+' || buff[b] == '-') && buff[b + 1] == buff[b]) {            //if ++ or -- finish it here
       param[a] = '\0';
       if ((buff[b] == '+') && (buff[b + 1] == '+')) strcpy(codebuff, " inc ");
       else if ((buff[b] == '-') && (buff[b + 1] == '-')) strcpy(codebuff, " dec ");
@@ -1245,13 +1245,14 @@ static ret_code ForInitAndNext(struct asm_tok tokenarray[], int cnt, char *buff)
       else if (op[0] == '<' && op[1] == '<') strcpy(codebuff, " shl ");
       else if (op[0] == '>' && op[1] == '>') strcpy(codebuff, " shr ");
       Tokenize(init, 0, tokenarray, 0);
-      if (tokenarray[0].token == T_REG || tokenarray[0].token == T_NUM || tokenarray[0].token == T_FLOAT || tokenarray[0].token == T_DIRECTIVE)
+      if (tokenarray[0].token == T_REG || tokenarray[0].token == T_NUM || tokenarray[0].token == T_FLOAT || tokenarray[0].token == T_DIRECTIVE ||
+        (tokenarray[0].token == '-' && tokenarray[1].token == T_NUM))
         goto simple;
       Tokenize(param, 0, tokenarray, 0);
       if (tokenarray[0].token == T_REG) {
       simple:			Tokenize(param, 0, tokenarray, 0);
 
-        if (strlen(init) == 1 && init[0] == '0')                        //REX=0?
+        if (strlen(op) == 1 && tokenarray[0].token == T_REG && strlen(init) == 1 && init[0] == '0') //REX=0?
           WriteAsmLine(" xor  ", param, param);							            //XOR REX,REX //instead MOV REX,0
         else if ((strlen(op) == 1) && ((init[4] == ' ') || (init[4] == '\t'))) {  //op is '='
           if ((0 == _memicmp(init, "BYTE PTR", 8)) ||                   //reax=BYTE PTR al
-- 
2.43.0


From 6575c565960a67f40f55e5d1f37c6be1771fd677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:51 +0000
Subject: [PATCH 48/73] fix: .FOR compared a signed variable with > 0 as if it
 were != 0

---
 hll.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hll.c b/hll.c
index 0309701..201a547 100644
--- a/hll.c
+++ b/hll.c
@@ -1550,7 +1550,6 @@ ret_code HllStartDir(int i, struct asm_tok tokenarray[])
           //coppy the condition to the buffer
           forbuffcond[0] = NULLC;
           for (b = 0; forbuff[j] && forbuff[j] != ':'; forbuffcond[b] = forbuff[j], j++, b++);
-          if (forbuffcond[b - 2] == '>' && forbuffcond[b - 1] == '0') forbuffcond[b - 2] = NULLC;
           forbuffcond[b] = NULLC;
           j++;
           //copy the counter to the buffer
-- 
2.43.0


From 457f83bc29acfd81a1beafc1235ee95ce303ae33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:43 +0000
Subject: [PATCH 49/73] fix: .SWITCH with widely spread .CASE values made a
 jump table of gigabytes (overflow)

---
 hll.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hll.c b/hll.c
index 201a547..e55e395 100644
--- a/hll.c
+++ b/hll.c
@@ -136,7 +136,7 @@ struct hll_item {
   char                cflag;         /* SWITCH decision flag */
   int                 maxcase;
   int                 mincase;
-  int                 delta;
+  uint_32             delta;
   int                 maxalloccasen;
   int                 multicase;
   int                 *pcases;
@@ -344,7 +344,7 @@ static void bubblesort(struct hll_item *hll, uint_16 *lbl, int *src, int n) {
 
   hll->mincase = src[0];
   hll->maxcase = src[n - 1];
-  hll->delta = hll->maxcase - hll->mincase;
+  hll->delta = (uint_32)hll->maxcase - (uint_32)hll->mincase;
 }
 #if AMD64_SUPPORT 
 static void bubblesort64(struct hll_item *hll, uint_16 *lbl, int_64 *src, int n) {
@@ -371,7 +371,7 @@ static void bubblesort64(struct hll_item *hll, uint_16 *lbl, int_64 *src, int n)
 
   hll->mincase64 = src[0];
   hll->maxcase64 = src[n - 1];
-  hll->delta64 = hll->maxcase64 - hll->mincase64;
+  hll->delta64 = (uint_64)hll->maxcase64 - (uint_64)hll->mincase64;
 }
 #endif
 /* render an instruction */
@@ -1761,7 +1761,7 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
         if (hll->plabels) {
           if (ModuleInfo.Ofssize == USE32 || hll->csize == 4) {
             bubblesort(hll, hll->plabels, hll->pcases, hll->casecnt);
-            if ((hll->delta * 4) <= (hll->casecnt * 4 + hll->casecnt * 2))
+            if (hll->delta <= (hll->casecnt * 4 + hll->casecnt * 2) / 4)
               hll->cflag = 6;                   /* we need only jump table */
             else if (hll->delta < 256)
               hll->cflag = 4;                   /* we need both jump table and count table byte size */
@@ -1773,7 +1773,7 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
 #if AMD64_SUPPORT
           else if (ModuleInfo.Ofssize == USE64 && hll->csize == 8){     //USE64
               bubblesort64(hll, hll->plabels, hll->pcases64, hll->casecnt);
-              if ((hll->delta64 * 8) <= (hll->casecnt * 8 + hll->casecnt * 2))
+              if (hll->delta64 <= (hll->casecnt * 8 + hll->casecnt * 2) / 8)
                 hll->cflag = 6;
               else if (hll->delta64 < 256)
                 hll->cflag = 4;
-- 
2.43.0


From daf83c6a24099d7d5a9d06a41e6e111bd54e240d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:05 +0000
Subject: [PATCH 50/73] fix: .FOR with a condition that is always false left
 its label undefined

---
 hll.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/hll.c b/hll.c
index e55e395..efd272d 100644
--- a/hll.c
+++ b/hll.c
@@ -2601,17 +2601,19 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
     }
     i++;
     //Insert .CONTINUE label here if there is any
-    if (hll->labels[LCONT] && (hll->counterlines[0] || hll->condlines[0]))
+    if (hll->labels[LCONT] && hll->labels[LCONT] != hll->labels[LSTART])
       AddLineQueueX("%s" LABELQUAL, GetLabelStr(hll->labels[LCONT], buff));
     if (hll->counterlines[0]) {
       ForInitAndNext(tokenarray, hll->cmcnt, hll->counterlines);
       LclFree(hll->counterlines);
     }
-    if (hll->condlines[0]) {
-      /* create test label */
+    if (hll->labels[LTEST]) {
+      /* create test label; there are no lines if the condition is always false */
       AddLineQueueX("%s" LABELQUAL, GetLabelStr(hll->labels[LTEST], buff));
-      QueueTestLines(hll->condlines);
-      LclFree(hll->condlines);
+      if (hll->condlines[0]) {
+        QueueTestLines(hll->condlines);
+        LclFree(hll->condlines);
+      }
     }
     else
       AddLineQueueX(" jmp %s", GetLabelStr(hll->labels[LSTART], buff));
-- 
2.43.0


From 783666270b4327bc462f7b792fa2f9f1bc254702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:05 +0000
Subject: [PATCH 51/73] fix: .CONTINUE inside .SWITCH jumped to the switch's
 dispatch code instead of continuing the loop

---
 hll.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hll.c b/hll.c
index efd272d..c17790a 100644
--- a/hll.c
+++ b/hll.c
@@ -2929,7 +2929,8 @@ ret_code HllExitDir(int i, struct asm_tok tokenarray[])
     break;
   case T_DOT_BREAK:
   case T_DOT_CONTINUE:
-    for (; hll && hll->cmd == HLL_IF; hll = hll->next);
+    /* a .SWITCH isn't a loop that can be continued */
+    for (; hll && (hll->cmd == HLL_IF || (cmd == T_DOT_CONTINUE && hll->cmd == HLL_SWITCH)); hll = hll->next);
     if (hll == NULL) {
       return(EmitError(DIRECTIVE_MUST_BE_IN_CONTROL_BLOCK));
     }
-- 
2.43.0


From b4b8262e85986da49743799e52f8a7a760f391bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:33 +0000
Subject: [PATCH 52/73] fix: OPTION SWITCHSTYLE:CSTYLE: a .CASE with no .BREAK
 before it started at the statements of the previous case

---
 hll.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hll.c b/hll.c
index c17790a..1210b4c 100644
--- a/hll.c
+++ b/hll.c
@@ -2796,6 +2796,8 @@ ret_code HllExitDir(int i, struct asm_tok tokenarray[])
           hll->multicase++;                                          /* increase counter */
         }
     }
+    else
+      hll->breakoccured = TRUE;                                      /* C style: control may also fall into the case, but it starts here */
     for (;;) {
       if (hll->breakoccured) {
         hll->labels[LTEST] = GetHllLabel();
-- 
2.43.0


From f59877cafd4054cd0847ed17586891aa1e928a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:38 +0000
Subject: [PATCH 53/73] fix: OPTION SWITCHSTYLE:CSTYLE: the statements of the
 last .CASE fell into the dispatch code of the switch

---
 hll.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/hll.c b/hll.c
index 1210b4c..0f7b831 100644
--- a/hll.c
+++ b/hll.c
@@ -1739,11 +1739,10 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
       i++;
       if (ModuleInfo.Ofssize == USE32) dsize = 4;
       else dsize = 8;
-      if (ModuleInfo.switch_style == ASMSWITCH) {
-        if (hll->labels[LEXIT] == 0)
-          hll->labels[LEXIT] = GetHllLabel();
-        AddLineQueueX(JMPPREFIX "jmp %s", GetLabelStr(hll->labels[LEXIT], buff));
-        }
+      /* C style too: the last block mustn't fall into the dispatch code */
+      if (hll->labels[LEXIT] == 0)
+        hll->labels[LEXIT] = GetHllLabel();
+      AddLineQueueX(JMPPREFIX "jmp %s", GetLabelStr(hll->labels[LEXIT], buff));
       if (hll->labels[LDEF] == 0) {
         hll->labels[LDEF] = GetHllLabel();
         AddLineQueueX("%s" LABELQUAL, GetLabelStr(hll->labels[LDEF], buff));
-- 
2.43.0


From a40d24784e61259091ee5de9ce4f75ff30cbca92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:54 +0000
Subject: [PATCH 54/73] fix: consecutive .CASE lines shifted the numbers of
 later labels between passes (spurious undefined symbols)

---
 hll.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hll.c b/hll.c
index 0f7b831..390d679 100644
--- a/hll.c
+++ b/hll.c
@@ -1405,6 +1405,8 @@ ret_code HllStartDir(int i, struct asm_tok tokenarray[])
     hll->labels[LCONT] = GetHllLabel();   /* used by .ENDSWITCH */
     hll->maxalloccasen = 0;
     hll->casecnt = 0;
+    hll->cflag = 0;
+    hll->multicase = 0;
     hll->csize = 4;
     hll->breakoccured = TRUE; //first label for .CASE hast to be set
 
@@ -2790,8 +2792,9 @@ ret_code HllExitDir(int i, struct asm_tok tokenarray[])
             hll->breakoccured = TRUE;                                  /* set the flag */
             }
           else{
-            hll->breakoccured = FALSE;
-            }                                 /* no .brake needed yet */
+            hll->breakoccured = FALSE;        /* no .brake needed yet */
+            GetHllLabel();                    /* pass one gave this line a label; keep the numbers in step */
+            }
           hll->multicase++;                                          /* increase counter */
         }
     }
-- 
2.43.0


From 30ea39818ae3062d684564afe6dd251f74720d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:10 +0000
Subject: [PATCH 55/73] fix: INVOKE used a register clobbered by an earlier
 argument (register pairs a::b, memory addressed by EAX) without a diagnostic

---
 invoke.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/invoke.c b/invoke.c
index 7a7e829..0559675 100644
--- a/invoke.c
+++ b/invoke.c
@@ -3598,8 +3598,18 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 				if (Ofssize != ModuleInfo.Ofssize || (curr->sym.Ofssize == USE16 && CurrWordSize > 2))
 					AddLineQueue(" db 66h");
 			}
-			else
+			else {
 				asize2 = SizeFromRegister(tokenarray[j].tokval);
+				/* the other half is checked below */
+				if ((*r0flags & R0_USED) && (tokenarray[j].tokval == T_AH || (GetValueSp(tokenarray[j].tokval) & OP_A))) {
+					EmitErr(REGISTER_VALUE_OVERWRITTEN_BY_INVOKE);
+					*r0flags &= ~R0_USED;
+				}
+				else if ((*r0flags & R2_USED) && (tokenarray[j].tokval == T_DH || GetRegNo(tokenarray[j].tokval) == 2)) {
+					EmitErr(REGISTER_VALUE_OVERWRITTEN_BY_INVOKE);
+					*r0flags &= ~R2_USED;
+				}
+			}
 			asize = SizeFromRegister(tokenarray[j + 2].tokval);
 			AddLineQueueX(" push %r", tokenarray[j].tokval);
 			/* v2.04: changed */
@@ -3715,6 +3725,7 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 							|| opnd.idx_reg->tokval == T_RAX
 #endif
 							)))) {
+				EmitErr(REGISTER_VALUE_OVERWRITTEN_BY_INVOKE);
 				*r0flags = 0;
 			}
 
-- 
2.43.0


From ec7af6d23cdb99b7e43b531e9239f0b25616deb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:41 +0000
Subject: [PATCH 56/73] fix: 32-bit FASTCALL procedures without locals or
 parameters got a prologue that adjusts RSP

---
 proc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proc.c b/proc.c
index 0610a82..7160f13 100644
--- a/proc.c
+++ b/proc.c
@@ -4751,7 +4751,7 @@ static ret_code write_generic_prologue(struct proc_info *info)
 		resstack == 0 && info->regslist == NULL && !info->fpo)
 		return(NOT_ERROR);
 
-	if (info->fpo && stackadj > 0 && CurrProc->sym.langtype == LANG_FASTCALL && !info->isleaf)
+	if (ModuleInfo.Ofssize == USE64 && info->fpo && stackadj > 0 && CurrProc->sym.langtype == LANG_FASTCALL && !info->isleaf)
 	{
 		if (Options.frameflags)
 		{
-- 
2.43.0


From 42dbb975b7dc1cf1fa0e2b93ee3c1af272cccade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:43 +0000
Subject: [PATCH 57/73] fix: FASTCALL arguments in registers that an earlier
 argument had overwritten were passed without a diagnostic

---
 invoke.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/invoke.c b/invoke.c
index 0559675..ee1c50b 100644
--- a/invoke.c
+++ b/invoke.c
@@ -288,6 +288,7 @@ static int ms32_param( struct dsym const *proc, int index, struct dsym *param, b
 /*********************************************************************************************************************************************/
 {
     enum special_token const *pst;
+    int i;
 
     DebugMsg1(("ms32_param(proc=%s, ofs=%u, index=%u, param=%s) fcscratch=%u\n", proc->sym.name, proc->sym.Ofssize, index, param->sym.name, fcscratch ));
     
@@ -301,6 +302,20 @@ static int ms32_param( struct dsym const *proc, int index, struct dsym *param, b
         fcscratch--;
         pst = ms32_regs + fcscratch;
     }
+    /* registers that hold other values by now */
+    for ( i = 0; i < 2; i++ ) {
+        struct asm_tok *tok = ( i ? opnd->idx_reg : opnd->base_reg );
+        int regno;
+        if ( tok == NULL || ( GetValueSp( tok->tokval ) & OP_R ) == 0 )
+            continue;
+        regno = GetRegNo( tok->tokval );
+        if ( SizeFromRegister( tok->tokval ) == 1 )
+            regno &= 3;
+        if ( ( regno == 0 && ( *r0used & R0_USED ) ) || ( regno == 2 && ( *r0used & R2_USED ) ) ) {
+            EmitErr( REGISTER_VALUE_OVERWRITTEN_BY_INVOKE );
+            *r0used = 0;
+        }
+    }
     if ( addr )
         AddLineQueueX( " lea %r, %s", *pst, paramvalue );
     else {
@@ -327,6 +342,8 @@ static int ms32_param( struct dsym const *proc, int index, struct dsym *param, b
     }
     if ( *pst == T_AX )
         *r0used |= R0_USED;
+    else if ( *pst == T_EDX || *pst == T_DX )
+        *r0used |= R2_USED;
     return( 1 );
 }
 
-- 
2.43.0


From 0eec23b4763324e8d27976341ca18edab65339e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:44 +0000
Subject: [PATCH 58/73] fix: locals of SYSTEMV procedures with USES overlapped
 the saved registers outside ELF/Mach-O output

---
 proc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proc.c b/proc.c
index 7160f13..c22ccfd 100644
--- a/proc.c
+++ b/proc.c
@@ -5046,7 +5046,8 @@ void write_prologue(struct asm_tok tokenarray[])
 			CurrProc->e.procinfo->localsize = 0;
 			if ((Options.output_format == OFORMAT_COFF || Options.output_format == OFORMAT_BIN) && CurrProc->e.procinfo->isframe)
 				SetLocalOffsets_RBP(CurrProc->e.procinfo); 
-			else if ((Options.output_format == OFORMAT_ELF || Options.output_format == OFORMAT_MAC) && Options.sub_format == SFORMAT_64BIT)
+			else if (((Options.output_format == OFORMAT_ELF || Options.output_format == OFORMAT_MAC) && Options.sub_format == SFORMAT_64BIT) ||
+				CurrProc->sym.langtype == LANG_SYSVCALL)
 				SetLocalOffsets_RBP_SYSV(CurrProc->e.procinfo);
 			else
 				SetLocalOffsets(CurrProc->e.procinfo);
-- 
2.43.0


From a4c159b36a16593759ab67fe0bb677060b04018b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:18 +0000
Subject: [PATCH 59/73] fix: INVOKE for 8086 used stale knowledge about AX
 (zero high bytes after the register had been reloaded, DX and AH clobbered
 without a diagnostic)

---
 invoke.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/invoke.c b/invoke.c
index ee1c50b..359599d 100644
--- a/invoke.c
+++ b/invoke.c
@@ -82,6 +82,7 @@ enum reg_used_flags {
     R0_USED       = 0x01, /* register contents of AX/EAX/RAX is destroyed */
     R0_H_CLEARED  = 0x02, /* 16bit: high byte of R0 (=AH) has been set to 0 */
     R0_X_CLEARED  = 0x04, /* 16bit: register R0 (=AX) has been set to 0 */
+    R0_H_USED     = 0x80, /* contents of AH is destroyed */
     R2_USED       = 0x08, /* contents of DX is destroyed ( via CWD ); cpu < 80386 only */
 #if AMD64_SUPPORT
 		RCX_USED      = 0x08, /* win64: register contents of CL/CX/ECX/RCX is destroyed */
@@ -3537,6 +3538,7 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 	  {
         AddLineQueueX(" lea %r, %s", regax[ModuleInfo.Ofssize], fullparam);
         *r0flags |= R0_USED;
+        *r0flags &= ~(R0_H_CLEARED | R0_X_CLEARED);
         AddLineQueueX(" push %r", regax[ModuleInfo.Ofssize]);
       }
 
@@ -3872,7 +3874,7 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 							}
 							else {
 								AddLineQueueX(" mov %r, %s", T_AL, fullparam);
-								*r0flags = 0; /* reset AH_CLEARED */
+								*r0flags &= R2_USED; /* reset AH_CLEARED */
 								AddLineQueue(" cbw");
 								if (psize == 4) {
 									AddLineQueue(" cwd");
@@ -3887,6 +3889,7 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 							AddLineQueueX(" push %r", T_EAX);
 						}
 						*r0flags |= R0_USED;
+						*r0flags &= ~R0_X_CLEARED; /* AL has been set */
 						break;
 					case MT_WORD:
 					case MT_SWORD:
@@ -3995,7 +3998,8 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 					return(EmitErr(INVOKE_ARGUMENT_TYPE_MISMATCH, reqParam + 1));
 				}
 
-				if ((*r0flags & R0_USED) && (reg == T_AH || (optype & OP_A))) {
+				if (((*r0flags & R0_USED) && (reg == T_AH || (optype & OP_A))) ||
+					((*r0flags & R0_H_USED) && (reg == T_AH || reg == T_AX))) {
 					EmitErr(REGISTER_VALUE_OVERWRITTEN_BY_INVOKE);
 					*r0flags &= ~R0_USED;
 				}
@@ -4025,6 +4029,7 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 								else {
 									AddLineQueueX(" mov %r, %s", T_AL, fullparam);
 									*r0flags |= R0_USED;
+									*r0flags &= ~R0_X_CLEARED;
 									reg = T_EAX;
 								}
 								asize = 2; /* done */
@@ -4089,7 +4094,7 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 								AddLineQueueX(" xor %r, %r", T_AX, T_AX);
 							}
 							AddLineQueueX(" push %r", T_AX);
-							*r0flags = R0_USED | R0_H_CLEARED | R0_X_CLEARED;
+							*r0flags |= R0_USED | R0_H_CLEARED | R0_X_CLEARED;
 						}
 					}
 
@@ -4107,7 +4112,8 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 									*r0flags |= R0_USED;
 									*r0flags &= ~R0_X_CLEARED;
 								}
-								if (psize != 1) /* v2.11: don't modify AH if paramsize is 1 */
+								if (psize != 1) { /* v2.11: don't modify AH if paramsize is 1 */
+									*r0flags |= R0_H_USED;
 									if (IS_SIGNED(opnd.mem_type)) {
 										AddLineQueue(" cbw");
 										*r0flags &= ~(R0_H_CLEARED | R0_X_CLEARED);
@@ -4116,6 +4122,7 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 										AddLineQueueX(" mov %r, 0", T_AH);
 										*r0flags |= R0_H_CLEARED;
 									}
+								}
 							}
 							reg = regax[ModuleInfo.Ofssize];
 						}
@@ -4193,6 +4200,7 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 					case 2:
 						if (opnd.value != 0 || opnd.kind == EXPR_ADDR) {
 							AddLineQueueX(" mov %r, %s", T_AX, fullparam);
+							*r0flags &= ~(R0_H_CLEARED | R0_X_CLEARED);
 						}
 						else {
 							if (!(*r0flags & R0_X_CLEARED)) {
@@ -4209,6 +4217,7 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 						AddLineQueueX(" push %r", T_AX);
 						if (opnd.uvalue != 0 || opnd.kind == EXPR_ADDR) {
 							AddLineQueueX(" mov %r, %r (%s)", T_AX, T_LOWWORD, fullparam);
+							*r0flags &= ~(R0_H_CLEARED | R0_X_CLEARED);
 						}
 						else {
 							*r0flags |= R0_H_CLEARED | R0_X_CLEARED;
-- 
2.43.0


From f356ed3f928e346f499b572968cddfb2fb8aea87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:32 +0000
Subject: [PATCH 60/73] fix: SYSTEMV stack arguments of INVOKE: crash on memory
 without a symbol, sized registers rejected, RAX and index registers
 overwritten without a diagnostic

---
 H/symbols.h |  1 +
 invoke.c    | 45 ++++++++++++++++++++++++++++++---------------
 2 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/H/symbols.h b/H/symbols.h
index 1a8bfed..454fed8 100644
--- a/H/symbols.h
+++ b/H/symbols.h
@@ -398,6 +398,7 @@ struct proc_info {
 	char                stackOps[64][MAX_LINE_LEN];
 	unsigned            stackOpCount;
 	unsigned            stackOfs;
+	bool                stackrax;                   /* a SYSTEMV stack argument of the current INVOKE refers to RAX */
 	unsigned            stackAdj;
 #endif
 
diff --git a/invoke.c b/invoke.c
index 359599d..3b48af1 100644
--- a/invoke.c
+++ b/invoke.c
@@ -1758,18 +1758,15 @@ static int sysv_vararg_param(struct dsym const *proc, int index, struct dsym *pa
 				}
 				else if (regsize == 4)
 				{
-					sprintf(info->stackOps[info->stackOpCount++], "push %s", paramvalue);
-					BuildCodeLine(info->stackOps[info->stackOpCount++], "movsxd %r, %s", sysv_regTo64(reg), paramvalue);
+					BuildCodeLine(info->stackOps[info->stackOpCount++], "push %r", sysv_regTo64(reg));
 				}
 				else if (regsize == 2)
 				{
-					sprintf(info->stackOps[info->stackOpCount++], "push %s", paramvalue);
-					BuildCodeLine(info->stackOps[info->stackOpCount++], "movsx %r, %s", sysv_regTo64(reg), paramvalue);
+					BuildCodeLine(info->stackOps[info->stackOpCount++], "push %r", sysv_regTo64(reg));
 				}
 				else if (regsize == 1)
 				{
-					sprintf(info->stackOps[info->stackOpCount++], "push %s", paramvalue);
-					BuildCodeLine(info->stackOps[info->stackOpCount++], "movsx %r, %s", sysv_regTo64(reg), paramvalue);
+					BuildCodeLine(info->stackOps[info->stackOpCount++], "push %r", sysv_regTo64(reg));
 				}	
 				info->stackOfs += 8;
 			}
@@ -2031,7 +2028,7 @@ static int sysv_vararg_param(struct dsym const *proc, int index, struct dsym *pa
 * the argument is used instead of the value, unless it's _m128/_m256 then it uses a vector register.
 * structure members are inspected one by one and sloted into available registers where possible else on stack.
 */
-static int sysv_param(struct dsym const *proc, int index, struct dsym *param, bool addr, struct expr *opnd, char *paramvalue, uint_8 *regs_used)
+static int sysv_param_one(struct dsym const *proc, int index, struct dsym *param, bool addr, struct expr *opnd, char *paramvalue, uint_8 *regs_used)
 /************************************************************************************************************************************************/
 {
 	uint_32 psize;
@@ -2073,7 +2070,7 @@ static int sysv_param(struct dsym const *proc, int index, struct dsym *param, bo
 		reg2 = sysv_regTo64(opnd->idx_reg->tokval);
 		if (GetValueSp(reg2) & OP_R) 
 		{
-			base = sysv_reg(reg);
+			base = sysv_reg(reg2);
 			if (base <= 6 && *regs_used & (1 << base))
 				destroyed = TRUE;
 		}
@@ -2737,18 +2734,15 @@ static int sysv_param(struct dsym const *proc, int index, struct dsym *param, bo
 					}
 					else if (regsize == 4)
 					{
-						sprintf(info->stackOps[info->stackOpCount++], "push %s", paramvalue);
-						BuildCodeLine(info->stackOps[info->stackOpCount++], "movsxd %r, %s", sysv_regTo64(reg), paramvalue);
+						BuildCodeLine(info->stackOps[info->stackOpCount++], "push %r", sysv_regTo64(reg));
 					}
 					else if (regsize == 2)
 					{
-						sprintf(info->stackOps[info->stackOpCount++], "push %s", paramvalue);
-						BuildCodeLine(info->stackOps[info->stackOpCount++], "movsx %r, %s", sysv_regTo64(reg), paramvalue);
+						BuildCodeLine(info->stackOps[info->stackOpCount++], "push %r", sysv_regTo64(reg));
 					}
 					else if (regsize == 1)
 					{
-						sprintf(info->stackOps[info->stackOpCount++], "push %s", paramvalue);
-						BuildCodeLine(info->stackOps[info->stackOpCount++], "movsx %r, %s", sysv_regTo64(reg), paramvalue);
+						BuildCodeLine(info->stackOps[info->stackOpCount++], "push %r", sysv_regTo64(reg));
 					}
 					info->stackOfs += 8;
 				}
@@ -2845,7 +2839,7 @@ static int sysv_param(struct dsym const *proc, int index, struct dsym *param, bo
 			}
 
 			/* Operand is a memory address (IE: symbol name) or memory address expression like [rbp+rax] etc */
-			if (opnd->kind == EXPR_ADDR && !addr && ((opnd->sym->type &&
+			if (opnd->kind == EXPR_ADDR && !addr && (!opnd->sym || (opnd->sym->type &&
 				_stricmp(opnd->sym->type->name, "__m128") != 0 &&
 				_stricmp(opnd->sym->type->name, "__m256") != 0 &&
 				_stricmp(opnd->sym->type->name, "__m512") != 0) || !opnd->sym->type))
@@ -2900,6 +2894,26 @@ static int sysv_param(struct dsym const *proc, int index, struct dsym *param, bo
 
 }
 
+/*
+ * The code for the stack arguments runs after that for the register arguments, the last argument first.
+ * If it uses RAX as temporary register, a stack argument in front of it cannot refer to RAX.
+ */
+static int sysv_param(struct dsym const *proc, int index, struct dsym *param, bool addr, struct expr *opnd, char *paramvalue, uint_8 *regs_used)
+{
+	struct proc_info *info = proc->e.procinfo;
+	int              first = info->stackOpCount;
+	int              rc = sysv_param_one(proc, index, param, addr, opnd, paramvalue, regs_used);
+
+	if (info->stackOpCount > first)
+	{
+		if (info->stackrax && info->stackOpCount > first + 1 && _stricmp(info->stackOps[first], "push rax") == 0)
+			EmitErr(REGISTER_VALUE_OVERWRITTEN_BY_INVOKE);
+		if ((opnd->base_reg && sysv_regTo64(opnd->base_reg->tokval) == T_RAX) || (opnd->idx_reg && sysv_regTo64(opnd->idx_reg->tokval) == T_RAX))
+			info->stackrax = TRUE;
+	}
+	return(rc);
+}
+
 #endif
 
 /* get segment part of an argument
@@ -4412,6 +4426,7 @@ ret_code InvokeDirective(int i, struct asm_tok tokenarray[])
 			*(info->stackOps[j]) = NULLC;
 		info->stackOpCount = 0;
 		info->stackOfs = 0;
+		info->stackrax = FALSE;
 		if (Parse_Pass == PASS_1)
 			info->stackAdj = 0;
 	}
-- 
2.43.0


From 6b685108e5fa645326030dda486cf159085ecb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:13 +0000
Subject: [PATCH 61/73] fix: forward references with an offset beyond 64K were
 rejected in 32-bit code

---
 parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 082167c..83cb490 100644
--- a/parser.c
+++ b/parser.c
@@ -725,7 +725,9 @@ static ret_code set_rm_sib(struct code_info *CodeInfo, unsigned CurrOpnd, char s
         //if( !IS_ADDR32( CodeInfo ) ) {
         if( ( CodeInfo->Ofssize == USE16 && CodeInfo->prefix.adrsiz == 0 ) ||
             ( CodeInfo->Ofssize == USE32 && CodeInfo->prefix.adrsiz == 1 )) {
-            if( !InWordRange( CodeInfo->opnd[CurrOpnd].data32l ) ) {
+            /* the offset size of a forward reference isn't known yet */
+            if( !InWordRange( CodeInfo->opnd[CurrOpnd].data32l ) &&
+                !( Parse_Pass == PASS_1 && sym && sym->state == SYM_UNDEFINED ) ) {
                 /* expect 16-bit but got 32-bit address */
                 DebugMsg1(( "set_rm_sib: error, Ofssize=%u, adrsize=%u, data=%" I32_SPEC "X\n",
                         CodeInfo->Ofssize, CodeInfo->prefix.adrsiz, CodeInfo->opnd[CurrOpnd].data32l ));
-- 
2.43.0


From 77ca87413887d535333d9a08492fa6c53511eb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:13 +0000
Subject: [PATCH 62/73] fix: ELF symbols of COMM items had size 0 and the size
 as alignment

---
 elf.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/elf.c b/elf.c
index e0821e1..61c6037 100644
--- a/elf.c
+++ b/elf.c
@@ -178,6 +178,19 @@ static int get_num_reloc_sections( void )
     return( num );
 }
 
+/* alignment of a COMMUNAL: that of its elements */
+
+static unsigned GetCommAlign( const struct asym *sym )
+/****************************************************/
+{
+    unsigned size = ( sym->total_length ? sym->total_size / sym->total_length : sym->total_size );
+    unsigned align = 1;
+
+    while ( align < 16 && ( size & ( align * 2 - 1 ) ) == 0 && size )
+        align *= 2;
+    return( align );
+}
+
 /* fill entries in ELF32 symbol table */
 
 static uint_32 set_symtab32( struct elfmod *em, uint_32 entries, struct localname *localshead )
@@ -256,10 +269,11 @@ static uint_32 set_symtab32( struct elfmod *em, uint_32 entries, struct localnam
 
         p32->st_name = strsize;
 
-        /* for COMMUNALs, store their size in the Value field */
+        /* for COMMUNALs, the Value field holds the alignment */
         if ( curr->sym.iscomm == TRUE ) {
             p32->st_info = ELF32_ST_INFO( STB_GLOBAL, STT_COMMON );
-            p32->st_value = curr->sym.total_size;
+            p32->st_value = GetCommAlign( &curr->sym );
+            p32->st_size = curr->sym.total_size;
             p32->st_shndx = SHN_COMMON;
         } else {
 #if OWELFIMPORT
@@ -438,10 +452,11 @@ static uint_32 set_symtab64( struct elfmod *em, uint_32 entries, struct localnam
 
         p64->st_name = strsize;
 
-        /* for COMMUNALs, store their size in the Value field */
+        /* for COMMUNALs, the Value field holds the alignment */
         if ( curr->sym.iscomm == TRUE ) {
             p64->st_info = ELF64_ST_INFO( STB_GLOBAL, STT_COMMON );
-            p64->st_value = curr->sym.total_size;
+            p64->st_value = GetCommAlign( &curr->sym );
+            p64->st_size = curr->sym.total_size;
             p64->st_shndx = SHN_COMMON;
         } else {
 #if OWELFIMPORT
-- 
2.43.0


From e79ae8aca5b5bbc1936559c83d73ba54559de532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:25 +0000
Subject: [PATCH 63/73] fix: ELF32: FASTCALL procedures and calls were treated
 as Win64 ones

---
 assemble.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/assemble.c b/assemble.c
index 05e1a3d..d9fd8bb 100644
--- a/assemble.c
+++ b/assemble.c
@@ -789,7 +789,7 @@ static void ModulePassInit( void )
         ModuleInfo.fctype = Options.fctype;
 
 		#if AMD64_SUPPORT
-		if (Options.output_format == OFORMAT_ELF)
+		if (Options.output_format == OFORMAT_ELF && ModuleInfo.sub_format == SFORMAT_64BIT)
 		{
 			ModuleInfo.fctype = FCT_WIN64;
 			Options.fctype = FCT_WIN64; /* SYSV proc/invoke tables use the same ordinal as FCT_WIN64 so set it now, instead of FCT_MSC */
-- 
2.43.0


From 3bab8078d5d74d050119f40dc1a0ee4ef6d60f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:28 +0000
Subject: [PATCH 64/73] fix: INCBIN ignored its size argument and failed with
 an offset behind the end of the file

---
 directiv.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/directiv.c b/directiv.c
index 3e742fb..8d628e3 100644
--- a/directiv.c
+++ b/directiv.c
@@ -264,9 +264,13 @@ ret_code IncBinDirective( int i, struct asm_tok tokenarray[] )
 	{
 		/* v2.14 : Get File Size */
 		fseek( file, 0L, SEEK_END );
-		sz = ftell( file ) - fileoffset; // sz = total data size to load into segment/section.
+		sz = ftell( file );
+		/* the part of the file that was selected by the <offset> and <size> arguments */
+		sz = ( fileoffset < (uint_32)sz ? sz - (long)fileoffset : 0 );
+		if ( (uint_32)sz > sizemax )
+			sz = (long)sizemax;
 		fseek( file, 0L, SEEK_SET );
-		pBinData = (unsigned char*)malloc(sz);
+		pBinData = (unsigned char*)malloc(sz + 1);
 		if ( fileoffset )
 			fseek( file, fileoffset, SEEK_SET );  /* fixme: use fseek64() */
 		result = fread(pBinData, sz, 1, file);
-- 
2.43.0


From f6d09c4b5717f3cbe867d8276f70d68bea82aa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:29 +0000
Subject: [PATCH 65/73] fix: INCBIN of more than about 1000 bytes failed with
 OMF output

---
 assemble.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/assemble.c b/assemble.c
index d9fd8bb..a154bd7 100644
--- a/assemble.c
+++ b/assemble.c
@@ -282,8 +282,14 @@ void OutputByte( unsigned char byte )
 /* Added 2.14: to accelerate bulk writing of incbin data */
 void OutputBinBytes(unsigned char* pBytes, uint_32 len)
 {
-	int i;
+	uint_32 i;
 
+	/* in OMF, the segment buffer has room for one LEDATA record only */
+	while (Options.output_format == OFORMAT_OMF && len > MAX_LEDATA_THRESHOLD / 2) {
+		OutputBinBytes(pBytes, MAX_LEDATA_THRESHOLD / 2);
+		pBytes += MAX_LEDATA_THRESHOLD / 2;
+		len -= MAX_LEDATA_THRESHOLD / 2;
+	}
 	if (write_to_file == TRUE) {
 		uint_32 idx = CurrSeg->e.seginfo->current_loc - CurrSeg->e.seginfo->start_loc;
 #ifdef DEBUG_OUT
@@ -292,7 +298,7 @@ void OutputBinBytes(unsigned char* pBytes, uint_32 len)
 		}
 #endif
 		/**/myassert(CurrSeg->e.seginfo->current_loc >= CurrSeg->e.seginfo->start_loc);
-		if (Options.output_format == OFORMAT_OMF && idx >= MAX_LEDATA_THRESHOLD) {
+		if (Options.output_format == OFORMAT_OMF && ((idx + len) > MAX_LEDATA_THRESHOLD)) {
 			omf_FlushCurrSeg();
 			idx = CurrSeg->e.seginfo->current_loc - CurrSeg->e.seginfo->start_loc;
 		}
-- 
2.43.0


From 4f31a19e3ebb7a50b74cebe7e43192a1a13ae3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:06 +0000
Subject: [PATCH 66/73] fix: errors of later passes in macro lines named the
 wrong file after an INCLUDE

---
 H/fastpass.h | 3 ++-
 assemble.c   | 2 +-
 fastpass.c   | 7 ++-----
 input.c      | 3 +--
 4 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/H/fastpass.h b/H/fastpass.h
index 330e955..b201062 100644
--- a/H/fastpass.h
+++ b/H/fastpass.h
@@ -29,7 +29,8 @@ struct equ_item {
 
 struct line_item {
     struct line_item *next;
-    uint_32 lineno:20, srcfile:12;
+    uint_32 lineno;
+    uint_32 srcfile:31, macro:1; /* macro: it's a macro line */
     uint_32 list_pos; /* position .LST file */
     char line[1];
 };
diff --git a/assemble.c b/assemble.c
index a154bd7..68d3acd 100644
--- a/assemble.c
+++ b/assemble.c
@@ -1216,7 +1216,7 @@ static int OnePass( void )
             set_curr_srcfile( LineStoreCurr->srcfile, LineStoreCurr->lineno );
             /* v2.06: list flags now initialized on the top level */
             ModuleInfo.line_flags = 0;
-            MacroLevel = ( LineStoreCurr->srcfile == 0xFFF ? 1 : 0 );
+            MacroLevel = ( LineStoreCurr->macro ? 1 : 0 );
             DebugMsg1(("OnePass(%u) cur/nxt=%X/%X src=%X.%u mlvl=%u: >%s<\n", Parse_Pass+1, LineStoreCurr, LineStoreCurr->next, LineStoreCurr->srcfile, LineStoreCurr->lineno, MacroLevel, LineStoreCurr->line ));
             ModuleInfo.CurrComment = NULL; /* v2.08: added (var is never reset because GetTextLine() isn't called) */
 #if USELSLINE
diff --git a/fastpass.c b/fastpass.c
index 3a8a050..cfcdfbd 100644
--- a/fastpass.c
+++ b/fastpass.c
@@ -84,11 +84,8 @@ void StoreLine( const char *srcline, int flags, uint_32 lst_position )
     LineStoreCurr = LclAlloc( i + j + sizeof( struct line_item ) );
     LineStoreCurr->next = NULL;
     LineStoreCurr->lineno = GetLineNumber();
-    if ( MacroLevel ) {
-        LineStoreCurr->srcfile = 0xfff;
-    } else {
-        LineStoreCurr->srcfile = get_curr_srcfile();
-    }
+    LineStoreCurr->macro = ( MacroLevel ? 1 : 0 );
+    LineStoreCurr->srcfile = get_curr_srcfile();
     LineStoreCurr->list_pos = ( lst_position ? lst_position : list_pos );
     if ( j ) {
         memcpy( LineStoreCurr->line, srcline, i );
diff --git a/input.c b/input.c
index b92720c..b70d733 100644
--- a/input.c
+++ b/input.c
@@ -456,8 +456,7 @@ unsigned get_curr_srcfile( void )
 void set_curr_srcfile( unsigned file, uint_32 line_num )
 /******************************************************/
 {
-    if ( file != 0xFFF ) /* 0xFFF is the special value for macro lines */
-        src_stack->srcfile = file;
+    src_stack->srcfile = file;
     src_stack->line_num = line_num;
     return;
 }
-- 
2.43.0


From ff424078b4a31ba293326c8a9ca99bc269a5a86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:59 +0000
Subject: [PATCH 67/73] fix: COFF line numbers: the first line after a change
 of the source file was lost if its number equalled the last one

---
 linnum.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/linnum.c b/linnum.c
index 16749ab..77df155 100644
--- a/linnum.c
+++ b/linnum.c
@@ -32,6 +32,7 @@ extern int            procidx;
 
 static struct asym    *dmyproc;
 static uint_32        lastLineNumber;
+static unsigned       lastSrcFile;
 
 static void AddLinnumData( struct line_num_info *data )
 /*****************************************************/
@@ -113,11 +114,12 @@ void AddLinnumDataRef( unsigned srcfile, uint_32 line_num )
                 curr->file = srcfile;
                 curr->number = 0;
                 AddLinnumData( curr );
+                lastLineNumber = 0; /* the first line of the dummy proc must not be skipped */
             }
         }
     }
 
-    if(  line_num && ( write_to_file == FALSE || lastLineNumber == line_num )) {
+    if(  line_num && ( write_to_file == FALSE || ( lastLineNumber == line_num && lastSrcFile == srcfile ) )) {
         return;
     }
 
@@ -158,6 +160,7 @@ void AddLinnumDataRef( unsigned srcfile, uint_32 line_num )
     }
 
     lastLineNumber = line_num;
+    lastSrcFile = srcfile;
 
     /* v2.11: added, improved multi source support for CV.
      * Also, the size of line number info could have become > 1024,
-- 
2.43.0


From 2f6e565ba762db4cd0a028fc29ae0a03cb7e2ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:27 +0000
Subject: [PATCH 68/73] fix: .SAVEREG and .SAVEXMM128 with far offsets wrote
 scaled offsets and truncated 512k and 1M

---
 proc.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/proc.c b/proc.c
index c22ccfd..4ced35b 100644
--- a/proc.c
+++ b/proc.c
@@ -2500,10 +2500,11 @@ ret_code ExcFrameDirective(int i, struct asm_tok tokenarray[])
 		switch (token) {
 		case T_DOT_SAVEREG:
 			puc->OpInfo = reg;
-			if (opndx.value > 65536 * size) {
-				puc->FrameOffset = (opndx.value >> 19);
+			if (opndx.value >= 65536 * size) {
+				/* the offset is stored UNSCALED in 2 WORDs! */
+				puc->FrameOffset = (opndx.value >> 16);
 				puc++;
-				puc->FrameOffset = (opndx.value >> 3);
+				puc->FrameOffset = opndx.value & 0xFFFF;
 				puc++;
 				puc->UnwindOp = UWOP_SAVE_NONVOL_FAR;
 				unw_info.CountOfCodes += 3;
@@ -2519,10 +2520,10 @@ ret_code ExcFrameDirective(int i, struct asm_tok tokenarray[])
 			break;
 		case T_DOT_SAVEXMM128:
 		case T_DOT_SAVEYMM256:
-			if (opndx.value > 65536 * size) {
-				puc->FrameOffset = (opndx.value >> 20);
+			if (opndx.value >= 65536 * size) {
+				puc->FrameOffset = (opndx.value >> 16);
 				puc++;
-				puc->FrameOffset = (opndx.value >> 4);
+				puc->FrameOffset = opndx.value & 0xFFFF;
 				puc++;
 				puc->UnwindOp = UWOP_SAVE_XMM128_FAR;
 				unw_info.CountOfCodes += 3;
@@ -2554,10 +2555,10 @@ ret_code ExcFrameDirective(int i, struct asm_tok tokenarray[])
 			//    puc->OpInfo = reg;
 			//    break;
 		case T_DOT_SAVEZMM512:
-			if (opndx.value > 65536 * size) {
-				puc->FrameOffset = (opndx.value >> 20);
+			if (opndx.value >= 65536 * size) {
+				puc->FrameOffset = (opndx.value >> 16);
 				puc++;
-				puc->FrameOffset = (opndx.value >> 4);
+				puc->FrameOffset = opndx.value & 0xFFFF;
 				puc++;
 				puc->UnwindOp = UWOP_SAVE_XMM128_FAR;
 				unw_info.CountOfCodes += 3;
-- 
2.43.0


From 491fac80b9d303f22683c8387bc897313c065d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:24 +0000
Subject: [PATCH 69/73] fix: FRAME procs with volatile registers in USES had no
 unwind code for their PUSH

---
 proc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/proc.c b/proc.c
index 4ced35b..8f51b9d 100644
--- a/proc.c
+++ b/proc.c
@@ -3036,6 +3036,8 @@ static void write_win64_default_prologue_RBP(struct proc_info *info)
 						if (info->isframe && ModuleInfo.frame_auto)
 							AddLineQueueX("%r %r", T_DOT_PUSHREG, *regist);
 					}
+					else if (info->isframe && ModuleInfo.frame_auto)
+						AddLineQueueX("%r %u", T_DOT_ALLOCSTACK, 8); /* volatile, but it moves RSP */
 				}
 			} /* end for */
 		}
@@ -3288,6 +3290,8 @@ static void write_win64_default_prologue_RSP(struct proc_info *info)
 						if ((1 << GetRegNo(*regist)) & win64_nvgpr) {
 							AddLineQueueX("%r %r", T_DOT_PUSHREG, *regist);
 						}
+						else
+							AddLineQueueX("%r %u", T_DOT_ALLOCSTACK, 8); /* volatile, but it moves RSP */
 					}
 				}
 			} /* end for */
-- 
2.43.0


From 95940c10d6babe4e9cca1db6f0c314bd40abecf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:24 +0000
Subject: [PATCH 70/73] fix: FRAME procs: a SUB RSP of the prologue had no
 unwind code with OPTION STACKBASE:RSP

---
 proc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proc.c b/proc.c
index 8f51b9d..07f67cc 100644
--- a/proc.c
+++ b/proc.c
@@ -3559,6 +3559,7 @@ static void write_win64_default_prologue_RSP(struct proc_info *info)
 			{
 				AddLineQueueX("sub %r, %d", stackreg[ModuleInfo.Ofssize], stackSize);
 			}
+			AddLineQueueX("%r %u", T_DOT_ALLOCSTACK, NUMQUAL stackSize);
 		}
 
 		AddLineQueueX("%r", T_DOT_ENDPROLOG);
-- 
2.43.0


From 7208be5bec5b7d64f11a8d5d89008cdab9f2dd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:00 +0000
Subject: [PATCH 71/73] fix: FRAME procs: .SAVEREG of registers stored in the
 home space had the offset from the entry instead of the final RSP

---
 proc.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/proc.c b/proc.c
index 07f67cc..66fa3c0 100644
--- a/proc.c
+++ b/proc.c
@@ -2813,6 +2813,8 @@ static void win64_SaveRegParams_RSP(struct proc_info *info)
 /* ========================================================================================================= */
 /* WIN64 Store USED registers into free shadow spaces                                                        */
 /* ========================================================================================================= */
+static struct { uint_16 reg; uint_16 ofs; } home_saved[4];
+
 static void win64_StoreRegHome(struct proc_info *info)
 /*******************************************************/
 {
@@ -2879,7 +2881,9 @@ static void win64_StoreRegHome(struct proc_info *info)
 				{
 					if (info->home_used[i] == 0) {
 						AddLineQueueX("mov [%r+%u], %r", T_RSP, NUMQUAL sizestd, *regist);
-						AddLineQueueX("%r %r, %u", T_DOT_SAVEREG, *regist, NUMQUAL sizestd);
+						/* .SAVEREG needs the offset from the final RSP, so it's written when the stack is allocated */
+						home_saved[info->stored_reg].reg = *regist;
+						home_saved[info->stored_reg].ofs = sizestd;
 						info->stored_reg++;
 					}
 					else {
@@ -3238,6 +3242,8 @@ static void write_win64_default_prologue_RSP(struct proc_info *info)
 	int                 stackSize;
 	int                 resstack = ((ModuleInfo.win64_flags & W64F_AUTOSTACKSP) ? sym_ReservedStack->value : 0);
 	int pushed = 0;
+	int allocated = 0;
+	bool resadded = FALSE;
 
 	if (Parse_Pass == PASS_1)
 	{
@@ -3356,6 +3362,8 @@ static void write_win64_default_prologue_RSP(struct proc_info *info)
 				AddLineQueueX(*(ppfmt + 0), T_RSP, NUMQUAL stackSize, sym_ReservedStack->name);
 			}
 			AddLineQueueX(*(ppfmt + 1), T_DOT_ALLOCSTACK, NUMQUAL stackSize, sym_ReservedStack->name);
+			allocated = stackSize;
+			resadded = (resstack != 0);
 
 			/* save xmm registers */
 			if (cntxmm) {
@@ -3560,6 +3568,14 @@ static void write_win64_default_prologue_RSP(struct proc_info *info)
 				AddLineQueueX("sub %r, %d", stackreg[ModuleInfo.Ofssize], stackSize);
 			}
 			AddLineQueueX("%r %u", T_DOT_ALLOCSTACK, NUMQUAL stackSize);
+			allocated = stackSize;
+		}
+
+		/* registers stored in the home space */
+		if (ModuleInfo.win64_flags & W64F_SMART) {
+			for (i = 0; i < info->stored_reg; i++)
+				AddLineQueueX(resadded ? "%r %r, %u+%s" : "%r %r, %u", T_DOT_SAVEREG, home_saved[i].reg,
+					NUMQUAL (home_saved[i].ofs + info->pushed_reg * 8 + allocated), sym_ReservedStack ? sym_ReservedStack->name : "");
 		}
 
 		AddLineQueueX("%r", T_DOT_ENDPROLOG);
-- 
2.43.0


From e22bbec2efb16a8f7df508d2255751d707d399fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:54 +0000
Subject: [PATCH 72/73] fix: procs with XMM registers in USES and no locals
 didn't save them with OPTION STACKBASE:RSP

---
 proc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proc.c b/proc.c
index 66fa3c0..663e789 100644
--- a/proc.c
+++ b/proc.c
@@ -3320,7 +3320,7 @@ static void write_win64_default_prologue_RSP(struct proc_info *info)
 			}
 		}
 
-		if ((info->locallist + resstack) || info->vecused || CurrProc->e.procinfo->xmmsize) {
+		if ((info->locallist + resstack) || info->vecused || cntxmm || CurrProc->e.procinfo->xmmsize) {
 			DebugMsg1(("write_win64_default_prologue_RSP: localsize=%u resstack=%u\n", info->localsize, resstack));
 			if (ModuleInfo.win64_flags & W64F_HABRAN) {
 				if (((info->pushed_reg & 1) && (info->localsize & 0xF)) ||
-- 
2.43.0


From 868fed22f2f9e8b7f93305a6d5add5e5c3ba0309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:58 +0000
Subject: [PATCH 73/73] fix: the size of a structure with fields at negative
 offsets

An alignment of the negative current offset (before a field, or by ALIGN)
compared it as unsigned with the size so far, which made the size the
negative offset: too small, or zero.
---
 types.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types.c b/types.c
index 06804f0..6e41b9b 100644
--- a/types.c
+++ b/types.c
@@ -1357,7 +1357,7 @@ struct asym *CreateStructField( int loc, struct asm_tok tokenarray[], const char
          */
         if ( CurrStruct->sym.typekind != TYPE_UNION ) {
             CurrStruct->sym.offset = offset;
-            if ( offset > CurrStruct->sym.total_size )
+            if ( offset > (int_32)CurrStruct->sym.total_size )
                 CurrStruct->sym.total_size = offset;
         }
     }
@@ -1405,7 +1405,7 @@ ret_code AlignInStruct( int value )
         offset = CurrStruct->sym.offset;
         offset = (offset + (value - 1)) & (-value);
         CurrStruct->sym.offset = offset;
-        if ( offset > CurrStruct->sym.total_size )
+        if ( offset > (int_32)CurrStruct->sym.total_size )
             CurrStruct->sym.total_size = offset;
     }
     return( NOT_ERROR );
-- 
2.43.0

