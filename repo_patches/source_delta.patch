From 9f336121a263af08486ba4b84ec73a9f6cbcf044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:26 +0000
Subject: [PATCH 01/29] fix: INT64_MIN / -1 in a constant expression crashed
 the assembler

---
 expreval.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/expreval.c b/expreval.c
index 6f4e2d7..9024c65 100644
--- a/expreval.c
+++ b/expreval.c
@@ -3574,7 +3574,11 @@ static ret_code calculate( struct expr *opnd1, struct expr *opnd2, const struct
             return( fnEmitErr( DIVIDE_BY_ZERO_IN_EXPR ) );
         }
 
-        opnd1->value64 /= opnd2->value64;
+        /* INT64_MIN / -1 traps on x86: negate instead */
+        if ( opnd2->value64 == -1 )
+            opnd1->llvalue = 0 - opnd1->llvalue;
+        else
+            opnd1->value64 /= opnd2->value64;
         break;
     case T_BINARY_OPERATOR:
         DebugMsg1(("calculate(%s [T_BINARY_OPERATOR] ): t1-t2 kind %d/%d memtype %X-%X sym %s-%s type %s-%s\n",
-- 
2.43.0


From 16e74470632f2efa913d9716294a387fd0e6f5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:42 +0000
Subject: [PATCH 02/29] fix: shift counts of 2^32 and above were taken modulo
 2^32

---
 expreval.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/expreval.c b/expreval.c
index 9024c65..d3ec493 100644
--- a/expreval.c
+++ b/expreval.c
@@ -3735,9 +3735,9 @@ static ret_code calculate( struct expr *opnd1, struct expr *opnd2, const struct
         case T_SHL:
             /* v2.04: check for shift count < 0 */
             DebugMsg1(("calculate(SHL): value=%" I64_SPEC "X << %" I32_SPEC "u (max=%u)\n", opnd1->llvalue, opnd2->value, 8 * sizeof( opnd1->llvalue ) ));
-            if ( opnd2->value < 0 )
+            if ( opnd2->value64 < 0 )
                 fnEmitErr( COUNT_MUST_BE_POSITIVE_OR_ZERO );
-            else if ( opnd2->value >= ( 8 * sizeof( opnd1->llvalue ) ) )
+            else if ( opnd2->value64 >= ( 8 * sizeof( opnd1->llvalue ) ) )
                 opnd1->llvalue = 0;
             else
                 opnd1->llvalue = opnd1->llvalue << opnd2->value;
@@ -3760,9 +3760,9 @@ static ret_code calculate( struct expr *opnd1, struct expr *opnd2, const struct
              * there is a problem with some compilers if shift
              * count is >= 64. So in this case the result is zeroed manually
              */
-	            if ( opnd2->value < 0 )
+	            if ( opnd2->value64 < 0 )
 		             fnEmitErr( COUNT_MUST_BE_POSITIVE_OR_ZERO );
-	            else if ( opnd2->value >= ( 8 * sizeof( opnd1->llvalue ) ) )
+	            else if ( opnd2->value64 >= ( 8 * sizeof( opnd1->llvalue ) ) )
 		             opnd1->llvalue = 0;
 	            else {
                 /* Nidud fix v2.28*/
-- 
2.43.0


From 51f6aa016d9583f578089c2a2bb2ce46d1e65807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:57 +0000
Subject: [PATCH 03/29] fix: integer initializers above 64 bits were silently
 truncated

---
 data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data.c b/data.c
index 33b981b..bd2e141 100644
--- a/data.c
+++ b/data.c
@@ -911,7 +911,7 @@ next_item:  /* <--- continue scan if a comma has been detected */
                     if ( no_of_bytes <= sizeof( int_64 ) ) {
                         tmp = ( opndx.chararray[7] < 0x80 ? 0 : 0xFF );
                         memset( opndx.chararray, tmp, no_of_bytes );
-                        if ( opndx.llvalue != 0 && opndx.llvalue != -1 ) {
+                        if ( ( opndx.llvalue != 0 && opndx.llvalue != -1 ) || opndx.hlvalue != 0 ) {
                             DebugMsg(("data_item.CONST: error, unhandled data is %" I64_SPEC "X_%016" I64_SPEC "X\n", opndx.hlvalue, opndx.llvalue));
                             return( EmitErr( INITIALIZER_MAGNITUDE_TOO_LARGE, opndx.sym ? opndx.sym->name : "" ) );
                         }
-- 
2.43.0


From 36feb2131826b66912724368198641de39148c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:57 +0000
Subject: [PATCH 04/29] fix: negating a multiple of 2^64 borrowed one from the
 high quadword

---
 expreval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expreval.c b/expreval.c
index d3ec493..60c5b95 100644
--- a/expreval.c
+++ b/expreval.c
@@ -3199,7 +3199,7 @@ static ret_code negative_op( struct expr *opnd1, struct expr *opnd2 )
          * a bit hackish.
          */
         if ( opnd2->hlvalue )
-            opnd1->hlvalue = -opnd2->hlvalue - 1;
+            opnd1->hlvalue = -opnd2->hlvalue - ( opnd2->llvalue != 0 );
         opnd1->negative = 1 - opnd2->negative; /* ??? supposed to be used for EXPR_FLOAT only! */
     } else if( opnd2->kind == EXPR_FLOAT ) {
         opnd1->kind = EXPR_FLOAT;
-- 
2.43.0


From 9d76d38a35b6a0a52a64701b2804cf8c2332b52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 05/29] fix: out-of-bounds table read for a memory operand
 without a base register

---
 parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.c b/parser.c
index fc5239a..cbfa550 100644
--- a/parser.c
+++ b/parser.c
@@ -697,7 +697,7 @@ static ret_code set_rm_sib(struct code_info *CodeInfo, unsigned CurrOpnd, char s
     mod_field = MOD_01; /* byte size displacement */
     }
   /* In the case of suppressed base register it has to be swapped with index v2.38 */
-  temp = GetValueSp( base );                                 /* get value from SpecialTable */
+  temp = ( base == EMPTY ? 0 : GetValueSp( base ) );         /* get value from SpecialTable */
   if (temp == OP_XMM || temp == OP_YMM || temp == OP_ZMM){   /* base can be only GP register*/
     temp = index;                                            /* swap index with base */
     index = base;
@@ -1736,7 +1736,7 @@ static ret_code memory_operand( struct code_info *CodeInfo, unsigned CurrOpnd, s
     index = ( opndx->idx_reg ? opndx->idx_reg->tokval : EMPTY );
 
     /* swap registers if base is AVX register, v2.38 */
-    if (GetValueSp(base) == OP_XMM || GetValueSp(base) == OP_YMM || GetValueSp(base) == OP_ZMM)
+    if (base != EMPTY && (GetValueSp(base) == OP_XMM || GetValueSp(base) == OP_YMM || GetValueSp(base) == OP_ZMM))
 	{
       temp    = base;
       base    = index;
-- 
2.43.0


From 057b585bc16b6708e8ae7b53502ec8fe73a58aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 06/29] fix: a stray SIB byte was emitted for 16-bit addressing
 in 32-bit code

---
 codegen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index ddb3f14..cfb2854 100644
--- a/codegen.c
+++ b/codegen.c
@@ -2652,7 +2652,8 @@ static void output_opc(struct code_info *CodeInfo)
         //if( ( CodeInfo->Ofssize == USE16 && CodeInfo->prefix.adrsiz == 0 ) ||
         //   ( CodeInfo->Ofssize == USE32 && CodeInfo->prefix.adrsiz == 1 ) )
         //    return; /* no SIB for 16bit */
-        if ( CodeInfo->Ofssize == USE16 && CodeInfo->prefix.adrsiz == 0 ) 
+        if ( ( CodeInfo->Ofssize == USE16 && CodeInfo->prefix.adrsiz == 0 ) ||
+            ( CodeInfo->Ofssize == USE32 && CodeInfo->prefix.adrsiz == 1 && CodeInfo->token < VEX_START ) )
             return; /* no SIB for 16bit */
 
         switch ( tmp & NOT_BIT_345 ) {
-- 
2.43.0


From 38e6a86bf374ba61595053633d85d09d5072d4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 07/29] fix: MOV with 16-bit addressing in 32-bit code,
 address-size prefix for a lone 32-bit index

---
 codegenv2.c | 46 ++++++++++++++++++++++------------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/codegenv2.c b/codegenv2.c
index ae4b814..cc9a795 100644
--- a/codegenv2.c
+++ b/codegenv2.c
@@ -1217,6 +1217,7 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 	int             idxRegSize = 0;
 	int             symSize = 0;
 	bool			skipSIB = FALSE;
+	bool			needDisp = FALSE;
 
 	/* Absolute addressing modes can skip this */
 	if (instr->memOpnd != MEM_ABS_1 && instr->memOpnd != MEM_ABS_0)
@@ -1284,7 +1285,7 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 	else
 	{
 		/* Address format requires Address Size Override Prefix */
-		if ((ModuleInfo.Ofssize == USE64 && baseRegSize == 4) ||
+		if ((ModuleInfo.Ofssize == USE64 && (baseRegSize == 4 || (baseRegSize == 0 && idxRegSize == 4))) ||
 			(ModuleInfo.Ofssize == USE32 && baseRegSize == 2) ||
 			(ModuleInfo.Ofssize == USE16 && baseRegSize == 4))
 			returnASO = 1;
@@ -1295,27 +1296,24 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 	{
 		if (instr->memOpnd < NO_MEM)
 		{
-			/* [BX + SI]	[BX + DI]	[BP + SI]	[BP + DI]	[SI]	[DI]	[disp16]	[BX] */
-			if (opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].idx_reg &&
-				opExpr[instr->memOpnd].base_reg->tokval == T_BX && opExpr[instr->memOpnd].idx_reg->tokval == T_SI)
-				* pmodRM |= 0;
-			else if (opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].idx_reg &&
-				opExpr[instr->memOpnd].base_reg->tokval == T_BX && opExpr[instr->memOpnd].idx_reg->tokval == T_DI)
-				* pmodRM |= 1;
-			else if (opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].idx_reg &&
-				opExpr[instr->memOpnd].base_reg->tokval == T_BP && opExpr[instr->memOpnd].idx_reg->tokval == T_SI)
-				* pmodRM |= 2;
-			else if (opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].idx_reg &&
-				opExpr[instr->memOpnd].base_reg->tokval == T_BP && opExpr[instr->memOpnd].idx_reg->tokval == T_DI)
-				* pmodRM |= 3;
-			else if (opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].base_reg->tokval == T_SI)
-				* pmodRM |= 4;
-			else if (opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].base_reg->tokval == T_DI)
-				* pmodRM |= 5;
-			else if (!opExpr[instr->memOpnd].base_reg && !opExpr[instr->memOpnd].idx_reg)
-				* pmodRM |= 6;
-			else if (opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].base_reg->tokval == T_BX)
-				* pmodRM |= 7;
+			/* [BX + SI]	[BX + DI]	[BP + SI]	[BP + DI]	[SI]	[DI]	[BP + disp]	[BX] */
+			int base = opExpr[instr->memOpnd].base_reg ? opExpr[instr->memOpnd].base_reg->tokval : 0;
+			int idx  = opExpr[instr->memOpnd].idx_reg ? opExpr[instr->memOpnd].idx_reg->tokval : 0;
+			bool hasBX = (base == T_BX || idx == T_BX);
+			bool hasBP = (base == T_BP || idx == T_BP);
+			bool hasSI = (base == T_SI || idx == T_SI);
+			bool hasDI = (base == T_DI || idx == T_DI);
+			if (hasSI)
+				*pmodRM |= hasBX ? 0 : hasBP ? 2 : 4;
+			else if (hasDI)
+				*pmodRM |= hasBX ? 1 : hasBP ? 3 : 5;
+			else if (hasBP)
+			{
+				*pmodRM |= 6;
+				needDisp = TRUE; /* r/m 6 without displacement is [disp16] */
+			}
+			else
+				*pmodRM |= 7;
 
 			*needModRM |= TRUE;
 
@@ -1360,7 +1358,7 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 	/* Either: User specified
 	           RIP relative addressing mandates it
 	           Specified address format can only be encoded with a displacement. */
-	if (instr->memOpnd > NO_MEM || opExpr[instr->memOpnd].value != 0 ||
+	if (instr->memOpnd > NO_MEM || opExpr[instr->memOpnd].value != 0 || needDisp ||
 		(ModuleInfo.Ofssize == USE64 && opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].base_reg->token == T_RIP) ||
 		MemTable[memModeIdx].flags & MEMF_DSP || MemTable[memModeIdx].flags & MEMF_DSP32 || (opExpr[instr->memOpnd].sym && opExpr[instr->memOpnd].sym->state != SYM_STACK))
 	{
@@ -1391,7 +1389,7 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 			}
 			else
 			{
-				if (ModuleInfo.Ofssize == USE16)
+				if (ModuleInfo.Ofssize == USE16 || (ModuleInfo.Ofssize == USE32 && baseRegSize == 2))
 					*dispSize = 2;	/* 16bit addressing. */
 				else
 					*dispSize = 4;	/* 32bit or 64bit sign extended addressing. */
-- 
2.43.0


From 1ae25d04586bde1b0428b859646c8e4d1f59c0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:59 +0000
Subject: [PATCH 08/29] fix: negative immediates outside 32 bits were silently
 truncated

---
 parser.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index cbfa550..bb7a762 100644
--- a/parser.c
+++ b/parser.c
@@ -975,7 +975,7 @@ static ret_code idata_nofixup( struct code_info *CodeInfo, unsigned CurrOpnd, co
     CodeInfo->opnd[CurrOpnd].data32l = value;
 
 	/* 64bit immediates are restricted to MOV <reg>,<imm64> */
-	if (opndx->value64 > 0xFFFFFFFF && (CodeInfo->token != T_MOV || 
+	if ((opndx->value64 > 0xFFFFFFFFLL || ( opndx->value64 < -0xFFFFFFFFLL && CodeInfo->mem_type != MT_QWORD )) && (CodeInfo->token != T_MOV || 
 		(CodeInfo->token == T_MOV && (CodeInfo->opnd[OPND1].type & OP_R64) == 0) ))
 	{ 
 		/* magnitude > 64 bits? */
@@ -983,6 +983,16 @@ static ret_code idata_nofixup( struct code_info *CodeInfo, unsigned CurrOpnd, co
 		return(EmitConstError(opndx));
 	}
 
+    /* a 64-bit operation sign-extends its 32-bit immediate */
+    if ( CodeInfo->Ofssize == USE64 && opndx->explicit == FALSE &&
+        opndx->value64 < H_LONG_MIN &&
+        ( CodeInfo->token == T_PUSH ||
+         ( CurrOpnd > OPND1 && CodeInfo->token != T_MOV &&
+          ( ( CodeInfo->opnd[OPND1].type & OP_R64 ) || CodeInfo->mem_type == MT_QWORD || CodeInfo->mem_type == MT_SQWORD ) ) ) )
+    {
+        return(EmitConstError(opndx));
+    }
+
     /* v2.03: handle QWORD type coercion here as well!
      * This change also reveals an old problem in the expression evaluator:
      * the mem_type field is set whenever a (simple) type token is found.
-- 
2.43.0


From fedeb07146110d0782106b56207f08aa4959a34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 09/29] fix: RET with an operand that is a non-zero multiple of
 2^32 was taken for RET 0

---
 parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index bb7a762..35c1bb9 100644
--- a/parser.c
+++ b/parser.c
@@ -2103,7 +2103,7 @@ static ret_code process_const( struct code_info *CodeInfo, unsigned CurrOpnd, st
      * is RET[W|D|N|F]. */
     /* v2.06: moved here and checked the opcode directly, so
      * RETD and RETW are also handled. */
-    if ( ( ( CodeInfo->pinstr->opcode & 0xf7 ) == 0xc2 ) && CurrOpnd == OPND1 && opndx->value == 0 ) 
+    if ( ( ( CodeInfo->pinstr->opcode & 0xf7 ) == 0xc2 ) && CurrOpnd == OPND1 && opndx->value64 == 0 ) 
 	{
         return( NOT_ERROR );
     }
-- 
2.43.0


From cb73583b1f4e73403acb37f658d1b0a4c70ec72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 10/29] fix: LENGTHOF/SIZEOF counted the characters of a
 two-character WORD initializer as items

---
 data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data.c b/data.c
index bd2e141..0ed421e 100644
--- a/data.c
+++ b/data.c
@@ -831,7 +831,7 @@ next_item:  /* <--- continue scan if a comma has been detected */
                         first = FALSE; /* avoid to touch first_xxx fields below */
                     }
                 }
-				else if (no_of_bytes == 2 && string_len > 1)
+				else if (no_of_bytes == 2 && string_len > 1 && Options.literal_strings && !Options.masm51_compat && !Options.strict_masm_compat)
 				{
 					sym->isarray = TRUE;
 					total += (string_len - 1);
-- 
2.43.0


From 92187513740c766246e7367786331a59184bef75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 11/29] fix: with OPTION LITERALS:ON strings in DD/DQ,
 unlabelled DW and single non-ASCII characters were dropped or truncated

---
 data.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/data.c b/data.c
index 0ed421e..4a3ef04 100644
--- a/data.c
+++ b/data.c
@@ -557,7 +557,7 @@ static ret_code data_item( int *start_pos, struct asm_tok tokenarray[], struct a
     enum fixup_types    fixup_type;
     struct fixup        *fixup;
     struct expr         opndx;
-    uint_16 buff[256];
+    uint_16 buff[MAX_LINE_LEN];
     DebugMsg1(("data_item( idx=%u [%s], label=%s, no_of_bytes=%" I32_SPEC "u, type=%s, dup=%" I32_SPEC "Xh, inside_struct=%u, is_float=%u ) enter\n",
                *start_pos, tokenarray[*start_pos].tokpos, sym ? sym->name : "NULL",
                no_of_bytes, type_sym ? type_sym->name : "NULL",
@@ -797,7 +797,7 @@ next_item:  /* <--- continue scan if a comma has been detected */
 				}
 				else
 				{
-                if (string_len > no_of_bytes && sym && sym->mem_type != MT_WORD)
+                if (string_len > no_of_bytes && (sym ? sym->mem_type != MT_WORD : no_of_bytes != 2))
 						return(EmitError(INITIALIZER_OUT_OF_RANGE));
                 /* if characters are not single byte, 2 bytes are used for 1 size v2.38 */
                  p = pchar;
@@ -813,7 +813,7 @@ next_item:  /* <--- continue scan if a comma has been detected */
                   j = UTF8toWideChar(pchar, string_len, NULL,(unsigned short *) &buff, string_len);
                     opndx.quoted_string->stringlen = j;
                     string_len = j;
-                    sym->mem_type = MT_BYTE;      /* each byte must be stored without zeros between */
+                    if (sym) sym->mem_type = MT_BYTE;      /* each byte must be stored without zeros between */
                                      /* total has to be devided by 2 for the length */
                   }
 			   }
@@ -857,16 +857,16 @@ next_item:  /* <--- continue scan if a comma has been detected */
 				}
 				else
 				{
-					if (string_len > 1 && no_of_bytes > 1 && sym && sym->mem_type == MT_WORD)
+					if (string_len > 1 && no_of_bytes > 1 && !half && (sym ? sym->mem_type == MT_WORD : no_of_bytes == 2))
 					{
 						OutputInterleavedDataBytes(pchar, string_len);
 					}
 					else
 					{
-						if (string_len > 1 && no_of_bytes > 1)
+						if (no_of_bytes > 1 && half)
 						{
-							if (half)   /* no need for little_endian, already converted, v2.38 */
-								OutputDataBytes((uint_8*)&buff, j * 2);
+							/* no need for little_endian, already converted, v2.38 */
+							OutputDataBytes((uint_8*)&buff, j * 2);
 						}
                         else 
 						{
-- 
2.43.0


From c973e2d7ed758ea0e13c483374e55727f0a8730a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:05 +0000
Subject: [PATCH 12/29] fix: padding of a non-ASCII character initializer under
 OPTION LITERALS:ON

---
 data.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/data.c b/data.c
index 4a3ef04..033b4fc 100644
--- a/data.c
+++ b/data.c
@@ -875,6 +875,8 @@ next_item:  /* <--- continue scan if a comma has been detected */
 							OutputDataBytes(pchar, string_len);
                         }
 					}
+					if (half)
+						string_len = j * 2;
 					if (no_of_bytes > string_len)
 						FillDataBytes(0, no_of_bytes - string_len);
 				}
-- 
2.43.0


From 53d758170d3e869cea0a55d037d88e9c0d7d6c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 13/29] fix: ALIGN took its argument modulo 2^32 and hung for
 values above 2^30

---
 posndir.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posndir.c b/posndir.c
index 4715024..016e3ec 100644
--- a/posndir.c
+++ b/posndir.c
@@ -216,8 +216,8 @@ ret_code AlignDirective( int i, struct asm_tok tokenarray[] )
         if ( opndx.kind == EXPR_CONST ) {
             int_32 power;
             /* check that the parm is a power of 2 */
-            for( power = 1; power < align_value; power <<= 1 );
-            if( power != align_value ) {
+            for( power = 1; power < align_value && power < 0x40000000; power <<= 1 );
+            if( power != opndx.value64 ) {
                 return( EmitErr( POWER_OF_2, align_value ) );
             }
         } else if ( opndx.kind == EXPR_EMPTY ) { /* ALIGN without argument? */
-- 
2.43.0


From 8623ea41dfcca7d0c4736a0598ccfb44c0ecc9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 14/29] fix: ALIGN above the segment alignment dereferenced a
 null FLAT group

---
 posndir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posndir.c b/posndir.c
index 016e3ec..df46b90 100644
--- a/posndir.c
+++ b/posndir.c
@@ -252,7 +252,7 @@ ret_code AlignDirective( int i, struct asm_tok tokenarray[] )
     }
     if( align_value > seg_align ) {
         if (( Parse_Pass == PASS_1 )&&                   //We need 32 0r 64 bit for VEX and EVEX
-          (ModuleInfo.flat_grp->sym.isdefined == FALSE)) //No warning if "FLAT"
+          (ModuleInfo.flat_grp == NULL || ModuleInfo.flat_grp->sym.isdefined == FALSE)) //No warning if "FLAT"
 		if ( Parse_Pass == PASS_1 && ModuleInfo.Ofssize != USE64 )
             EmitWarn( 1, ALIGN_TOO_HIGH, myltoa( align_value, buffer, 10, FALSE, FALSE ) );
         //return( ERROR ); /* v2.0: don't exit */
-- 
2.43.0


From 73f54463cae92ce52576c6cee767c135e50d5eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:46 +0000
Subject: [PATCH 15/29] fix: ORG took negative and over-large offsets modulo
 2^32

---
 posndir.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/posndir.c b/posndir.c
index df46b90..ca3fdb3 100644
--- a/posndir.c
+++ b/posndir.c
@@ -122,6 +122,8 @@ ret_code OrgDirective( int i, struct asm_tok tokenarray[] )
 
 		if (opndx.kind == EXPR_CONST)
 		{
+			if ( opndx.value64 < 0 || opndx.value64 > 0xFFFFFFFFLL )
+				return( EmitConstError( &opndx ) );
 			if ( (opndx.value > CurrSeg->e.seginfo->current_loc) && (CurrSeg->e.seginfo->current_loc > CurrSeg->e.seginfo->start_loc) )
 				AddOrgFixup(CurrSeg->e.seginfo->current_loc, opndx.value);		
 			return(SetCurrOffset(CurrSeg, opndx.value, FALSE, FALSE));
-- 
2.43.0


From d8815a2922b4a8ceb329d93dad7662dc9d316fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:29 +0000
Subject: [PATCH 16/29] fix: negative YMMWORD and ZMMWORD initializers were
 zero-extended from 64 bits, large positive ones sign-extended

---
 data.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/data.c b/data.c
index 033b4fc..19799d1 100644
--- a/data.c
+++ b/data.c
@@ -892,8 +892,10 @@ next_item:  /* <--- continue scan if a comma has been detected */
                  * clear anything which is above.
                  */
                 if ( no_of_bytes > 16 ) {
+                    if ( opndx.negative && opndx.value64 < 0 && opndx.hlvalue == 0 )
+                        opndx.hlvalue = -1;
                     OutputDataBytes( opndx.chararray, 16 );
-                    tmp = ( opndx.chararray[15] < 0x80 ? 0 : 0xFF );
+                    tmp = ( opndx.negative && opndx.chararray[15] >= 0x80 ? 0xFF : 0 );
                     FillDataBytes( tmp, no_of_bytes - 16 );
                 } else {
                     /* v2.06: TBYTE/OWORD/XMMWORD: extend a negative value to 16-byte */
-- 
2.43.0


From fb89166aa5fd89e6c2564e9e9aec7332247e9b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:37 +0000
Subject: [PATCH 17/29] fix: ZMMWORD data was taken for a 32-byte
 floating-point type

---
 data.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/data.c b/data.c
index 19799d1..e244385 100644
--- a/data.c
+++ b/data.c
@@ -112,6 +112,9 @@ static ret_code data_item( int *, struct asm_tok[], struct asym *, uint_32, cons
     *dstLo |= orLo;
   }
 
+/* MT_ZMMWORD contains the MT_FLOAT bit, but isn't a floating-point type */
+#define IS_FLOAT_MEMTYPE( m ) ( ( (m) & MT_FLOAT ) && (m) != MT_ZMMWORD )
+
 /* initialize an array inside a structure
  * if there are no brackets, the next comma, '>' or '}' will terminate
  *
@@ -177,7 +180,7 @@ static ret_code InitializeArray( const struct sfield *f, int *pi, struct asm_tok
             rc = NOT_ERROR;
         else {
             lvl = i; /* i must remain the start index */
-            rc = data_item( &lvl, tokenarray, NULL, no_of_bytes, f->sym.type, 1, FALSE, f->sym.mem_type & MT_FLOAT, FALSE, j );
+            rc = data_item( &lvl, tokenarray, NULL, no_of_bytes, f->sym.type, 1, FALSE, IS_FLOAT_MEMTYPE( f->sym.mem_type ), FALSE, j );
         }
 
     } else {
@@ -192,7 +195,7 @@ static ret_code InitializeArray( const struct sfield *f, int *pi, struct asm_tok
         } else {
             Token_Count = Tokenize( tokenarray[i].string_ptr, j, tokenarray, TOK_RESCAN );
         }
-        rc = data_item( &j, tokenarray, NULL, no_of_bytes, f->sym.type, 1, FALSE, f->sym.mem_type & MT_FLOAT, FALSE, Token_Count );
+        rc = data_item( &j, tokenarray, NULL, no_of_bytes, f->sym.type, 1, FALSE, IS_FLOAT_MEMTYPE( f->sym.mem_type ), FALSE, Token_Count );
         Token_Count = old_tokencount;
     }
 
@@ -372,7 +375,7 @@ static ret_code InitStructuredVar( int index, struct asm_tok tokenarray[], const
                 int tc = Token_Count;
                 int j = Token_Count+1;
                 Token_Count = Tokenize( f->ivalue, j, tokenarray, TOK_RESCAN );
-                data_item( &j, tokenarray, NULL, no_of_bytes, f->sym.type, 1, FALSE, f->sym.mem_type & MT_FLOAT, FALSE, Token_Count );
+                data_item( &j, tokenarray, NULL, no_of_bytes, f->sym.type, 1, FALSE, IS_FLOAT_MEMTYPE( f->sym.mem_type ), FALSE, Token_Count );
                 Token_Count = tc;
             } else {
                 char c;
@@ -392,7 +395,7 @@ static ret_code InitStructuredVar( int index, struct asm_tok tokenarray[], const
                 if ( c ) {
                     EmitErr( INITIALIZER_MUST_BE_A_STRING_OR_SINGLE_ITEM, tokenarray[j].tokpos );
                 } else
-                    if ( ERROR == data_item( &j, tokenarray, NULL, no_of_bytes, f->sym.type, 1, FALSE, f->sym.mem_type & MT_FLOAT, FALSE, i ) ) {
+                    if ( ERROR == data_item( &j, tokenarray, NULL, no_of_bytes, f->sym.type, 1, FALSE, IS_FLOAT_MEMTYPE( f->sym.mem_type ), FALSE, i ) ) {
                         EmitErr( INVALID_DATA_INITIALIZER, f->sym.name );
                     }
             }
@@ -1360,8 +1363,8 @@ ret_code data_dir( int i, struct asm_tok tokenarray[], struct asym *type_sym )
         if ( ( mem_type & MT_SPECIAL_MASK ) == MT_ADDRESS ) {
             return( EmitErr( SYNTAX_ERROR_EX, tokenarray[i].string_ptr ) );
         }
-        no_of_bytes = (mem_type & MT_SIZE_MASK) + 1;
-        if ( mem_type & MT_FLOAT )
+        no_of_bytes = SizeFromMemtype( mem_type, USE_EMPTY, NULL );
+        if ( IS_FLOAT_MEMTYPE( mem_type ) )
             is_float = TRUE;
     }
 
-- 
2.43.0


From 1b0f7aa7cf5d66d836f57af71ac78f5324e81a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:12 +0000
Subject: [PATCH 18/29] fix: RECORD initializers of 32 bits and more were not
 range-checked and could spill into other fields

---
 data.c     | 54 ++++++++++++++++++++++++++++++++++++++----------------
 expreval.c | 26 ++++++++------------------
 types.c    |  4 ++--
 3 files changed, 48 insertions(+), 36 deletions(-)

diff --git a/data.c b/data.c
index e244385..2f0be8b 100644
--- a/data.c
+++ b/data.c
@@ -105,13 +105,42 @@ static ret_code data_item( int *, struct asm_tok[], struct asym *, uint_32, cons
     } 
     else {
       orLo = orLo << pos;
-      num = num >> ~pos;
-      orHi |= num;
+      if (pos)
+        orHi = num >> (0x40 - pos);
     } 
     *dstHi |= orHi;
     *dstLo |= orLo;
   }
 
+/* get the bits of a RECORD field; returns FALSE if the value doesn't fit.
+ * Negative values are accepted for fields of 32 and more bits only.
+ */
+bool GetRecordField( const struct expr *opndx, unsigned size, uint_64 *dstHi, uint_64 *dstLo )
+{
+    uint_64 lo = opndx->llvalue;
+    uint_64 hi = opndx->hlvalue;
+    bool fits;
+
+    if ( hi == 0 && opndx->value64 < 0 && ( opndx->negative || size < 64 ) )
+        hi = -1;
+    if ( size < 64 ) {
+        fits = ( hi == 0 && ( lo >> size ) == 0 ) ||
+            ( hi == -1 && size >= 32 && ( (int_64)lo >> ( size - 1 ) ) == -1 );
+        lo &= ( (uint_64)1 << size ) - 1;
+        hi = 0;
+    } else if ( size == 64 ) {
+        fits = ( hi == 0 || ( hi == -1 && (int_64)lo < 0 ) );
+        hi = 0;
+    } else if ( size < 128 ) {
+        fits = ( hi >> ( size - 64 ) ) == 0 || ( (int_64)hi >> ( size - 65 ) ) == -1;
+        hi &= ( (uint_64)1 << ( size - 64 ) ) - 1;
+    } else
+        fits = TRUE;
+    *dstHi = hi;
+    *dstLo = lo;
+    return( fits );
+}
+
 /* MT_ZMMWORD contains the MT_FLOAT bit, but isn't a floating-point type */
 #define IS_FLOAT_MEMTYPE( m ) ( ( (m) & MT_FLOAT ) && (m) != MT_ZMMWORD )
 
@@ -316,9 +345,8 @@ static ret_code InitStructuredVar( int index, struct asm_tok tokenarray[], const
                     EvalOperand( &j, tokenarray, max_item, &opndx, 0 );
                     is_record_set = TRUE;
                 } else {
-                    opndx.value = 0;
+                    memset( &opndx, 0, sizeof( opndx ) );
                     opndx.kind = EXPR_CONST;
-                    opndx.quoted_string = NULL;
                 }
             } else {
                 EvalOperand( &i, tokenarray, Token_Count, &opndx, 0 );
@@ -327,21 +355,15 @@ static ret_code InitStructuredVar( int index, struct asm_tok tokenarray[], const
             if ( opndx.kind != EXPR_CONST || opndx.quoted_string != NULL )
                 EmitError( CONSTANT_EXPECTED );
 
-            /* fixme: max bits in 64-bit is 64 - see MAXRECBITS! */
-            if ( f->sym.total_size < 32 ) {
-                uint_32 dwMax = (1 << f->sym.total_size);
-                if ( opndx.value >= dwMax )
-                    EmitErr( INITIALIZER_MAGNITUDE_TOO_LARGE, f->sym.name );
-            }
+            if ( GetRecordField( &opndx, f->sym.total_size, &dwRecIHi, &dwRecILo ) == FALSE )
+                EmitErr( INITIALIZER_MAGNITUDE_TOO_LARGE, f->sym.name );
             if (symtype->sym.mem_type == MT_OWORD){
-                dwRecIHi = 0;  /* clear Hi 64 bit for the 128 bit RECORD */
-                dwRecILo = 0;  /* clear Lo 64 bit for the 128 bit RECORD */
-                ShiftLeft(&dwRecIHi,&dwRecILo,opndx.llvalue,f->sym.offset);
-                dst128Hi |= dwRecIHi; /* OR Hi 64 bit for the 128 bit RECORD */
-                dst128Lo |= dwRecILo; /* clear Lo 64 bit for the 128 bit RECORD */
+                ShiftLeft(&dst128Hi,&dst128Lo,dwRecILo,f->sym.offset);
+                if ( f->sym.offset < 64 )
+                    dst128Hi |= dwRecIHi << f->sym.offset; /* OR Hi 64 bit for the 128 bit RECORD */
               }
             else
-               dwRecInit |= opndx.llvalue << f->sym.offset;
+               dwRecInit |= dwRecILo << f->sym.offset;
 
         //} else if ( f->init_dir == NULL ) {  /* embedded struct? */
         } else if ( f->ivalue[0] == NULLC ) {  /* embedded struct? */
diff --git a/expreval.c b/expreval.c
index 60c5b95..5c260ec 100644
--- a/expreval.c
+++ b/expreval.c
@@ -78,6 +78,7 @@ static int evallvl = 0;
 #endif
 extern uint_32          GetCurrOffset( void );
 extern void ShiftLeft (uint_64 *dstHi, uint_64 *dstLo,uint_64 num, int pos);
+extern bool GetRecordField( const struct expr *, unsigned, uint_64 *, uint_64 * );
 //extern ret_code data_item( int *, struct asm_tok[], struct asym *, uint_32, const struct asym *, uint_32, bool inside_struct, bool, bool, int );
 extern ret_code      BackPatch( struct asym *sym );
 /* the following static variables should be moved to ModuleInfo. */
@@ -307,9 +308,8 @@ static ret_code  InitRecordVar( struct expr *opnd1, int index, struct asm_tok to
                     EvalOperand( &j, tokenarray, max_item, &opndx, 0 );
                     is_record_set = TRUE;
                 } else {
-                    opndx.value = 0;
+                    memset( &opndx, 0, sizeof( opndx ) );
                     opndx.kind = EXPR_CONST;
-                    opndx.quoted_string = NULL;
                 }
             } else {
                 EvalOperand( &i, tokenarray, Token_Count, &opndx, 0 );
@@ -318,25 +318,15 @@ static ret_code  InitRecordVar( struct expr *opnd1, int index, struct asm_tok to
             if ( opndx.kind != EXPR_CONST || opndx.quoted_string != NULL )
                 EmitError( CONSTANT_EXPECTED );
 
-            /* fixme: max bits in 64-bit is 64 - see MAXRECBITS! */
-            if ( f->sym.total_size < 32 ) {
-                uint_32 dwMax = (1 << f->sym.total_size);
-                if ( opndx.value >= dwMax )
-                    EmitErr( INITIALIZER_MAGNITUDE_TOO_LARGE, f->sym.name );
-            }
-#if AMD64_SUPPORT
+            if ( GetRecordField( &opndx, f->sym.total_size, &dwRecIHi, &dwRecILo ) == FALSE )
+                EmitErr( INITIALIZER_MAGNITUDE_TOO_LARGE, f->sym.name );
             if (symtype->sym.mem_type == MT_OWORD){
-                dwRecIHi = 0;  /* clear Hi 64 bit for the 128 bit RECORD */
-                dwRecILo = 0;  /* clear Lo 64 bit for the 128 bit RECORD */
-                ShiftLeft(&dwRecIHi,&dwRecILo,opndx.llvalue,f->sym.offset);
-                dst128Hi |= dwRecIHi; /* OR Hi 64 bit for the 128 bit RECORD */
-                dst128Lo |= dwRecILo; /* clear Lo 64 bit for the 128 bit RECORD */
+                ShiftLeft(&dst128Hi,&dst128Lo,dwRecILo,f->sym.offset);
+                if ( f->sym.offset < 64 )
+                    dst128Hi |= dwRecIHi << f->sym.offset; /* OR Hi 64 bit for the 128 bit RECORD */
               }
             else
-               dwRecInit |= opndx.llvalue << f->sym.offset;
-#else
-            dwRecInit |= opndx.value << f->sym.offset;
-#endif
+               dwRecInit |= dwRecILo << f->sym.offset;
         } 
         else if ( f->sym.total_size == f->sym.total_length &&
                    tokenarray[i].token == T_STRING &&
diff --git a/types.c b/types.c
index be9e008..ad5e9bf 100644
--- a/types.c
+++ b/types.c
@@ -1852,10 +1852,10 @@ ret_code RecordDirective( int i, struct asm_tok tokenarray[] )
             EmitError( CONSTANT_EXPECTED );
             opndx.value = 1;
         }
-        if ( opndx.value == 0 ) {
+        if ( opndx.value64 == 0 ) {
             EmitErr( TOO_FEW_BITS_IN_RECORD, tokenarray[name_loc].string_ptr );
             break;
-        } else if ( ( opndx.value + cntBits ) > MAXRECBITS ) {
+        } else if ( opndx.value64 < 0 || opndx.value64 > MAXRECBITS - cntBits ) {
             EmitErr( TOO_MANY_BITS_IN_RECORD, tokenarray[name_loc].string_ptr );
             break;
         }
-- 
2.43.0


From 00fc41d002e79b2ae6dee03b5b209122d7930acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:24 +0000
Subject: [PATCH 19/29] fix: STRUCT alignment and ORG inside a struct were
 taken modulo 2^32

---
 posndir.c |  5 ++++-
 types.c   | 24 ++++++++++++------------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/posndir.c b/posndir.c
index ca3fdb3..a26d67a 100644
--- a/posndir.c
+++ b/posndir.c
@@ -107,8 +107,11 @@ ret_code OrgDirective( int i, struct asm_tok tokenarray[] )
         return( EmitErr( SYNTAX_ERROR_EX, tokenarray[i].string_ptr ) );
     }
     if ( CurrStruct ) {
-        if ( opndx.kind == EXPR_CONST )
+        if ( opndx.kind == EXPR_CONST ) {
+            if ( opndx.value64 != opndx.value && opndx.value64 != opndx.uvalue )
+                return( EmitConstError( &opndx ) );
             return( SetStructCurrentOffset( opndx.value ) );
+        }
     } else {
         if( CurrSeg == NULL ) {
             return( EmitError( MUST_BE_IN_SEGMENT_BLOCK ) );
diff --git a/types.c b/types.c
index ad5e9bf..c2fe6e1 100644
--- a/types.c
+++ b/types.c
@@ -225,11 +225,11 @@ ret_code StructDirective( int i, struct asm_tok tokenarray[] )
                     EmitErr( SYMBOL_NOT_DEFINED, opndx.sym->name );
                 else
                     EmitError( CONSTANT_EXPECTED );
-            } else if( opndx.value > MAX_STRUCT_ALIGN ) {
+            } else if( opndx.value64 > MAX_STRUCT_ALIGN ) {
                 EmitError( STRUCT_ALIGN_TOO_HIGH );
             } else {
-                for( power = 1; power < opndx.value; power <<= 1 );
-                if( power != opndx.value ) {
+                for( power = 1; power < opndx.value64; power <<= 1 );
+                if( power != opndx.value64 ) {
                     EmitErr( POWER_OF_2, opndx.value );
                 } else
                     alignment = opndx.value;
@@ -428,12 +428,12 @@ ret_code CStructDirective(int i, struct asm_tok tokenarray[])
 				else
 					EmitError(CONSTANT_EXPECTED);
 			}
-			else if (opndx.value > MAX_STRUCT_ALIGN) {
+			else if (opndx.value64 > MAX_STRUCT_ALIGN) {
 				EmitError(STRUCT_ALIGN_TOO_HIGH);
 			}
 			else {
-				for (power = 1; power < opndx.value; power <<= 1);
-				if (power != opndx.value) {
+				for (power = 1; power < opndx.value64; power <<= 1);
+				if (power != opndx.value64) {
 					EmitErr(POWER_OF_2, opndx.value);
 				}
 				else
@@ -643,12 +643,12 @@ ret_code RAWStructDirective(int i, struct asm_tok tokenarray[])
 				else
 					EmitError(CONSTANT_EXPECTED);
 			}
-			else if (opndx.value > MAX_STRUCT_ALIGN) {
+			else if (opndx.value64 > MAX_STRUCT_ALIGN) {
 				EmitError(STRUCT_ALIGN_TOO_HIGH);
 			}
 			else {
-				for (power = 1; power < opndx.value; power <<= 1);
-				if (power != opndx.value) {
+				for (power = 1; power < opndx.value64; power <<= 1);
+				if (power != opndx.value64) {
 					EmitErr(POWER_OF_2, opndx.value);
 				}
 				else
@@ -867,12 +867,12 @@ ret_code COMStructDirective(int i, struct asm_tok tokenarray[])
 				else
 					EmitError(CONSTANT_EXPECTED);
 			}
-			else if (opndx.value > MAX_STRUCT_ALIGN) {
+			else if (opndx.value64 > MAX_STRUCT_ALIGN) {
 				EmitError(STRUCT_ALIGN_TOO_HIGH);
 			}
 			else {
-				for (power = 1; power < opndx.value; power <<= 1);
-				if (power != opndx.value) {
+				for (power = 1; power < opndx.value64; power <<= 1);
+				if (power != opndx.value64) {
 					EmitErr(POWER_OF_2, opndx.value);
 				}
 				else
-- 
2.43.0


From aa69d0241c664e29903656823f4be51cf7ae1e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 20/29] fix: out-of-bounds read of opExpr[] for instructions
 with a direct-offset operand

---
 codegenv2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegenv2.c b/codegenv2.c
index cc9a795..dcb8482 100644
--- a/codegenv2.c
+++ b/codegenv2.c
@@ -1270,7 +1270,7 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 	}
 
 	/* If the memory address refers to a symbol indirectly.. */
-	if (opExpr[instr->memOpnd].sym && opExpr[instr->memOpnd].kind == EXPR_ADDR)
+	if (instr->memOpnd < NO_MEM && opExpr[instr->memOpnd].sym && opExpr[instr->memOpnd].kind == EXPR_ADDR)
 	{
 		symSize = SizeFromMemtype(opExpr[instr->memOpnd].mem_type, ModuleInfo.Ofssize, opExpr[instr->memOpnd].sym);
 
-- 
2.43.0


From 245f6726c9ce21c634652cb4a6aae7569c687be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:59 +0000
Subject: [PATCH 21/29] fix: 32-bit direct operands with a forward-referenced
 label and a displacement above 16 bits were rejected (A2058)

---
 segment.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/segment.c b/segment.c
index 26f7a63..ea62c3e 100644
--- a/segment.c
+++ b/segment.c
@@ -508,7 +508,8 @@ int GetSymOfssize( const struct asym *sym )
             return( sym->Ofssize );
         if( sym->state == SYM_SEG  )
             return( ((struct dsym *)sym)->e.seginfo->Ofssize );
-        if ( sym->mem_type == MT_EMPTY )
+        /* a forward reference: the offset size isn't known yet, assume the current one */
+        if ( sym->mem_type == MT_EMPTY && sym->state != SYM_UNDEFINED )
             return( USE16 );
     } else {
         return( curr->e.seginfo->Ofssize );
-- 
2.43.0


From e24ef03ab9355006ad7e37991af679d660b155b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:42 +0000
Subject: [PATCH 22/29] fix: ELF communal symbols had their size in st_value
 and no alignment

---
 elf.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/elf.c b/elf.c
index e0821e1..b9123c1 100644
--- a/elf.c
+++ b/elf.c
@@ -178,6 +178,20 @@ static int get_num_reloc_sections( void )
     return( num );
 }
 
+/* a communal's st_value holds its alignment: the largest power of 2 (up to 16)
+ * that divides the size of an item */
+
+static uint_32 comm_alignment( const struct asym *sym )
+/*****************************************************/
+{
+    uint_32 size = sym->total_length ? sym->total_size / sym->total_length : sym->total_size;
+    uint_32 align = 1;
+
+    while ( align < 16 && ( size & align ) == 0 )
+        align <<= 1;
+    return( align );
+}
+
 /* fill entries in ELF32 symbol table */
 
 static uint_32 set_symtab32( struct elfmod *em, uint_32 entries, struct localname *localshead )
@@ -256,10 +270,11 @@ static uint_32 set_symtab32( struct elfmod *em, uint_32 entries, struct localnam
 
         p32->st_name = strsize;
 
-        /* for COMMUNALs, store their size in the Value field */
+        /* for COMMUNALs, the Value field holds the alignment */
         if ( curr->sym.iscomm == TRUE ) {
             p32->st_info = ELF32_ST_INFO( STB_GLOBAL, STT_COMMON );
-            p32->st_value = curr->sym.total_size;
+            p32->st_value = comm_alignment( &curr->sym );
+            p32->st_size = curr->sym.total_size;
             p32->st_shndx = SHN_COMMON;
         } else {
 #if OWELFIMPORT
@@ -438,10 +453,11 @@ static uint_32 set_symtab64( struct elfmod *em, uint_32 entries, struct localnam
 
         p64->st_name = strsize;
 
-        /* for COMMUNALs, store their size in the Value field */
+        /* for COMMUNALs, the Value field holds the alignment */
         if ( curr->sym.iscomm == TRUE ) {
             p64->st_info = ELF64_ST_INFO( STB_GLOBAL, STT_COMMON );
-            p64->st_value = curr->sym.total_size;
+            p64->st_value = comm_alignment( &curr->sym );
+            p64->st_size = curr->sym.total_size;
             p64->st_shndx = SHN_COMMON;
         } else {
 #if OWELFIMPORT
-- 
2.43.0


From 70e282d0a6f8c967a5aa0dc0c19460fe9a761986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:41 +0000
Subject: [PATCH 23/29] fix: go on with the token behind a % expression that
 was replaced in a text item list

---
 expans.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/expans.c b/expans.c
index 24ef7a8..9c279b8 100644
--- a/expans.c
+++ b/expans.c
@@ -1353,6 +1353,8 @@ static ret_code ExpandToken( char *line, int *pi, struct asm_tok tokenarray[], i
         tokenarray[i].string_ptr = StringBufferEnd;
         AddTokens( tokenarray, i+1, i+1 - *pi, Token_Count );
         Token_Count += (i+1) - *pi;
+        /* the tokens behind the expression have moved: continue with the next one */
+        *pi = i + 1;
 
         if ( ERROR == RebuildLine( StringBufferEnd, i, tokenarray,
                                   tmp, tokenarray[i].tokpos - line, bracket_flags ) )
-- 
2.43.0


From 32dd05bdb806e39bcdd232a089e4c56e072b86bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:04 +0000
Subject: [PATCH 24/29] fix: IF, ELSEIF, .ERRE and .ERRNZ test all 64 bits of
 their expression

---
 condasm.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/condasm.c b/condasm.c
index 63e9ce4..00896c3 100644
--- a/condasm.c
+++ b/condasm.c
@@ -255,7 +255,7 @@ ret_code CondAsmDirective( int i, struct asm_tok tokenarray[] )
             /* v2.11: don't exit, assume 0 */
             //return( ERROR );
             opndx.kind = EXPR_CONST;
-            opndx.value = 0;
+            opndx.value64 = 0;
             i = Token_Count;
         }
 #if 0 /* v2.05: obsolete */
@@ -267,6 +267,7 @@ ret_code CondAsmDirective( int i, struct asm_tok tokenarray[] )
             ;
         else if ( opndx.kind == EXPR_ADDR && opndx.indirect == FALSE ) {
             opndx.value += opndx.sym->offset;
+            opndx.hvalue = 0;
             /* v2.07: Masm doesn't accept a relocatable item,
              * so emit at least a warning!
              */
@@ -275,9 +276,9 @@ ret_code CondAsmDirective( int i, struct asm_tok tokenarray[] )
             return( EmitError( CONSTANT_EXPECTED ) );
         }
         if ( directive == T_IF || directive == T_ELSEIF )
-            NextIfState = ( opndx.value ) ? BLOCK_ACTIVE : BLOCK_INACTIVE;
+            NextIfState = ( opndx.value64 ) ? BLOCK_ACTIVE : BLOCK_INACTIVE;
         else
-            NextIfState = ( !opndx.value ) ? BLOCK_ACTIVE : BLOCK_INACTIVE;
+            NextIfState = ( !opndx.value64 ) ? BLOCK_ACTIVE : BLOCK_INACTIVE;
         break;
     case CC_LITARG: /*  [ELSE]IFDIF[I], [ELSE]IFIDN[I] */
         string1 = tokenarray[i].string_ptr;
@@ -477,7 +478,7 @@ ret_code ErrorDirective( int i, struct asm_tok tokenarray[] )
         if ( opndx.kind == EXPR_CONST )
             ;
         else if ( opndx.kind == EXPR_ADDR && opndx.indirect == FALSE && opndx.sym && opndx.sym->state == SYM_UNDEFINED )
-            ;//opndx.value += opndx.sym->offset;
+            opndx.hvalue = 0;//opndx.value += opndx.sym->offset;
         else {
             return( EmitError( CONSTANT_EXPECTED ) );
         }
@@ -487,9 +488,9 @@ ret_code ErrorDirective( int i, struct asm_tok tokenarray[] )
         }
         if ( Parse_Pass == PASS_1 )
             break;
-        if ( direct == T_DOT_ERRNZ && opndx.value ) {
+        if ( direct == T_DOT_ERRNZ && opndx.value64 ) {
             errmsg = FORCED_NOT_ZERO;
-        } else if ( direct == T_DOT_ERRE && !opndx.value ) {
+        } else if ( direct == T_DOT_ERRE && !opndx.value64 ) {
             errmsg = FORCED_EQUAL;
         }
 
-- 
2.43.0


From 11fe70039a09b41e7ad061aee5540d2feb49ab89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:17 +0000
Subject: [PATCH 25/29] fix: WHILE tests all 64 bits of its expression

---
 loop.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/loop.c b/loop.c
index 3c7e5da..a6f8b8f 100644
--- a/loop.c
+++ b/loop.c
@@ -57,17 +57,17 @@ ret_code LoopDirective( int i, struct asm_tok tokenarray[] )
          * referenced symbols may be used here!
          */
         if ( EvalOperand( &i, tokenarray, Token_Count, &opnd, EXPF_NOUNDEF ) == ERROR ) {
-            opnd.value = 0;
+            opnd.value64 = 0;
             i = Token_Count;
         } else if ( opnd.kind != EXPR_CONST ) { /* syntax <REPEAT|WHILE 'A'> is valid! */
             DebugMsg(( "LoopDirective(%s): invalid argument type %u\n", GetResWName( directive, NULL ), opnd.kind ));
             EmitError( CONSTANT_EXPECTED );
-            opnd.value = 0;
+            opnd.value64 = 0;
         } else if( tokenarray[i].token != T_FINAL ) {
             EmitErr( SYNTAX_ERROR_EX, tokenarray[i].tokpos );
             /* v2.09: don't exit, the macro lines must be read first. */
             //return( ERROR );
-            opnd.value = 0;
+            opnd.value64 = 0;
         }
         break;
     default: /* FOR, FORC, IRP, IRPC */
@@ -213,7 +213,7 @@ ret_code LoopDirective( int i, struct asm_tok tokenarray[] )
         }
         break;
     case T_WHILE:
-        while ( opnd.kind == EXPR_CONST && opnd.value != 0 ) {
+        while ( opnd.kind == EXPR_CONST && opnd.value64 != 0 ) {
             DebugMsg1(("LoopDirective WHILE: cnt=%u\n", count++ ));
             RunMacro( macro, Token_Count, tokenarray, NULL, 0, &is_exitm );
             if ( is_exitm )
-- 
2.43.0


From 832ecdac25a73cb6a375256ff9d66c8ae33a10e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:40 +0000
Subject: [PATCH 26/29] fix: text directives and functions check positions and
 counts in 64 bits

---
 string.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/string.c b/string.c
index 0c3c5d6..5d72374 100644
--- a/string.c
+++ b/string.c
@@ -21,6 +21,7 @@
 ****************************************************************************/
 
 #include <ctype.h>
+#include <limits.h>
 #include "globals.h"
 #include "memalloc.h"
 #include "parser.h"
@@ -496,9 +497,12 @@ ret_code SubStrDir( int i, struct asm_tok tokenarray[] )
 
     /* pos is expected to be 1-based */
     pos = opndx.value;
-    if ( pos <= 0 ) {
+    if ( opndx.value64 <= 0 ) {
         return( EmitError( POSITIVE_VALUE_EXPECTED ) );
     }
+    if ( opndx.value64 > cnt ) {
+        return( EmitErr( INDEX_VALUE_PAST_END_OF_STRING, pos ) );
+    }
     if ( tokenarray[i].token != T_FINAL ) {
         if ( tokenarray[i].token != T_COMMA ) {
             return( EmitErr( EXPECTING_COMMA, tokenarray[i].tokpos ) );
@@ -521,9 +525,12 @@ ret_code SubStrDir( int i, struct asm_tok tokenarray[] )
             DebugMsg(("SubStrDir(%s): additional items found\n", name));
             return( EmitErr( SYNTAX_ERROR_EX, tokenarray[i].string_ptr ) );
         }
-        if ( size < 0 ) {
+        if ( opndx.value64 < 0 ) {
             return( EmitError( COUNT_MUST_BE_POSITIVE_OR_ZERO ) );
         }
+        if ( opndx.value64 > cnt ) {
+            return( EmitError( COUNT_VALUE_TOO_LARGE ) );
+        }
         chksize = TRUE;
     } else {
         size = -1;
@@ -686,7 +693,7 @@ ret_code InStrDir( int i, struct asm_tok tokenarray[] )
         if ( opndx.kind != EXPR_CONST ) {
             return( EmitError( CONSTANT_EXPECTED ) );
         }
-        start = opndx.value;
+        start = ( opndx.value64 < 0 ? 0 : opndx.value64 > MAX_LINE_LEN ? MAX_LINE_LEN : opndx.value );
         if ( start <= 0 ) {
             /* v2.05: don't change the value. if it's invalid, the result
              * is to be 0. Emit a level 3 warning instead.
@@ -800,7 +807,8 @@ static ret_code GetNumber( char *string, int *pi, struct asm_tok tokenarray[] )
     if( opndx.kind != EXPR_CONST || tokenarray[i].token != T_FINAL ) {
         return( EmitErr( SYNTAX_ERROR_EX, string ) );
     }
-    *pi = opndx.value;
+    /* values beyond 32 bits are out of range for any string */
+    *pi = ( opndx.value64 < INT_MIN ? INT_MIN : opndx.value64 > INT_MAX ? INT_MAX : opndx.value );
     return( NOT_ERROR );
 }
 
-- 
2.43.0


From 97ab8c805662c2f007d2e286a69f61a22b084978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:22 +0000
Subject: [PATCH 27/29] fix: parenthesised && and || in HLL conditions, and
 constant conditions beyond 32 bits

---
 hll.c | 297 +++++++++++++++++-----------------------------------------
 1 file changed, 88 insertions(+), 209 deletions(-)

diff --git a/hll.c b/hll.c
index 4cba19d..2a7d139 100644
--- a/hll.c
+++ b/hll.c
@@ -111,6 +111,7 @@ enum hll_label_index {
   LDATA2,     /* jump table for SWITCH  */
   LTOP,       /* jump table for SWITCH  */
   LJUMP,      /* jump table for SWITCH  */
+  LCOND,      /* end of a part of a condition */
 };
 
 /* values for struct hll_item.flags */
@@ -124,7 +125,7 @@ enum hll_flags {
 /* item for .IF, .WHILE, .REPEAT, .FOR, .SWITCH ... */
 struct hll_item {
   struct hll_item     *next;
-  uint_32             labels[10];    /* labels for LTEST, LEXIT, LSTART, LSKIP, LCONT, LDEF LDATA1, LDATA2, LTOP, LJUMP */
+  uint_32             labels[11];    /* labels for LTEST, LEXIT, LSTART, LSKIP, LCONT, LDEF LDATA1, LDATA2, LTOP, LJUMP, LCOND */
   char                *condlines;    /* .WHILE-blocks only: lines to add after 'test' label */
   char                *counterlines; /* pointer to allocated memory for counters */
   uint_32             cmcnt;         /* comma counter  */
@@ -151,12 +152,7 @@ struct hll_item {
 #endif
 };
 
-/* v2.08: struct added */
-struct hll_opnd {
-  char    *lastjmp;
-  uint_32 lasttruelabel; /* v2.08: new member */
-};
-static ret_code GetExpression(struct hll_item *hll, int *i, struct asm_tok[], int ilabel, bool is_true, char *buffer, struct hll_opnd *);
+static ret_code GetExpression(struct hll_item *hll, int *i, struct asm_tok[], int ilabel, bool is_true, char *buffer);
 
 /* c binary ops.
 * Order of items COP_EQ - COP_LE  and COP_ZERO - COP_OVERFLOW
@@ -580,7 +576,7 @@ static uint_32 GetLabel(struct hll_item *hll, int index)
 * 3. unary operator "!" + one token
 * 4. one token (short form for "<token> != 0")
 */
-static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok tokenarray[], int ilabel, bool is_true, char *buffer, struct hll_opnd *hllop)
+static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok tokenarray[], int ilabel, bool is_true, char *buffer)
 /**************************************************************************************************************************************************************/
 {
   enum c_bop op;
@@ -623,7 +619,7 @@ static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok
     if (brcnt) {
       (*i)++;
       DebugMsg1(("%u GetSimpleExpression: calling GetExpression, i=%u\n", evallvl, *i));
-      if (ERROR == GetExpression(hll, i, tokenarray, ilabel, is_true, buffer, hllop))
+      if (ERROR == GetExpression(hll, i, tokenarray, ilabel, is_true, buffer))
         return(ERROR);
 
       if (tokenarray[*i].token != T_CL_BRACKET) {
@@ -667,7 +663,6 @@ static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok
       return(EmitError(SYNTAX_ERROR_IN_CONTROL_FLOW_DIRECTIVE));
     }
     p = buffer;
-    hllop->lastjmp = p;
     RenderJcc(p, flaginstr[op - COP_ZERO], !is_true, label);
     return(NOT_ERROR);
   }
@@ -686,14 +681,12 @@ static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok
     case EXPR_REG:
       if (op1.indirect == FALSE) {
         p = RenderInstr(buffer, "test", op1_pos, op1_end, op1_pos, op1_end, tokenarray);
-        hllop->lastjmp = p;
         RenderJcc(p, 'z', is_true, label);
         break;
       }
       /* no break */
     case EXPR_ADDR:
       p = RenderInstr(buffer, "cmp", op1_pos, op1_end, EMPTY, 0, tokenarray);
-      hllop->lastjmp = p;
       RenderJcc(p, 'z', is_true, label);
       break;
     case EXPR_CONST:
@@ -707,10 +700,9 @@ static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok
       if (op1.hvalue != 0 && op1.hvalue != -1)
         return(EmitConstError(&op1));
 
-      hllop->lastjmp = buffer;
 
-      if ((is_true == TRUE && op1.value) ||
-        (is_true == FALSE && op1.value == 0)) {
+      if ((is_true == TRUE && op1.value64) ||
+        (is_true == FALSE && op1.value64 == 0)) {
         sprintf(buffer, "jmp " LABELFMT EOLSTR, label);
       }
       else {
@@ -741,7 +733,6 @@ static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok
 
   if (op == COP_ANDB) {
     p = RenderInstr(buffer, "test", op1_pos, op1_end, op2_pos, op2_end, tokenarray);
-    hllop->lastjmp = p;
     RenderJcc(p, 'e', is_true, label);
   }
   else if (op <= COP_LE) { /* ==, !=, >, <, >= or <= operator */
@@ -827,7 +818,6 @@ static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok
       p = RenderInstr(buffer, "cmp", op1_pos, op1_end, op2_pos, op2_end, tokenarray);
     }
     instr = ((IS_SIGNED(op1.mem_type) || IS_SIGNED(op2.mem_type)) ? signed_cjmptype[op - COP_EQ] : unsigned_cjmptype[op - COP_EQ]);
-    hllop->lastjmp = p;
     RenderJcc(p, instr, neg_cjmptype[op - COP_EQ] ? is_true : !is_true, label);
   }
   else {
@@ -837,240 +827,131 @@ static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok
   return(NOT_ERROR);
 }
 
-/* invert a Jump:
-* - Jx  -> JNx (x = e|z|c|s|p|o )
-* - JNx -> Jx  (x = e|z|c|s|p|o )
-* - Ja  -> Jbe, Jae -> Jb
-* - Jb  -> Jae, Jbe -> Ja
-* - Jg  -> Jle, Jge -> Jl
-* - Jl  -> Jge, Jle -> Jg
-* added in v2.11:
-* - jmp -> 0
-* - 0   -> jmp
+/* is the next C operator at the current bracket level <op>?
+* The operators are searched behind the operand that starts at tokenarray[i];
+* && is only searched up to the next ||.
 */
-static void InvertJump(char *p)
-/*******************************/
+static bool IsFollowedBy(enum c_bop op, int i, struct asm_tok tokenarray[])
+/****************************************************************************/
 {
-  if (*p == NULLC) { /* v2.11: convert 0 to "jmp" */
-    strcpy(p, "jmp ");
-    return;
-  }
-
-  p++;
-  if (*p == 'e' || *p == 'z' || *p == 'c' || *p == 's' || *p == 'p' || *p == 'o') {
-    *(p + 1) = *p;
-    *p = 'n';
-    return;
-  }
-  else if (*p == 'n') {
-    *p = *(p + 1);
-    *(p + 1) = ' ';
-    return;
-  }
-  else if (*p == 'a') {
-    *p++ = 'b';
-  }
-  else if (*p == 'b') {
-    *p++ = 'a';
-  }
-  else if (*p == 'g') {
-    *p++ = 'l';
-  }
-  else if (*p == 'l') {
-    *p++ = 'g';
-  }
-  else {
-    /* v2.11: convert "jmp" to 0 */
-    if (*p == 'm') {
-      p--;
-      *p = NULLC;
+  int brcnt = 0;
+  enum c_bop cop;
+
+  for (; i < Token_Count; i++) {
+    if (tokenarray[i].token == T_OP_BRACKET)
+      brcnt++;
+    else if (tokenarray[i].token == T_CL_BRACKET) {
+      if (--brcnt < 0)
+        break;
+    }
+    else if (brcnt == 0) {
+      cop = GetCOp(&tokenarray[i]);
+      if (cop == op)
+        return(TRUE);
+      if (cop == COP_OR)
+        break;
     }
-    return;
   }
-  if (*p == 'e')
-    *p = ' ';
-  else
-    *p = 'e';
-  return;
+  return(FALSE);
 }
 
-/* Replace a label in the source lines generated so far.
-* todo: if more than 0xFFFF labels are needed,
-* it may happen that length of nlabel > length of olabel!
-* then the simple memcpy() below won't work!
+/* an operand of && or || that is followed by another one:
+* it jumps to label <skip> if it decides the whole expression
 */
-
-static void ReplaceLabel(char *p, uint_32 olabel, uint_32 nlabel)
-/*****************************************************************/
+static ret_code GetSkipOperand(ret_code (*func)(struct hll_item *, int *, struct asm_tok[], int, bool, char *), struct hll_item *hll, int *i, struct asm_tok tokenarray[], uint_32 skip, bool is_true, char *buffer)
+/***********************************************************************************************************************************************************************************************************************/
 {
-  char oldlbl[16];
-  char newlbl[16];
-  int i;
-
-  GetLabelStr(olabel, oldlbl);
-  GetLabelStr(nlabel, newlbl);
-
-  i = (int)strlen(newlbl);
+  uint_32 saved = hll->labels[LCOND];
+  ret_code rc;
 
-  DebugMsg1(("%u ReplaceLabel(%s->%s, >%s<)\n", evallvl, oldlbl, newlbl, p));
-  while (p = strstr(p, oldlbl)) {
-    memcpy(p, newlbl, i);
-    p += i;
-  }
+  hll->labels[LCOND] = skip;
+  rc = func(hll, i, tokenarray, LCOND, is_true, buffer);
+  hll->labels[LCOND] = saved;
+  return(rc);
 }
 
-/* operator &&, which has the second lowest precedence, is handled here */
+/* operator &&, which has the second lowest precedence, is handled here.
+* If the jump is to be done if the expression is true, all operands but the last one
+* jump behind the expression if they're false.
+*/
 
-static ret_code GetAndExpression(struct hll_item *hll, int *i, struct asm_tok tokenarray[], int ilabel, bool is_true, char *buffer, struct hll_opnd *hllop)
-/***********************************************************************************************************************************************************/
+static ret_code GetAndExpression(struct hll_item *hll, int *i, struct asm_tok tokenarray[], int ilabel, bool is_true, char *buffer)
+/********************************************************************************************************************************/
 {
   char *ptr = buffer;
-  uint_32 truelabel = 0;
+  uint_32 skip = 0;
   char buff[16];
-  int nlabel;
-  int olabel;
 
   DebugMsg1(("%u GetAndExpression(>%.32s< buf=>%s<) enter\n", evallvl, tokenarray[*i].tokpos, buffer));
 
-  if (ERROR == GetSimpleExpression(hll, i, tokenarray, ilabel, is_true, ptr, hllop))
+  *ptr = NULLC;
+  while (is_true && IsFollowedBy(COP_AND, *i, tokenarray)) {
+    if (skip == 0)
+      skip = GetHllLabel();
+    if (ERROR == GetSkipOperand(GetSimpleExpression, hll, i, tokenarray, skip, FALSE, ptr))
+      return(ERROR);
+    if (COP_AND != GetCOp(&tokenarray[*i]))
+      return(EmitError(SYNTAX_ERROR_IN_CONTROL_FLOW_DIRECTIVE));
+    (*i)++;
+    ptr += strlen(ptr);
+  }
+  if (ERROR == GetSimpleExpression(hll, i, tokenarray, ilabel, is_true, ptr))
     return(ERROR);
   while (COP_AND == GetCOp(&tokenarray[*i])) {
-
     (*i)++;
-    DebugMsg1(("%u GetAndExpression: &&-operator found, is_true=%u, lastjmp=%s\n", evallvl, is_true, hllop->lastjmp ? hllop->lastjmp : "NULL"));
-
-    if (is_true) {
-      /* todo: please describe what's done here and why! */
-      if (hllop->lastjmp) {
-        char *p = hllop->lastjmp;
-        InvertJump(p);          /* step 1 */
-        if (truelabel == 0)     /* step 2 */
-          truelabel = GetHllLabel();
-
-        if (*p ) {/* v2.11: there might be a 0 at lastjmp */
-          p += 4;               /* skip 'jcc ' or 'jmp ' */
-          GetLabelStr(truelabel, p);
-          strcat(p, EOLSTR);
-        }
-        /* Uasm 2.18  fixed WHILE with &&  */
-        if (hllop->lasttruelabel)
-          ReplaceLabel(buffer,hllop->lasttruelabel, truelabel);
-          nlabel = GetHllLabel();
-          olabel = GetLabel(hll, ilabel);
-          GetLabelStr(olabel, buff);
-          strcat(ptr, buff);
-          strcat(ptr, LABELQUAL EOLSTR);
-          DebugMsg1(("%u GetAndExpression: label added >%s<\n", evallvl, ptr));
-          ReplaceLabel(buffer, olabel, nlabel);
-          hllop->lastjmp = NULL;
-      }
-    }
     ptr += strlen(ptr);
-    hllop->lasttruelabel = 0; /* v2.08 */
-    if (ERROR == GetSimpleExpression(hll, i, tokenarray, ilabel, is_true, ptr, hllop))
+    if (ERROR == GetSimpleExpression(hll, i, tokenarray, ilabel, is_true, ptr))
       return(ERROR);
-  };
-
-  if (truelabel > 0) {
+  }
+  if (skip) {
     ptr += strlen(ptr);
-    GetLabelStr(truelabel, ptr);
-    strcat(ptr, LABELQUAL EOLSTR);
-    DebugMsg1(("%u GetAndExpression: label added >%s<\n", evallvl, ptr));
-    hllop->lastjmp = NULL;
+    sprintf(ptr, "%s" LABELQUAL EOLSTR, GetLabelStr(skip, buff));
   }
   return(NOT_ERROR);
 }
 
-/* operator ||, which has the lowest precedence, is handled here */
+/* operator ||, which has the lowest precedence, is handled here.
+* If the jump is to be done if the expression is false, all operands but the last one
+* jump behind the expression if they're true.
+*/
 
-static ret_code GetExpression(struct hll_item *hll, int *i, struct asm_tok tokenarray[], int ilabel, bool is_true, char *buffer, struct hll_opnd *hllop)
-/********************************************************************************************************************************************************/
+static ret_code GetExpression(struct hll_item *hll, int *i, struct asm_tok tokenarray[], int ilabel, bool is_true, char *buffer)
+/*****************************************************************************************************************************/
 {
   char *ptr = buffer;
-  uint_32 truelabel = 0;
+  uint_32 skip = 0;
+  char buff[16];
 
   DebugMsg1(("%u GetExpression(>%.32s< buf=>%s<) enter\n", ++evallvl, tokenarray[*i].tokpos, buffer));
 
-  /* v2.08: structure changed from for(;;) to while() to increase
-  * readability and - optionally - handle the second operand differently
-  * than the first.
-  */
-
-  if (ERROR == GetAndExpression(hll, i, tokenarray, ilabel, is_true, ptr, hllop)) {
+  *ptr = NULLC;
+  while (is_true == FALSE && IsFollowedBy(COP_OR, *i, tokenarray)) {
+    if (skip == 0)
+      skip = GetHllLabel();
+    if (ERROR == GetSkipOperand(GetAndExpression, hll, i, tokenarray, skip, TRUE, ptr)) {
+      DebugMsg1(("%u GetExpression exit, error\n", evallvl--));
+      return(ERROR);
+    }
+    if (COP_OR != GetCOp(&tokenarray[*i]))
+      return(EmitError(SYNTAX_ERROR_IN_CONTROL_FLOW_DIRECTIVE));
+    (*i)++;
+    ptr += strlen(ptr);
+  }
+  if (ERROR == GetAndExpression(hll, i, tokenarray, ilabel, is_true, ptr)) {
     DebugMsg1(("%u GetExpression exit, error\n", evallvl--));
     return(ERROR);
   }
- // __debugbreak();
   while (COP_OR == GetCOp(&tokenarray[*i])) {
-
-    uint_32 nlabel;
-    uint_32 olabel;
-    char buff[16];
-
-    /* the generated code of last simple expression has to be modified
-    1. the last jump must be inverted
-    2. a "is_true" label must be created (it's used to jump "behind" the expr)
-    3. create a new label
-    4. the current "false" label must be generated
-
-    if it is a .REPEAT, step 4 is slightly more difficult, since the "false"
-    label is already "gone":
-    4a. create a new label
-    4b. replace the "false" label in the generated code by the new label
-    */
-
     (*i)++;
-    DebugMsg1(("%u GetExpression: ||-operator found, is_true=%u, lastjmp=%s\n", evallvl, is_true, hllop->lastjmp ? hllop->lastjmp : "NULL"));
-
-    if (is_true == FALSE) {
-      if (hllop->lastjmp) {
-        char *p = hllop->lastjmp;
-        InvertJump(p);           /* step 1 */
-        if (truelabel == 0)      /* step 2 */
-          truelabel = GetHllLabel();
-        if (*p ) { /* v2.11: there might be a 0 at lastjmp */
-          p += 4;                /* skip 'jcc ' or 'jmp ' */
-          GetLabelStr(truelabel, p);
-          strcat(p, EOLSTR);
-        }
-        /* v2.08: if-block added */
-        if (hllop->lasttruelabel)
-          ReplaceLabel(ptr, hllop->lasttruelabel, truelabel);
-        DebugMsg1(("%u GetExpression: jmp inverted, dest changed >%s<\n", evallvl, ptr));
-        hllop->lastjmp = NULL;
-
-        nlabel = GetHllLabel();  /* step 3 */
-        olabel = GetLabel(hll, ilabel);
-        if (hll->cmd == HLL_REPEAT) {
-          ReplaceLabel(buffer, olabel, nlabel);
-          sprintf(ptr + strlen(ptr), "%s" LABELQUAL EOLSTR, GetLabelStr(nlabel, buff));
-        }
-        else {
-          sprintf(ptr + strlen(ptr), "%s" LABELQUAL EOLSTR, GetLabelStr(olabel, buff));
-          ReplaceLabel(buffer, olabel, nlabel);
-        }
-        DebugMsg1(("%u GetExpression: dest changed, label added >%s<\n", evallvl, ptr));
-      }
-    }
     ptr += strlen(ptr);
-    hllop->lasttruelabel = 0; /* v2.08 */
-    if (ERROR == GetAndExpression(hll, i, tokenarray, ilabel, is_true, ptr, hllop)) {
+    if (ERROR == GetAndExpression(hll, i, tokenarray, ilabel, is_true, ptr)) {
       DebugMsg1(("%u GetExpression exit, error\n", evallvl--));
       return(ERROR);
     }
   }
-  if (truelabel > 0) {
-    /* v2.08: this is needed, but ober-hackish. to be improved... */
-    if (hllop->lastjmp && hllop->lasttruelabel) {
-      DebugMsg1(("%u GetExpression: suppressed ReplaceLabel %u -> %u, lastjmp=%s\n", evallvl, hllop->lasttruelabel, truelabel, hllop->lastjmp));
-      ReplaceLabel(ptr, hllop->lasttruelabel, truelabel);
-      *(strchr(hllop->lastjmp, EOLCHAR) + 1) = NULLC;
-    }
+  if (skip) {
     ptr += strlen(ptr);
-    GetLabelStr(truelabel, ptr);
-    strcat(ptr, LABELQUAL EOLSTR);
-    DebugMsg1(("%u GetExpression: label added >%s<\n", evallvl, ptr));
-    hllop->lasttruelabel = truelabel; /* v2.08 */
+    sprintf(ptr, "%s" LABELQUAL EOLSTR, GetLabelStr(skip, buff));
   }
   DebugMsg1(("%u GetExpression exit\n", evallvl--));
   return(NOT_ERROR);
@@ -1121,12 +1002,10 @@ static ret_code QueueTestLines(char *src)
 static ret_code EvaluateHllExpression(struct hll_item *hll, int *i, struct asm_tok tokenarray[], int ilabel, bool is_true, char *buffer)
 /****************************************************************************************************************************************/
 {
-  struct hll_opnd hllop = { NULL, 0 };
-
   DebugMsg1(("EvaluateHllExpression enter\n"));
 
   *buffer = NULLC;
-  if (ERROR == GetExpression(hll, i, tokenarray, ilabel, is_true, buffer, &hllop))
+  if (ERROR == GetExpression(hll, i, tokenarray, ilabel, is_true, buffer))
     return(ERROR);
   /* v2.11: changed */
   //if ( *buffer == EOLCHAR ) {
-- 
2.43.0


From 469c285d2cdb56271efce4b06d930c2939a48bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:22 +0000
Subject: [PATCH 28/29] fix: .FOR reads outside its buffers and drops or
 replaces operators

---
 hll.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/hll.c b/hll.c
index 2a7d139..69cedfc 100644
--- a/hll.c
+++ b/hll.c
@@ -1276,7 +1276,7 @@ static ret_code ForInitAndNext(struct asm_tok tokenarray[], int cnt, char *buff)
       if (tokenarray[0].token == T_REG) {
       simple:			Tokenize(param, 0, tokenarray, 0);
 
-        if (strlen(init) == 1 && init[0] == '0')                        //REX=0?
+        if (strlen(op) == 1 && strlen(init) == 1 && init[0] == '0' && tokenarray[0].token == T_REG)     //REX=0?
           WriteAsmLine(" xor  ", param, param);							            //XOR REX,REX //instead MOV REX,0
         else if ((strlen(op) == 1) && ((init[4] == ' ') || (init[4] == '\t'))) {  //op is '='
           if ((0 == _memicmp(init, "BYTE PTR", 8)) ||                   //reax=BYTE PTR al
@@ -1329,7 +1329,7 @@ static ret_code ForInitAndNext(struct asm_tok tokenarray[], int cnt, char *buff)
           WriteAsmLine(" mov  byte ptr ", param, init);
         else {
           WriteAsmLine(" mov  ", reax[ModuleInfo.Ofssize], init);
-          WriteAsmLine(codebuff, param, reax[ModuleInfo.Ofssize]);
+          WriteAsmLine(strlen(op) == 1 ? " mov  " : codebuff, param, reax[ModuleInfo.Ofssize]);
         }
       }
     }
@@ -1562,7 +1562,7 @@ ret_code HllStartDir(int i, struct asm_tok tokenarray[])
               }
               if (c == ',' && forbuff[j - 1] != 39 && forbuff[j + 1] != 39) eqcnt++;
               forbuffinit[b] = c;
-              if (c == 39 && forbuffinit[b - 2] == 39) {
+              if (c == 39 && b >= 2 && forbuffinit[b - 2] == 39) {
                   b++;
                   forbuffinit[b] = ' ';
               }
@@ -1574,7 +1574,6 @@ ret_code HllStartDir(int i, struct asm_tok tokenarray[])
           //coppy the condition to the buffer
           forbuffcond[0] = NULLC;
           for (b = 0; forbuff[j] && forbuff[j] != ':'; forbuffcond[b] = forbuff[j], j++, b++);
-          if (forbuffcond[b - 2] == '>' && forbuffcond[b - 1] == '0') forbuffcond[b - 2] = NULLC;
           forbuffcond[b] = NULLC;
           j++;
           //copy the counter to the buffer
@@ -1584,12 +1583,12 @@ ret_code HllStartDir(int i, struct asm_tok tokenarray[])
           for (b = 0; forbuff[j] != ')'; b++, j++) {
               forbuffcnt[b] = forbuff[j];
               if (forbuffcnt[b] == ',' && forbuff[j - 1] != 39 && forbuff[j + 1] != 39) ++cmcnt;
-              if (forbuffcnt[b] == 39 && forbuffcnt[b - 2] == 39) {
+              if (b >= 2 && forbuffcnt[b] == 39 && forbuffcnt[b - 2] == 39) {
                   b++;
                   forbuffcnt[b] = ' ';
               }
           }
-          if (forbuffcnt[b - 1] == ')') b--;
+          if (b && forbuffcnt[b - 1] == ')') b--;
           forbuffcnt[b] = NULLC;
           //create valid command and add to LineQueue to initiate .for loop vars
           //anything that is before the first ':'
-- 
2.43.0


From 1334f7d62c48bc1554b7269046f92103a977ab06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:22 +0000
Subject: [PATCH 29/29] fix: .SWITCH tables with large distances, C style
 blocks without .BREAK, undefined upper half of RAX

---
 hll.c | 54 +++++++++++++++++++++++++++++-------------------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/hll.c b/hll.c
index 69cedfc..a727d0e 100644
--- a/hll.c
+++ b/hll.c
@@ -137,7 +137,8 @@ struct hll_item {
   char                cflag;         /* SWITCH decision flag */
   int                 maxcase;
   int                 mincase;
-  int                 delta;
+  uint_32             delta;
+  uint_32             caseofs;       /* offset of the current .CASE block */
   int                 maxalloccasen;
   int                 multicase;
   int                 *pcases;
@@ -345,7 +346,7 @@ static void bubblesort(struct hll_item *hll, uint_16 *lbl, int *src, int n) {
 
   hll->mincase = src[0];
   hll->maxcase = src[n - 1];
-  hll->delta = hll->maxcase - hll->mincase;
+  hll->delta = (uint_32)hll->maxcase - (uint_32)hll->mincase;
 }
 #if AMD64_SUPPORT 
 static void bubblesort64(struct hll_item *hll, uint_16 *lbl, int_64 *src, int n) {
@@ -372,7 +373,7 @@ static void bubblesort64(struct hll_item *hll, uint_16 *lbl, int_64 *src, int n)
 
   hll->mincase64 = src[0];
   hll->maxcase64 = src[n - 1];
-  hll->delta64 = hll->maxcase64 - hll->mincase64;
+  hll->delta64 = (uint_64)hll->maxcase64 - (uint_64)hll->mincase64;
 }
 #endif
 /* render an instruction */
@@ -1722,7 +1723,7 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
   int             swsize;
   char buff[16];
   char buffer[MAX_LINE_LEN * 2];
-  char unum[16];
+  char unum[24];
 
   DebugMsg1(("HllEndDir(%s) enter\n", tokenarray[i].string_ptr));
 
@@ -1762,11 +1763,10 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
       i++;
       if (ModuleInfo.Ofssize == USE32) dsize = 4;
       else dsize = 8;
-      if (ModuleInfo.switch_style == ASMSWITCH) {
-        if (hll->labels[LEXIT] == 0)
-          hll->labels[LEXIT] = GetHllLabel();
-        AddLineQueueX(JMPPREFIX "jmp %s", GetLabelStr(hll->labels[LEXIT], buff));
-        }
+      /* the jump code follows, so the last block must not fall through, whatever the style is */
+      if (hll->labels[LEXIT] == 0)
+        hll->labels[LEXIT] = GetHllLabel();
+      AddLineQueueX(JMPPREFIX "jmp %s", GetLabelStr(hll->labels[LEXIT], buff));
       if (hll->labels[LDEF] == 0) {
         hll->labels[LDEF] = GetHllLabel();
         AddLineQueueX("%s" LABELQUAL, GetLabelStr(hll->labels[LDEF], buff));
@@ -1784,7 +1784,7 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
         if (hll->plabels) {
           if (ModuleInfo.Ofssize == USE32 || hll->csize == 4) {
             bubblesort(hll, hll->plabels, hll->pcases, hll->casecnt);
-            if ((hll->delta * 4) <= (hll->casecnt * 4 + hll->casecnt * 2))
+            if (hll->delta <= hll->casecnt + hll->casecnt / 2)
               hll->cflag = 6;                   /* we need only jump table */
             else if (hll->delta < 256)
               hll->cflag = 4;                   /* we need both jump table and count table byte size */
@@ -1796,7 +1796,7 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
 #if AMD64_SUPPORT
           else if (ModuleInfo.Ofssize == USE64 && hll->csize == 8){     //USE64
               bubblesort64(hll, hll->plabels, hll->pcases64, hll->casecnt);
-              if ((hll->delta64 * 8) <= (hll->casecnt * 8 + hll->casecnt * 2))
+              if (hll->delta64 <= hll->casecnt + hll->casecnt / 4)
                 hll->cflag = 6;
               else if (hll->delta64 < 256)
                 hll->cflag = 4;
@@ -1844,10 +1844,8 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
                 GetLabelStr(hll->labels[LDEF], buff);
               else
                 GetLabelStr(hll->labels[LEXIT], buff);
-                if (dcnt && dcnt < 75){
-                  strcat(buffer, ", ");
-                  strcat(buffer, buff);
-                }
+                strcat(buffer, ", ");
+                strcat(buffer, buff);
               AddLineQueue(buffer);                  /* write line with the last array */
           } 
           /* here is created data for calculating jumps  */
@@ -1867,10 +1865,10 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
                 dcnt = 0;                          /* reset data caunter */
                 }
               if (ModuleInfo.Ofssize == USE32 || hll->csize == 4)
-                temp = (int)hll->pcases[j] - hll->mincase;/* temp contains case EG: .case 4, n contains  */
+                temp = (int_64)hll->pcases[j] - hll->mincase;/* temp contains case EG: .case 4, n contains  */
 #if AMD64_SUPPORT
               else if (ModuleInfo.Ofssize == USE64 && hll->csize == 8)
-                temp = (int)hll->pcases64[j] - hll->mincase64;/* temp contains case EG: .case 4, n contains  */
+                temp = hll->pcases64[j] - hll->mincase64;/* temp contains case EG: .case 4, n contains  */
 #endif
               while (n < temp) {                   /* fill the space between 2 cases with the .default */
               if (dcnt) 
@@ -1894,7 +1892,7 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
                 sprintf(unum, "%d", bcnt);
               strcat(buffer, unum);
               n++;
-              if (hll->plabels[j] != hll->plabels[j + 1])
+              if (j + 1 < hll->casecnt && hll->plabels[j] != hll->plabels[j + 1])
                 bcnt++;
               }
             if (buffer[4] == ',') buffer[4] = ' ';
@@ -1973,9 +1971,9 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
                   dcnt = 0;                          /* reset data caunter */
                   }
                   if (dcnt)
-                    sprintf(unum, ",%d", hll->pcases64[j]);
+                    sprintf(unum, ",%" I64_SPEC "d", hll->pcases64[j]);
                   else
-                    sprintf(unum, "%d", hll->pcases64[j]);
+                    sprintf(unum, "%" I64_SPEC "d", hll->pcases64[j]);
                   strcat(buffer, unum);
                   dcnt++;
                   j++;
@@ -2005,7 +2003,7 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
                 dcnt = 0;                          /* reset data caunter */
                 }
               if (hll->csize == 4)
-                temp = hll->pcases[j] - hll->mincase;/* temp contains case EG: .case 4, n contains  */
+                temp = (int_64)hll->pcases[j] - hll->mincase;/* temp contains case EG: .case 4, n contains  */
 #if AMD64_SUPPORT
               else if (hll->csize == 8)
                 temp = hll->pcases64[j] - hll->mincase64;/* temp contains case EG: .case 4, n contains  */
@@ -2032,7 +2030,7 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
                 sprintf(unum, "%d", bcnt);
               strcat(buffer, unum);
               n++;
-              if (hll->plabels[j] != hll->plabels[j + 1])
+              if (j + 1 < hll->casecnt && hll->plabels[j] != hll->plabels[j + 1])
                 bcnt++;
               }
             if (buffer[4] == ',') buffer[4] = ' ';
@@ -2060,7 +2058,7 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
                   dcnt = 0;
                   }
                   if (hll->csize == 4){
-                    temp = hll->pcases[j] - hll->mincase;/* temp contains case EG: .case 4, n contains  */
+                    temp = (int_64)hll->pcases[j] - hll->mincase;/* temp contains case EG: .case 4, n contains  */
                     }
                   if (hll->flags & HLLF_DEFAULTOCCURED)
                     GetLabelStr(hll->labels[LDEF], buff);
@@ -2138,7 +2136,7 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
                     dcnt = 0;
                     }
                   if (hll->csize == 4){
-                    temp = hll->pcases[j] - hll->mincase;/* temp contains case EG: .case 4, n contains  */
+                    temp = (int_64)hll->pcases[j] - hll->mincase;/* temp contains case EG: .case 4, n contains  */
                     }
 #if AMD64_SUPPORT
                   else if (hll->csize == 8){
@@ -2369,6 +2367,8 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
           if (hll->csize == 4) {
             if (hll->mincase)
               AddLineQueueX("sub   eax,%d", hll->mincase);
+            else
+              AddLineQueue("mov   eax,eax");         /* the upper half of rax isn't defined */
             }
           else {
             if (hll->mincase64)
@@ -2417,6 +2417,8 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
           if (hll->csize == 4){
             if (hll->mincase)
             AddLineQueueX("sub   eax,%d", hll->mincase);
+            else
+            AddLineQueue("mov   eax,eax");
             }
           else{
             if (hll->mincase64)
@@ -2818,8 +2820,10 @@ ret_code HllExitDir(int i, struct asm_tok tokenarray[])
         }
     }
     for (;;) {
-      if (hll->breakoccured) {
+      /* C style: a block that isn't empty needs a label of its own even if the previous one has no .break */
+      if (hll->breakoccured || (ModuleInfo.switch_style != ASMSWITCH && GetCurrOffset() != hll->caseofs)) {
         hll->labels[LTEST] = GetHllLabel();
+        hll->caseofs = GetCurrOffset();
         hll->breakoccured = 0;  // if .break did not occure label will not be increased
         AddLineQueueX("%s" LABELQUAL, GetLabelStr(hll->labels[LTEST], buff));
         hll->savedlab = (uint_16)hex2dec(buff + 2);
-- 
2.43.0

