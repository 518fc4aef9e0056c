From 15958439782347407b51bb8b102ed7a4f5c13477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:32 +0000
Subject: [PATCH 01/43] fix: r_array_move rejects a source range beyond the
 array's length

---
 rlib/rarray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlib/rarray.c b/rlib/rarray.c
index e7c980f..ed51e0d 100644
--- a/rlib/rarray.c
+++ b/rlib/rarray.c
@@ -201,7 +201,7 @@ void *r_array_slot_expand(rarray_t *array, size_t index)
 int r_array_move(rarray_t *array, size_t dst, size_t src, size_t size)
 {
 	size_t i;
-	if ((dst + size) > r_array_length(array))
+	if ((dst + size) > r_array_length(array) || (src + size) > r_array_length(array))
 		return -1;
 	if (dst == src)
 		return 0;
-- 
2.43.0


From 82ca297789a140fdf3b9570c465e353f68c3a7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:32 +0000
Subject: [PATCH 02/43] fix: r_map_add with no value stores zeros, also when
 the node is reused

---
 rlib/rmap.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rlib/rmap.c b/rlib/rmap.c
index adbe23a..320cff4 100644
--- a/rlib/rmap.c
+++ b/rlib/rmap.c
@@ -187,6 +187,8 @@ size_t r_map_add(rmap_t *map, const char *name, size_t namesize, rconstpointer p
 	node = r_map_getfreenode(map, name, namesize);
 	if (pval)
 		r_memcpy(node->value.data, pval, map->elt_size);
+	else
+		r_memset(node->value.data, 0, map->elt_size);
 	node->nbucket = (r_map_rstring_hash(node->key) & r_map_hashmask(map));
 	r_list_addt(&map->hash[node->nbucket], &node->hash);
 	r_list_addt(&map->active, &node->active);
-- 
2.43.0


From 9c42e180993d433a3c540b199ee05549db288720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:32 +0000
Subject: [PATCH 03/43] fix: r_harray_taillookup_s performs the tail lookup

---
 rlib/rharray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlib/rharray.c b/rlib/rharray.c
index 58398c0..d42ffa4 100644
--- a/rlib/rharray.c
+++ b/rlib/rharray.c
@@ -213,7 +213,7 @@ long r_harray_taillookup(rharray_t *harray, const char *name, unsigned int names
 
 long r_harray_taillookup_s(rharray_t *harray, const char *name)
 {
-	return r_harray_lookup(harray, name, r_strlen(name));
+	return r_harray_taillookup(harray, name, r_strlen(name));
 }
 
 
-- 
2.43.0


From 53bfad6b52d47de994d3246dd17bb0317b7b110c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:09 +0000
Subject: [PATCH 04/43] fix: RVM_ABORT reports the error instead of terminating
 the process

---
 rvm/rvmcpu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rvm/rvmcpu.h b/rvm/rvmcpu.h
index 26fe889..224f205 100644
--- a/rvm/rvmcpu.h
+++ b/rvm/rvmcpu.h
@@ -417,7 +417,7 @@ enum {
 };
 
 #define RVM_STACK_CHUNK 256
-#define RVM_ABORT(__cpu__, __e__) do { __cpu__->error = (__e__); (__cpu__)->abort = 1; R_ASSERT(0); return; } while (0)
+#define RVM_ABORT(__cpu__, __e__) do { __cpu__->error = (__e__); (__cpu__)->abort = 1; return; } while (0)
 #define BIT(__shiftby__) (1 << (__shiftby__))
 #define BITR(__f__, __l__, __r__) (((__r__) >= (__f__) && (__r__) <= (__l__)) ? BIT(__r__) : 0)
 #define BITS(__f__, __l__)  (BITR(__f__, __l__, R0)) | (BITR(__f__, __l__, R1)) | (BITR(__f__, __l__, R2)) | (BITR(__f__, __l__, R3)) | \
-- 
2.43.0


From 1db8dd9cf9dfe161a0f9ffe717334af422ca917a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:09 +0000
Subject: [PATCH 05/43] fix: an undefined opcode stops the machine with
 RVM_E_ILLEGAL

---
 rvm/rvmcpu.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index b95b6ed..39716f8 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -897,6 +897,12 @@ static void rvm_op_cmn(rvmcpu_t *cpu, rvm_asmins_t *ins)
 }
 
 
+static void rvm_op_illegal(rvmcpu_t *cpu, rvm_asmins_t *ins)
+{
+	RVM_ABORT(cpu, RVM_E_ILLEGAL);
+}
+
+
 static void rvm_op_nop(rvmcpu_t *cpu, rvm_asmins_t *ins)
 {
 //	fprintf(stdout, "nop\n");
@@ -1301,6 +1307,7 @@ int rvm_cpu_setophandler(rvmcpu_t *cpu, unsigned int opcode, const char *opname,
 rvmcpu_t *rvm_cpu_create(unsigned long stacksize)
 {
 	rvmcpu_t *cpu;
+	unsigned int opcode;
 
 	cpu = (rvmcpu_t *)r_malloc(sizeof(*cpu));
 	if (!cpu)
@@ -1312,6 +1319,8 @@ rvmcpu_t *rvm_cpu_create(unsigned long stacksize)
 	cpu->data = r_carray_create(sizeof(rvmreg_t));
 	cpu->gc = r_gc_create();
 
+	for (opcode = 0; opcode < RVM_COUNT; opcode++)
+		rvm_cpu_setophandler(cpu, opcode, "ILLEGAL", rvm_op_illegal);
 	rvm_cpu_setophandler(cpu, RVM_EXT, "EXT", rvm_op_exit);
 	rvm_cpu_setophandler(cpu, RVM_ABORT, "ABORT", rvm_op_abort);
 	rvm_cpu_setophandler(cpu, RVM_PRN, "PRN", rvm_op_prn);
-- 
2.43.0


From 874b70d5bfe686a9c72a8014f0abeda4154d5cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:09 +0000
Subject: [PATCH 06/43] fix: signed division and remainder of the smallest word
 by -1 do not trap

---
 rvm/rvmcpu.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index 39716f8..7895cbe 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -716,8 +716,7 @@ static void rvm_op_mods(rvmcpu_t *cpu, rvm_asmins_t *ins)
 
 	if (!op3)
 		RVM_ABORT(cpu, RVM_E_DIVZERO);
-	res = op2 % op3;
-	r_printf("mod RES: %ld\n", res);
+	res = (op3 == -1) ? 0 : op2 % op3;
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
 	RVM_STATUS_CLRALL(cpu);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
@@ -732,7 +731,7 @@ static void rvm_op_dvs(rvmcpu_t *cpu, rvm_asmins_t *ins)
 
 	if (!op3)
 		RVM_ABORT(cpu, RVM_E_DIVZERO);
-	res = (rword)(op2 / op3);
+	res = (op3 == -1) ? (rword)(0 - (ruword)op2) : (rword)(op2 / op3);
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
 	RVM_STATUS_CLRALL(cpu);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
-- 
2.43.0


From 59731839c8bbf89a3c1eaa0441c03b3fb5ff31f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:09 +0000
Subject: [PATCH 07/43] fix: ADC and SBC set the carry flag correctly when the
 third operand is the largest word

---
 rvm/rvmcpu.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index 7895cbe..2df8d91 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -372,10 +372,11 @@ static void rvm_op_adds(rvmcpu_t *cpu, rvm_asmins_t *ins)
 static void rvm_op_adc(rvmcpu_t *cpu, rvm_asmins_t *ins)
 {
 	ruword res, op2 = RVM_CPUREG_GETU(cpu, ins->op2), op3 = RVM_CPUREG_GETU(cpu, ins->op3);
+	ruword carry = RVM_STATUS_GETBIT(cpu, RVM_STATUS_C) ? 1 : 0;
 	
-	res = op2 + op3 + (RVM_STATUS_GETBIT(cpu, RVM_STATUS_C) ? 1 : 0);
+	res = op2 + op3 + carry;
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
-	RVM_STATUS_UPDATE(cpu, RVM_STATUS_C, res < op2 || res < op3);
+	RVM_STATUS_UPDATE(cpu, RVM_STATUS_C, carry ? res <= op2 : res < op2);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_N, res & RVM_SIGN_BIT);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_V, (op2 & RVM_SIGN_BIT) == (op3 & RVM_SIGN_BIT) &&
@@ -634,10 +635,11 @@ static void rvm_op_subs(rvmcpu_t *cpu, rvm_asmins_t *ins)
 static void rvm_op_sbc(rvmcpu_t *cpu, rvm_asmins_t *ins)
 {
 	ruword res, op2 = RVM_CPUREG_GETU(cpu, ins->op2), op3 = RVM_CPUREG_GETU(cpu, ins->op3);
+	ruword carry = RVM_STATUS_GETBIT(cpu, RVM_STATUS_C) ? 1 : 0;
 
-	res = op2 - op3 + (RVM_STATUS_GETBIT(cpu, RVM_STATUS_C) ? 0 : -1);
+	res = op2 - op3 + (carry ? 0 : -1);
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
-	RVM_STATUS_UPDATE(cpu, RVM_STATUS_C, !(res > op2));	/* borrow = !carry */
+	RVM_STATUS_UPDATE(cpu, RVM_STATUS_C, carry ? op2 >= op3 : op2 > op3);	/* borrow = !carry */
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_N, res & RVM_SIGN_BIT);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_V, (op2 & RVM_SIGN_BIT) != (op3 & RVM_SIGN_BIT) &&
-- 
2.43.0


From dc89e8b5d031db1245846073decd3e058a8c6c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:09 +0000
Subject: [PATCH 08/43] fix: ASR shifts in copies of the sign bit

---
 rvm/rvmcpu.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index 2df8d91..0c32f39 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -446,8 +446,7 @@ static void rvm_op_asr(rvmcpu_t *cpu, rvm_asmins_t *ins)
 {
 	ruword res, op2 = RVM_CPUREG_GETU(cpu, ins->op2), op3 = RVM_CPUREG_GETU(cpu, ins->op3);
 	
-	res = op2 >> op3;
-	res |= op2 & RVM_SIGN_BIT;
+	res = (ruword)(((rword)op2) >> op3);
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
 	RVM_STATUS_CLRALL(cpu);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
-- 
2.43.0


From f90a23518ad53eeb2aad6f56d70c880a0f4d9bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:09 +0000
Subject: [PATCH 09/43] fix: LSR and LSRS report the negative flag of their
 result

---
 rvm/rvmcpu.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index 0c32f39..efa8531 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -428,6 +428,7 @@ static void rvm_op_lsr(rvmcpu_t *cpu, rvm_asmins_t *ins)
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
 	RVM_STATUS_CLRALL(cpu);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
+	RVM_STATUS_UPDATE(cpu, RVM_STATUS_N, res & RVM_SIGN_BIT);
 }
 
 
@@ -439,6 +440,7 @@ static void rvm_op_lsrs(rvmcpu_t *cpu, rvm_asmins_t *ins)
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
 	RVM_STATUS_CLRALL(cpu);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
+	RVM_STATUS_UPDATE(cpu, RVM_STATUS_N, res & RVM_SIGN_BIT);
 }
 
 
-- 
2.43.0


From f1bb3358b3ef936ef4775f9d7f64fd4019d48451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:09 +0000
Subject: [PATCH 10/43] fix: POP, POPM and LDS never read outside the machine
 stack

---
 rvm/rvmcpu.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index efa8531..10308ac 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -757,6 +757,8 @@ static void rvm_op_lds(rvmcpu_t *cpu, rvm_asmins_t *ins)
 {
 	ruword sp = ((ins->op2 != XX) ? RVM_CPUREG_GETU(cpu, ins->op2) : 0) + ((ins->op3 != XX) ? RVM_CPUREG_GETU(cpu, ins->op3) : 0);
 
+	if (!RVM_STACK_CHECKSIZE(cpu, cpu->stack, sp))
+		RVM_ABORT(cpu, RVM_E_NOMEM);
 	RVM_CPUREG_SET(cpu, ins->op1, RVM_STACK_READ(cpu->stack, sp));
 }
 
@@ -806,6 +808,8 @@ static void rvm_op_popm(rvmcpu_t *cpu, rvm_asmins_t *ins)
 	for (; bits && i >= 0; i--) {
 		n = 1 << i;
 		if (n & bits) {
+			if (!RVM_STACK_CHECKSIZE(cpu, cpu->stack, sp))
+				RVM_ABORT(cpu, RVM_E_NOMEM);
 			RVM_CPUREG_SET(cpu, i, RVM_STACK_READ(cpu->stack, sp));
 			sp -= 1;
 			bits &= ~n;
@@ -820,6 +824,8 @@ static void rvm_op_pop(rvmcpu_t *cpu, rvm_asmins_t *ins)
 {
 	ruword sp = RVM_CPUREG_GETU(cpu, SP);
 
+	if (!RVM_STACK_CHECKSIZE(cpu, cpu->stack, sp))
+		RVM_ABORT(cpu, RVM_E_NOMEM);
 	RVM_CPUREG_SET(cpu, ins->op1, RVM_STACK_READ(cpu->stack, sp));
 	if (ins->op1 != SP)
 		RVM_CPUREG_SETU(cpu, SP, sp - 1);
-- 
2.43.0


From f6fbe40179305973642ebed6ea49b06e87ae4e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:07 +0000
Subject: [PATCH 11/43] fix: PUSHM rejects a stack pointer whose range check
 wraps around

---
 rvm/rvmcpu.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index 10308ac..c6e4f57 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -779,7 +779,7 @@ static void rvm_op_pushm(rvmcpu_t *cpu, rvm_asmins_t *ins)
 	ruword bits = RVM_CPUREG_GETU(cpu, ins->op1);
 	ruword sp = RVM_CPUREG_GETU(cpu, SP);
 
-	if (!RVM_STACK_CHECKSIZE(cpu, cpu->stack, sp + RVM_REGS_NUM))
+	if (!RVM_STACK_CHECKSIZE(cpu, cpu->stack, sp + 1) || !RVM_STACK_CHECKSIZE(cpu, cpu->stack, sp + RVM_REGS_NUM))
 		RVM_ABORT(cpu, RVM_E_NOMEM);
 
 	if (!(bits & ((1<<(RVM_REGS_NUM / 2)) - 1)))
-- 
2.43.0


From 23e1312a5646d4a6ef63a3085a7daefb8fba4643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 12/43] fix: the first-character filter lets a group that can
 match nothing succeed

---
 rpa/rpabitmap.c | 24 +++++++++++++++++++++++-
 rpa/rpastat.c   |  2 ++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/rpa/rpabitmap.c b/rpa/rpabitmap.c
index 0f6eae8..004337b 100644
--- a/rpa/rpabitmap.c
+++ b/rpa/rpabitmap.c
@@ -174,6 +174,26 @@ static long rpa_bitmap_set_expression(rarray_t *records, rparecord_t *record, lo
 }
 
 
+/*
+ * Unlike rules and alternative branches, a group succeeds without consuming input
+ * if all of its elements are optional, so its first character can be anything.
+ */
+static long rpa_bitmap_set_group(rarray_t *records, rparecord_t *record, long rec, rpointer userdata)
+{
+	if (record->type & RPA_RECORD_END) {
+		long child;
+
+		for (child = rpa_recordtree_firstchild(records, rec, RPA_RECORD_END); child >= 0; child = rpa_recordtree_next(records, child, RPA_RECORD_END)) {
+			rparecord_t *childrecord = rpa_record_get(records, child);
+			if (!(childrecord->usertype & RPA_MATCH_OPTIONAL))
+				return rpa_bitmap_set_expression(records, record, rec, userdata);
+		}
+		RPA_BITMAP_SETALL(RPA_RECORD2BITMAP(record));
+	}
+	return 0;
+}
+
+
 static long rpa_bitmap_set_orop(rarray_t *records, rparecord_t *record, long rec, rpointer userdata)
 {
 	if (record->type & RPA_RECORD_END) {
@@ -330,8 +350,10 @@ long rpa_bitmap_set(rarray_t *records, long rec, rpointer userdata)
 		rpa_bitmap_set_namedrule(records, record, rec, userdata);
 		break;
 	case RPA_PRODUCTION_REQOP:
-	case RPA_PRODUCTION_NEGBRANCH:
 	case RPA_PRODUCTION_BRACKETEXP:
+		rpa_bitmap_set_group(records, record, rec, userdata);
+		break;
+	case RPA_PRODUCTION_NEGBRANCH:
 	case RPA_PRODUCTION_ALTBRANCH:
 	case RPA_PRODUCTION_ANONYMOUSRULE:
 		rpa_bitmap_set_expression(records, record, rec, userdata);
diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index 6e7f10f..9b74c3c 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -298,6 +298,8 @@ rboolean rpa_stat_matchbitmap(rpastat_t *stat, long top, rpabitmap_t bitmap)
 	int ret = FALSE;
 	rpainput_t *in = &stat->instack[top];
 
+	if (bitmap == (rpabitmap_t)-1)
+		return TRUE;
 	if (in->eof)
 		return 0;
 	if (stat->encoding & RPA_ENCODING_ICASE) {
-- 
2.43.0


From 403f7c0eb4ae7f8b5f569b63ba5904027b222182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 13/43] fix: the first-character filter admits every character
 before a left recursive reference

---
 rpa/rpabitmap.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rpa/rpabitmap.c b/rpa/rpabitmap.c
index 004337b..5ac3b8a 100644
--- a/rpa/rpabitmap.c
+++ b/rpa/rpabitmap.c
@@ -285,7 +285,13 @@ static long rpa_bitmap_set_numrng(rarray_t *records, rparecord_t *record, long r
 static long rpa_bitmap_set_ref(rarray_t *records, rparecord_t *record, long rec, rpointer userdata)
 {
 	rpa_bitmapcompiler_t *bc = (rpa_bitmapcompiler_t*)userdata;
-	if ((record->type & RPA_RECORD_END) && (record->usertype & RPA_LOOP_PATH) == 0) {
+	if ((record->type & RPA_RECORD_END) && (record->usertype & RPA_LOOP_PATH)) {
+		/*
+		 * The first character of a left recursive reference depends on the
+		 * rules we are still working on, so it can be anything.
+		 */
+		RPA_BITMAP_SETALL(RPA_RECORD2BITMAP(record));
+	} else if (record->type & RPA_RECORD_END) {
 		long child = rpa_recordtree_firstchild(records, rec, RPA_RECORD_END);
 		if (child >= 0) {
 			rparecord_t *childrecord = rpa_record_get(records, child);
-- 
2.43.0


From b79dfcdd4a04f7346534cf231fe7494cdf71f93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 14/43] fix: a failed attempt at an indirectly left recursive
 rule does not hide the other alternatives

---
 rpa/rpacompiler.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rpa/rpacompiler.c b/rpa/rpacompiler.c
index 5fd7847..2667648 100644
--- a/rpa/rpacompiler.c
+++ b/rpa/rpacompiler.c
@@ -735,7 +735,6 @@ int rpa_compiler_nonloopybranch_end(rpa_compiler_t *co)
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, R1, XX, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, R0, XX, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_SUBS, R0, R_TOP, R1, 0));
-	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R_LOO, R0, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_BX, LR, XX, XX, 0));
 	rvm_codegen_redefinelabel_default(co->cg, exp.endidx);
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, LR, XX, XX, 0));
-- 
2.43.0


From a8d0710094a830a5946c417dea189a69b8d77d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 15/43] fix: left recursive records keep a following left
 recursive rule at its place

---
 rpa/rpastat.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index 9b74c3c..155e789 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -172,9 +172,13 @@ static void rpa_stat_normalizeleftrecursion(rpastat_t *stat, rarray_t *records)
 				}
 				strayrecs_size = strayrecs_end - strayrecs_start + 1;
 
-				for (j = 0; j < size; j++) {
-					srec = (rparecord_t *) r_array_slot(records, i + j);
-					if (!(srec->usertype & RPA_LOOP_PATH) || !(srec->type & RPA_RECORD_START)) {
+				/*
+				 * Only the rules that start at the same input are on the loop path, another
+				 * left recursive rule might follow at a different position.
+				 */
+				for (j = 0; i + j < size; j++) {
+					rparecord_t *jrec = (rparecord_t *) r_array_slot(records, i + j);
+					if (!(jrec->usertype & RPA_LOOP_PATH) || !(jrec->type & RPA_RECORD_START) || jrec->input != srec->input) {
 						break;
 					}
 					ssize++;
-- 
2.43.0


From 9c16b2cf0cfe2d235af026532d2c146481b1e72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 16/43] fix: rpa_recordtree_copy copies the requested branch

---
 rpa/rparecord.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpa/rparecord.c b/rpa/rparecord.c
index fa4f1c9..ca4d13c 100644
--- a/rpa/rparecord.c
+++ b/rpa/rparecord.c
@@ -193,7 +193,7 @@ long rpa_recordtree_copy(rarray_t *dst, rarray_t *src, long rec)
 	size = rpa_recordtree_size(src, rec);
 
 	for (i = 0; i < size; i++) {
-		prec = rpa_record_get(src, i);
+		prec = rpa_record_get(src, rec + i);
 		r_array_add(dst, prec);
 	}
 	return size;
-- 
2.43.0


From bb1493c8d79d825ab8ca1bfe93ee639da3d997de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 17/43] fix: user type and rule uid of a record outside the
 array are not looked up

---
 rpa/rparecord.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rpa/rparecord.c b/rpa/rparecord.c
index ca4d13c..2928bbc 100644
--- a/rpa/rparecord.c
+++ b/rpa/rparecord.c
@@ -271,7 +271,7 @@ long rpa_record_getruleuid(rarray_t *records, long rec)
 	if (rec < 0)
 		return -1;
 	rec = rpa_recordtree_get(records, rec, RPA_RECORD_START);
-	if (rec >= (long)r_array_length(records))
+	if (rec < 0 || rec >= (long)r_array_length(records))
 		return -1;
 	prec = (rparecord_t *)r_array_slot(records, rec);
 	return prec->ruleuid;
@@ -285,12 +285,12 @@ void rpa_record_setusertype(rarray_t *records, long rec, ruint32 usertype, rvals
 	if (rec < 0)
 		return;
 	rec = rpa_recordtree_get(records, rec, RPA_RECORD_START);
-	if (rec >= (long)r_array_length(records))
+	if (rec < 0 || rec >= (long)r_array_length(records))
 		return;
 	prec = (rparecord_t *)r_array_slot(records, rec);
 	rpa_recordptr_setusertype(prec, usertype, op);
 	rec = rpa_recordtree_get(records, rec, RPA_RECORD_END);
-	if (rec >= (long)r_array_length(records))
+	if (rec < 0 || rec >= (long)r_array_length(records))
 		return;
 	prec = (rparecord_t *)r_array_slot(records, rec);
 	rpa_recordptr_setusertype(prec, usertype, op);
@@ -304,7 +304,7 @@ long rpa_record_getusertype(rarray_t *records, long rec)
 	if (rec < 0)
 		return -1;
 	rec = rpa_recordtree_get(records, rec, RPA_RECORD_START);
-	if (rec >= (long)r_array_length(records))
+	if (rec < 0 || rec >= (long)r_array_length(records))
 		return -1;
 	prec = (rparecord_t *)r_array_slot(records, rec);
 	return prec->usertype;
-- 
2.43.0


From 3d6c2662c5bb82b386637501f74f7b36d548af20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 18/43] fix: a reference after a group that consumes input is
 not left recursion

---
 rpa/rpadbex.c | 46 +++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 83347c6..2e1af8f 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1118,12 +1118,48 @@ void rpa_dbex_destroy(rpadbex_t *dbex)
 }
 
 
+/*
+ * Can the expression at rec succeed without consuming any input? References,
+ * alternatives and negated expressions never do, unless they are optional. A
+ * sequence does, if all of its elements do.
+ */
+static int rpa_parseinfo_isnullable(rpadbex_t *dbex, long rec)
+{
+	long i;
+	rparecord_t *prec = (rparecord_t *)r_array_slot(dbex->records, rec);
+
+	if (!prec || (prec->usertype & RPA_MATCH_OPTIONAL))
+		return 1;
+	switch (prec->ruleuid) {
+	case RPA_PRODUCTION_RULENAME:
+	case RPA_PRODUCTION_ALIASNAME:
+		return 1;
+	case RPA_PRODUCTION_CREF:
+	case RPA_PRODUCTION_AREF:
+	case RPA_PRODUCTION_CHAR:
+	case RPA_PRODUCTION_CLS:
+	case RPA_PRODUCTION_SPECIALCHAR:
+	case RPA_PRODUCTION_NOTOP:
+	case RPA_PRODUCTION_OROP:
+		return 0;
+	}
+	for (i = rpa_recordtree_firstchild(dbex->records, rec, RPA_RECORD_START); i >= 0; i = rpa_recordtree_next(dbex->records, i, RPA_RECORD_START)) {
+		if (!rpa_parseinfo_isnullable(dbex, i))
+			return 0;
+		if (prec->ruleuid == RPA_PRODUCTION_MINOP)
+			break;
+	}
+	return 1;
+}
+
+
 static int rpa_parseinfo_loopdetect_do(rpadbex_t *dbex, long parent, long loopto, int inderction)
 {
 	unsigned long namesiz;
 	const char *name;
 	long i;
 	int ret = 0;
+	int sequence;
 	rparecord_t *prec;
 
 	if (parent == loopto && inderction > 0)
@@ -1136,6 +1172,12 @@ static int rpa_parseinfo_loopdetect_do(rpadbex_t *dbex, long parent, long loopto
 
 	if (!(prec = (rparecord_t *)r_array_slot(dbex->records, parent)))
 		return 0;
+	/*
+	 * All branches and all negated expressions are tried at the same input, in
+	 * anything else the next element is reached without consuming input only if
+	 * the previous elements can match nothing.
+	 */
+	sequence = (prec->ruleuid != RPA_PRODUCTION_OROP && prec->ruleuid != RPA_PRODUCTION_MINOP && prec->ruleuid != RPA_PRODUCTION_NOROP);
 	if (prec->ruleuid == RPA_PRODUCTION_AREF || prec->ruleuid == RPA_PRODUCTION_CREF)
 		i = parent;
 	else
@@ -1165,10 +1207,8 @@ static int rpa_parseinfo_loopdetect_do(rpadbex_t *dbex, long parent, long loopto
 				break;
 		}
 
-		if ((prec->usertype & RPA_MATCH_OPTIONAL) == 0 && (prec->ruleuid == RPA_PRODUCTION_CREF || prec->ruleuid == RPA_PRODUCTION_AREF ||
-				prec->ruleuid == RPA_PRODUCTION_CHAR || prec->ruleuid == RPA_PRODUCTION_CLS || prec->ruleuid == RPA_PRODUCTION_SPECIALCHAR))
+		if (i == parent || (sequence && !rpa_parseinfo_isnullable(dbex, i)))
 			break;
-
 	}
 
 	r_array_removelast(dbex->recstack);
-- 
2.43.0


From c28543071a3ed7ff3e85ee458c3de8e9723895b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:52 +0000
Subject: [PATCH 19/43] fix: a parse appends to the records it is given and
 leaves the earlier ones alone

---
 rpa/rpastat.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index 155e789..19db7d8 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -146,13 +146,13 @@ long rpa_stat_exec(rpastat_t *stat, rvm_asmins_t *prog, ruword off, unsigned int
 	return ret;
 }
 
-static void rpa_stat_normalizeleftrecursion(rpastat_t *stat, rarray_t *records)
+static void rpa_stat_normalizeleftrecursion(rpastat_t *stat, rarray_t *records, long first)
 {
 	rparecord_t *srec, *erec;
 	long i, temp_start, strayrecs_start, strayrecs_size, strayrecs_end;
 	long size = r_array_length(records);
 
-	for (i = 1; i < size; i++) {
+	for (i = first + 1; i < size; i++) {
 		srec = (rparecord_t *) r_array_slot(records, i);
 		if ((srec->usertype & RPA_LOOP_PATH) && (srec->type & RPA_RECORD_START)) {
 			erec = rpa_record_get(records, i - 1);
@@ -160,12 +160,11 @@ static void rpa_stat_normalizeleftrecursion(rpastat_t *stat, rarray_t *records)
 				long ssize = 0, j;
 				strayrecs_end = i - 1;
 				strayrecs_start = rpa_recordtree_get(records, strayrecs_end, RPA_RECORD_START);
-				for (temp_start = rpa_recordtree_prev(records, strayrecs_start, RPA_RECORD_START); temp_start >= 0;
+				for (temp_start = rpa_recordtree_prev(records, strayrecs_start, RPA_RECORD_START); temp_start >= first;
 					temp_start = rpa_recordtree_prev(records, strayrecs_start, RPA_RECORD_START)) {
 					erec = rpa_record_get(records, temp_start);
 					if (erec && (erec->input >= srec->input) && (erec->input + erec->inputsiz <= srec->input + srec->inputsiz)) {
 						strayrecs_start = temp_start;
-						r_printf("----> strayrecs_start = %ld\n", strayrecs_start);
 						continue;
 					}
 					break;
@@ -194,7 +193,7 @@ static void rpa_stat_normalizeleftrecursion(rpastat_t *stat, rarray_t *records)
 
 	}
 
-	for (i = 0; i < size; i++) {
+	for (i = first; i < size; i++) {
 		erec = (rparecord_t *) r_array_slot(records, i);
 		erec->usertype = 0;
 	}
@@ -204,6 +203,7 @@ static void rpa_stat_normalizeleftrecursion(rpastat_t *stat, rarray_t *records)
 static long rpa_stat_exec_rid(rpastat_t *stat, rparule_t rid, unsigned int encoding, const char *input, const char *start, const char *end, rarray_t *records)
 {
 	long topsiz = 0;
+	long first = records ? (long)r_array_length(records) : 0;
 	rpainput_t *ptp;
 	long offset;
 	rvm_asmins_t *exec;
@@ -226,7 +226,7 @@ static long rpa_stat_exec_rid(rpastat_t *stat, rparule_t rid, unsigned int encod
 		return 0;
 	ptp = &stat->instack[topsiz];
 	if (records)
-		rpa_stat_normalizeleftrecursion(stat, records);
+		rpa_stat_normalizeleftrecursion(stat, records, first);
 	return (long)(ptp->input - input);
 }
 
-- 
2.43.0


From 74efd8209675be95c27931b880efc50235c5d31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:52 +0000
Subject: [PATCH 20/43] fix: an error of the virtual machine is reported by the
 matching context

---
 rpa/rpastat.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index 19db7d8..84124f8 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -126,7 +126,10 @@ long rpa_stat_exec(rpastat_t *stat, rvm_asmins_t *prog, ruword off, unsigned int
 		ret = rvm_cpu_exec(stat->cpu, prog, off);
 	}
 	if (ret < 0) {
-		if (!stat->cpu->error) {
+		/*
+		 * Keep the error if it is already set, e.g. RPA_E_RULEABORT
+		 */
+		if (!stat->err.code) {
 			if (stat->cpu->error) {
 				RPA_STAT_SETERROR_CODE(stat, stat->cpu->error);
 			} else {
-- 
2.43.0


From f8c82a3bb7161cb0e7a6c577cf2391c068fc1eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:52 +0000
Subject: [PATCH 21/43] fix: a match with an invalid input range is refused

---
 rpa/rpastat.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index 84124f8..b449420 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -118,7 +118,11 @@ long rpa_stat_exec(rpastat_t *stat, rvm_asmins_t *prog, ruword off, unsigned int
 		return -1;
 	}
 	rpa_stat_cacheinvalidate(stat);
-	rpa_stat_init(stat, encoding, input, start, end, records);
+	if (rpa_stat_init(stat, encoding, input, start, end, records) < 0) {
+		r_memset(&stat->err, 0, sizeof(stat->err));
+		RPA_STAT_SETERROR_CODE(stat, RPA_E_PARAM);
+		return -1;
+	}
 
 	if (stat->debug) {
 		ret = rvm_cpu_exec_debug(stat->cpu, prog, off);
-- 
2.43.0


From 07915edae8cec04244cfd76e09a22e2358a18b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:57 +0000
Subject: [PATCH 22/43] fix: records of inlined left recursive rules carry the
 rule id

---
 rpa/rpadbex.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 2e1af8f..dd98bc8 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1939,12 +1939,6 @@ static int rpa_dbex_compile_rule(rpadbex_t *dbex, rparule_t rid)
 	if (!info)
 		return -1;
 	codeoff = rvm_codegen_getcodesize(dbex->co->cg);
-	/*
-	 * Set the rid in the rulepref, so the compiler associates this rule
-	 * with the correct rid.
-	 */
-	rpa_compiler_rulepref_set_ruleid_s(dbex->co, rpa_dbex_name(dbex, rid), rid);
-
 	/*
 	 * Build the bitmap
 	 */
@@ -1977,6 +1971,13 @@ int rpa_dbex_compile(rpadbex_t *dbex)
 	dbex->co = rpa_compiler_create();
 	rpa_dbex_setemit(dbex, TRUE);
 
+	/*
+	 * Set the rid in the rulepref, so the compiler associates every rule
+	 * with the correct rid, even if it is inlined in a rule that is compiled earlier.
+	 */
+	for (rid = rpa_dbex_first(dbex); rid >= 0; rid = rpa_dbex_next(dbex, rid)) {
+		rpa_compiler_rulepref_set_ruleid_s(dbex->co, rpa_dbex_name(dbex, rid), rid);
+	}
 	for (rid = rpa_dbex_first(dbex); rid >= 0; rid = rpa_dbex_next(dbex, rid)) {
 		if (rpa_dbex_compile_rule(dbex, rid) < 0) {
 			RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_COMPILE);
-- 
2.43.0


From 7375e1f5b0b7b12b3d8e36b0b32d9bebe7d991ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:36 +0000
Subject: [PATCH 23/43] fix: a scan checks its input range and does not keep an
 earlier error

---
 rpa/rpastat.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index b449420..f8b1476 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -256,6 +256,11 @@ long rpa_stat_scan(rpastat_t *stat, rparule_t rid, unsigned int encoding, const
 		RPA_STAT_SETERROR_CODE(stat, RPA_E_EXECUTION);
 		return -1;
 	}
+	r_memset(&stat->err, 0, sizeof(stat->err));
+	if (start > end || input < start || input > end) {
+		RPA_STAT_SETERROR_CODE(stat, RPA_E_PARAM);
+		return -1;
+	}
 
 	while (input < end) {
 		topsiz = rpa_stat_exec(stat, exec, offset, encoding, input, start, end, NULL);
-- 
2.43.0


From 23d4b961b067a446ce224a868ee1eb84858a6f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:15 +0000
Subject: [PATCH 24/43] fix: nested counted repetitions keep their own counts

---
 rex/rexcompiler.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index 8e465c6..f843831 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -485,21 +485,23 @@ static int rex_compiler_qfactor(rexcompiler_t *co, rexdb_t *rexdb)
 			const char *saved_ptr = co->ptr;
 			const char *saved_tokenptr = co->tokenptr;
 			int saved_token = co->token;
-			for (count = 1; count < co->tocount; count++) {
+			size_t fromcount = co->fromcount;	/* compiling the factor again may parse nested counts */
+			size_t tocount = co->tocount;
+			for (count = 1; count < tocount; count++) {
 				co->start = fstart;
 				co->end = fend;
 				co->ptr = fstart;
 				rex_compiler_getnbtok(co);
 				rex_compiler_catexpression(co, rexdb);
 				frag2 = FPOP(co);
-				if (co->tocount == (size_t)-1 && count >= co->fromcount) {
+				if (tocount == (size_t)-1 && count >= fromcount) {
 					frag2 = rex_fragment_mop(rexdb, frag2);
 					frag1 = FPOP(co);
 					frag1 = rex_fragment_cat(rexdb, frag1, frag2);
 					FPUSH(co, frag1);
 					break;
 				}
-				if (count >= co->fromcount) {
+				if (count >= fromcount) {
 					frag2 = rex_fragment_opt(rexdb, frag2);
 				}
 				frag1 = FPOP(co);
-- 
2.43.0


From 025ea2640f0132a8c9ced98c2069b86dbbf0f64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:16 +0000
Subject: [PATCH 25/43] fix: an expression followed by an unbalanced
 parenthesis is rejected

---
 rex/rexcompiler.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index f843831..2611abf 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -592,6 +592,8 @@ long rex_compiler_expression(rexcompiler_t *co, rexdb_t *rexdb, const char *str,
 	rex_compiler_getnbtok(co);
 	if (rex_compiler_altexpression(co, rexdb) < 0)
 		goto error;
+	if (co->token != REX_TOKEN_EOF)
+		goto error;
 	frag1 = FPOP(co);
 	frag2 = rex_fragment_create(rex_db_getstate(rexdb, rex_db_createstate(rexdb, REX_STATETYPE_ACCEPT)));
 	rex_state_setuserdata(REX_FRAG_STATE(frag2), userdata);
-- 
2.43.0


From 8c023abace69f04819727a030358df13c3aa5463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:16 +0000
Subject: [PATCH 26/43] fix: an empty first branch of an alternation is
 rejected

---
 rex/rexcompiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index 2611abf..a2d595f 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -533,7 +533,7 @@ static int rex_compiler_catexpression(rexcompiler_t *co, rexdb_t *rexdb)
 		case REX_TOKEN_EOF:
 		case '|':
 		case ')':
-			return 0;
+			return nfactors ? 0 : -1;
 		}
 		if (rex_compiler_qfactor(co, rexdb) < 0)
 			return -1;
-- 
2.43.0


From 6ad01d1260b3d65cb5f2981018ed5b260b6aeb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:16 +0000
Subject: [PATCH 27/43] fix: an expression ending with a lone backslash is
 rejected

---
 rex/rexcompiler.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index a2d595f..8d320da 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -344,6 +344,8 @@ static int rex_compiler_factor(rexcompiler_t *co, rexdb_t *rexdb)
 	} else {
 		srcstate = rex_db_getstate(rexdb, rex_db_createstate(rexdb, REX_STATETYPE_NONE));
 		rex_compiler_adjustescapedtoken(co);
+		if (co->token == REX_TOKEN_EOF)
+			return -1;
 		rex_state_addtransition(srcstate, co->token, co->token, -1);
 		frag = rex_fragment_create(srcstate);
 		FPUSH(co, frag);
-- 
2.43.0


From 925ca9bf1b67e299d57bd8ef2355c3b8b5f5b7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:16 +0000
Subject: [PATCH 28/43] fix: reversed ranges are inserted at their sorted place

---
 rex/rextransition.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rex/rextransition.c b/rex/rextransition.c
index 5d73f7c..449605a 100644
--- a/rex/rextransition.c
+++ b/rex/rextransition.c
@@ -86,7 +86,7 @@ rex_transition_t *rex_transitions_add(rarray_t *trans, rexchar_t c1, rexchar_t c
 	while (max > min) {
 		mid = (min + max)/2;
 		t = (rex_transition_t *)r_array_slot(trans, mid);
-		if (c1 >= t->lowin) {
+		if (ntrans.lowin >= t->lowin) {
 			min = mid + 1;
 		} else {
 			max = mid;
-- 
2.43.0


From 8b1c099d60ea31736b63b4e450f850e062f8fe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:16 +0000
Subject: [PATCH 29/43] fix: the count {0} releases its factor and leaves the
 next token alone

---
 rex/rexcompiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index 8d320da..81e505b 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -468,8 +468,8 @@ static int rex_compiler_qfactor(rexcompiler_t *co, rexdb_t *rexdb)
 				rex_state_destroy(srcstate);
 			}
 			r_array_setlength(rexdb->states, nstates);
+			rex_fragment_destroy(frag);
 			srcstate = rex_db_getstate(rexdb, rex_db_createstate(rexdb, REX_STATETYPE_NONE));
-			rex_compiler_adjustescapedtoken(co);
 			rex_state_addtransition_e(srcstate, -1);
 			frag = rex_fragment_create(srcstate);
 			FPUSH(co, frag);
-- 
2.43.0


From 43f1764fd2bc778803f9d6c4e5925713b7cf646c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:16 +0000
Subject: [PATCH 30/43] fix: rex_regex_create returns NULL for a rejected
 expression

---
 rex/rexregex.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rex/rexregex.c b/rex/rexregex.c
index a2fb8fa..1974bc0 100644
--- a/rex/rexregex.c
+++ b/rex/rexregex.c
@@ -81,8 +81,7 @@ rexregex_t *rex_regex_create(const char *str, unsigned int size)
 	rexregex_t *regex;
 
 	regex = (rexregex_t*)r_object_create(sizeof(*regex));
-	rex_regex_init((robject_t*)regex, R_OBJECT_REXREGEX, rex_regex_cleanup, NULL, str, size);
-	return regex;
+	return (rexregex_t*)rex_regex_init((robject_t*)regex, R_OBJECT_REXREGEX, rex_regex_cleanup, NULL, str, size);
 }
 
 
-- 
2.43.0


From 53cae27dc655d5d68754fca385b6ff43d0b87387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:16 +0000
Subject: [PATCH 31/43] fix: byte matching does not sign-extend the subject

---
 rex/rexregex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rex/rexregex.c b/rex/rexregex.c
index 1974bc0..cef5247 100644
--- a/rex/rexregex.c
+++ b/rex/rexregex.c
@@ -171,7 +171,7 @@ static int rex_regex_match_byte(rexregex_t *regex, const char *start, const char
 	rexdfs_t *s;
 
 	while (input < end) {
-		wc = *input;
+		wc = (unsigned char)*input;
 		REX_DFA_NEXT(dfa, nstate, wc, &nstate);
 		if (nstate == 0)
 			break;
-- 
2.43.0


From 70853a252e5f9f252b7c713a7be21e745b98f093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:16 +0000
Subject: [PATCH 32/43] fix: the conversion starts with no state marked

---
 rex/rexdfaconv.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rex/rexdfaconv.c b/rex/rexdfaconv.c
index bf77c17..b38b97f 100644
--- a/rex/rexdfaconv.c
+++ b/rex/rexdfaconv.c
@@ -358,6 +358,9 @@ rexdb_t *rex_dfaconv_run(rexdfaconv_t *co, rexdb_t *nfa, size_t start)
 	if (dfa == NULL)
 		return NULL;
 	rex_dfaconv_initsubstates(dfa, nfa);
+	r_array_setlength(co->marked, 0);
+	for (i = 0; i < r_array_length(nfa->states); i++)
+		r_array_add(co->marked, NULL);
 	/*
 	 * Create the DFA START state.
 	 */
-- 
2.43.0


From 9bf179f1624492d21c6c0bf19fd41f83ab6a94eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:16 +0000
Subject: [PATCH 33/43] fix: the bits of the scan filter start cleared

---
 rex/rexdfa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rex/rexdfa.c b/rex/rexdfa.c
index 301c839..0e16966 100644
--- a/rex/rexdfa.c
+++ b/rex/rexdfa.c
@@ -161,7 +161,7 @@ int rex_dfa_hash(rexdfa_t *dfa, unsigned int hbytes, unsigned int hbits)
 	dfa->hbytes = hbytes;
 	dfa->hbits = hbits;
 	dfa->hsize = REX_DFA_HASHSIZE(hbytes, hbits) >> 3;
-	dfa->bits = (unsigned char*)r_malloc(dfa->hsize);
+	dfa->bits = (unsigned char*)r_zmalloc(dfa->hsize);
 	rex_dfa_statehash(dfa, REX_DFA_STARTSTATE, hbytes - 1, hbits, 0);
 	return 0;
 }
-- 
2.43.0


From 3c33828c492fc2f3d2fc93099ad9c10672d97308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:26 +0000
Subject: [PATCH 34/43] fix: characters outside ASCII in an expression are not
 classified by their low byte

---
 rex/rexcompiler.c | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index 81e505b..591b597 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -66,13 +66,28 @@ void rex_compiler_destroy(rexcompiler_t *co)
 
 static int rex_compiler_isspace(int c)
 {
-	return isspace(c);
+	return isspace((unsigned char)c);
+}
+
+
+/*
+ * Tokens are wide characters, only the ASCII ones can be passed to ctype functions.
+ */
+static int rex_compiler_isdigit(int c)
+{
+	return c >= '0' && c <= '9';
+}
+
+
+static int rex_compiler_isxdigit(int c)
+{
+	return rex_compiler_isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
 }
 
 
 static int rex_compiler_isblank(rexcompiler_t *co, int c)
 {
-	return r_strchr(co->blankchars, c) ? 1 : 0;
+	return (c > 0 && c < 0x80 && r_strchr(co->blankchars, c)) ? 1 : 0;
 }
 
 
@@ -226,10 +241,10 @@ int rex_compiler_numerictoken(rexcompiler_t *co, rexdb_t *rexdb)
 		} else {
 			base = 8;
 		}
-	} else if (!isdigit(co->token)) {
+	} else if (!rex_compiler_isdigit(co->token)) {
 		return -1;
 	}
-	while ((base == 16 && isxdigit(co->token)) || (base == 8 && isdigit(co->token) && co->token != '8' && co->token != '9') || isdigit(co->token)) {
+	while ((base == 16 && rex_compiler_isxdigit(co->token)) || (base == 8 && rex_compiler_isdigit(co->token) && co->token != '8' && co->token != '9') || rex_compiler_isdigit(co->token)) {
 		if (i >= REX_CONV_BUFSIZE)
 			return -1;
 		convbuf[i++] = co->token;
@@ -363,9 +378,9 @@ static int rex_compiler_parsecount(rexcompiler_t *co, rexdb_t *rexdb)
 	int i = 0;
 
 	rex_compiler_getnbtok(co);		/* eat '{' */
-	if (!isdigit(co->token))
+	if (!rex_compiler_isdigit(co->token))
 		return -1;
-	for (i = 0; isdigit(co->token); i++) {
+	for (i = 0; rex_compiler_isdigit(co->token); i++) {
 		if (i >= REX_CONV_BUFSIZE)
 			return -1;
 		convbuf[i] = co->token;
@@ -381,8 +396,8 @@ static int rex_compiler_parsecount(rexcompiler_t *co, rexdb_t *rexdb)
 	if (co->token == ',') {
 		rex_compiler_getnbtok(co);		/* eat ',' */
 		co->tocount = (size_t)-1;
-		if (isdigit(co->token)) {
-			for (i = 0; isdigit(co->token); i++) {
+		if (rex_compiler_isdigit(co->token)) {
+			for (i = 0; rex_compiler_isdigit(co->token); i++) {
 				if (i >= REX_CONV_BUFSIZE)
 					return -1;
 				convbuf[i] = co->token;
@@ -410,7 +425,7 @@ static int rex_compiler_qfactor(rexcompiler_t *co, rexdb_t *rexdb)
 	rexstate_t *srcstate;
 	size_t nstates, i;
 
-	if (strchr("{}*?+]\n\r)", co->token)) {
+	if (co->token > 0 && co->token < 0x80 && strchr("{}*?+]\n\r)", co->token)) {
 		/*
 		 * Unexpected char.
 		 */
-- 
2.43.0


From d74d1b54d65d70f0eee575a3993df9590e0456e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:58 +0000
Subject: [PATCH 35/43] fix: an added transition is located after the array has
 grown

---
 rex/rextransition.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rex/rextransition.c b/rex/rextransition.c
index 449605a..a253fb6 100644
--- a/rex/rextransition.c
+++ b/rex/rextransition.c
@@ -29,12 +29,14 @@
 rex_transition_t *rex_transitions_add_e(rarray_t *etrans, size_t srcuid, size_t dstuid)
 {
 	rex_transition_t ntrans;
+	size_t index;
 
 	r_memset(&ntrans, 0, sizeof(ntrans));
 	ntrans.type = REX_TRANSITION_EMPTY;
 	ntrans.srcuid = srcuid;
 	ntrans.dstuid = dstuid;
-	return (rex_transition_t *)r_array_slot(etrans, r_array_add(etrans, &ntrans));
+	index = r_array_add(etrans, &ntrans);
+	return (rex_transition_t *)r_array_slot(etrans, index);
 }
 
 
@@ -92,7 +94,8 @@ rex_transition_t *rex_transitions_add(rarray_t *trans, rexchar_t c1, rexchar_t c
 			max = mid;
 		}
 	}
-	return (rex_transition_t *)r_array_slot(trans, r_array_insert(trans, min, &ntrans));
+	r_array_insert(trans, min, &ntrans);
+	return (rex_transition_t *)r_array_slot(trans, min);
 }
 
 
-- 
2.43.0


From 8b931eabb54abdb4ff27c1a982c6a552f6972ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:55 +0000
Subject: [PATCH 36/43] fix: rpagrep line mode: search input without a newline,
 free the stat, stay inside odd-length UTF-16 input

---
 rpagrep/rpagrep.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/rpagrep/rpagrep.c b/rpagrep/rpagrep.c
index 85cd361..2666736 100644
--- a/rpagrep/rpagrep.c
+++ b/rpagrep/rpagrep.c
@@ -364,7 +364,6 @@ int rpa_grep_scan_lines(rpa_grep_t *pGrep, const char* buffer, unsigned long siz
 	rpastat_t *hStat;
 	const char *matched;
 	int displayed = 0;
-	unsigned long lines = 0;
 	const char *end = buffer + size, *lstart = buffer, *lend;
 
 	hStat = rpa_stat_create(pGrep->hDbex, 0);
@@ -375,8 +374,14 @@ int rpa_grep_scan_lines(rpa_grep_t *pGrep, const char* buffer, unsigned long siz
 again:
 	if (pGrep->encoding == RPA_ENCODING_UTF16LE || pGrep->encoding == RPA_ENCODING_ICASE_UTF16LE) {
 		for (lend = lstart; lend < end; lend += sizeof(unsigned short)) {
-			if (*((unsigned short*)lend) == L'\n') {
-				++lines;
+			if (end - lend < (long)sizeof(unsigned short)) {
+				/*
+				 * The input ends in the middle of a character
+				 */
+				lend = end;
+				break;
+			}
+			if (lend[0] == '\n' && lend[1] == 0) {
 				lend += sizeof(unsigned short);
 				break;
 			}
@@ -384,14 +389,11 @@ again:
 	} else {
 		for (lend = lstart; lend < end; lend += sizeof(unsigned char)) {
 			if (*((unsigned char*)lend) == '\n') {
-				++lines;
 				lend += sizeof(unsigned char);
 				break;
 			}
 		}
 	}
-	if (!lines)
-		return 0;
 	ret = rpa_stat_scan(hStat, pGrep->hPattern, pGrep->encoding, lstart, lstart, lend, &matched);
 	if (ret > 0) {
 		rpa_grep_matchfound(pGrep);
-- 
2.43.0


From b2877bf2b6b0551263308cc960eb908d7beb42b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:55 +0000
Subject: [PATCH 37/43] fix: rexjson: accept the escape \/ in strings

---
 rexjson/rexjsondfa.rexcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexjson/rexjsondfa.rexcc b/rexjson/rexjsondfa.rexcc
index 46a4fc1..8ca4794 100644
--- a/rexjson/rexjsondfa.rexcc
+++ b/rexjson/rexjsondfa.rexcc
@@ -21,7 +21,7 @@
 #define TOKEN_RIGHTCB 273
 
 %%
-TOKEN_STRING        "([^"\\#0x0-#0x1F]|[\\](["\\bfnrt]|u[0-9a-fA-F][0-9a-fA-F][0-9a-fA-F][0-9a-fA-F]))*"
+TOKEN_STRING        "([^"\\#0x0-#0x1F]|[\\](["\\/bfnrt]|u[0-9a-fA-F][0-9a-fA-F][0-9a-fA-F][0-9a-fA-F]))*"
 TOKEN_INT           -?[0-9]|-?[1-9][0-9]+
 TOKEN_NUMBER        -?([1-9][0-9]*|0)([.][0-9]+)?([eE][+\-]?[0-9]+)?
 TOKEN_TRUE          true
-- 
2.43.0


From f1eef52378a5e2569cdef50aefc2eb82c26e83b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:55 +0000
Subject: [PATCH 38/43] fix: rexjson: arrays and objects end at their closing
 bracket, error offset is that of the offending token

---
 rexjson/rexjson.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/rexjson/rexjson.c b/rexjson/rexjson.c
index 89babab..b61e789 100644
--- a/rexjson/rexjson.c
+++ b/rexjson/rexjson.c
@@ -50,6 +50,7 @@ static void rexjson_get_token(rexjson_t *ctx)
 	int size = ctx->bufsize - ctx->offset;
 
 	ctx->token_str = buffer;
+	ctx->token_offset = ctx->offset;
 	ctx->token_size = 0;
 	ctx->token_id = -1;
 	for (i = 0; i < size; i++) {
@@ -68,10 +69,7 @@ static void rexjson_get_token(rexjson_t *ctx)
 			ctx->token_id = (int) acc_ss->userdata;
 		}
 	}
-	if (ctx->token_size > 0) {
-		ctx->token_offset = ctx->offset;
-		ctx->offset += ctx->token_size;
-	}
+	ctx->offset += ctx->token_size;
 }
 
 static void rexjson_next_token(rexjson_t *ctx)
@@ -130,7 +128,7 @@ static ssize_t rexjson_parse_namevalue(rexjson_t* ctx)
 
 static ssize_t rexjson_parse_object(rexjson_t* ctx)
 {
-	size_t cur_offset = ctx->token_offset;
+	size_t cur_offset = ctx->token_offset, end_offset;
 	rexjson_record_t *record = rexjson_record_current(ctx);
 
 	if (rexjson_parse_token(ctx, TOKEN_LEFTCB) < 0)
@@ -145,17 +143,18 @@ static ssize_t rexjson_parse_object(rexjson_t* ctx)
 				return -1;
 		}
 	}
+	end_offset = ctx->token_offset + ctx->token_size;
 	if (rexjson_parse_token(ctx, TOKEN_RIGHTCB) < 0)
 		return -1;
 	record->value = cur_offset;
-	record->valuesize = ctx->token_offset - cur_offset;
+	record->valuesize = end_offset - cur_offset;
 	record->valtype = REXJSON_VALUE_OBJECT;
-	return (ctx->token_offset - cur_offset);
+	return (end_offset - cur_offset);
 }
 
 static ssize_t rexjson_parse_array(rexjson_t* ctx)
 {
-	size_t cur_offset = ctx->token_offset;
+	size_t cur_offset = ctx->token_offset, end_offset;
 	rexjson_record_t *record = rexjson_record_current(ctx);
 
 	if (rexjson_parse_token(ctx, TOKEN_LEFTSB) < 0)
@@ -170,12 +169,13 @@ static ssize_t rexjson_parse_array(rexjson_t* ctx)
 				return -1;
 		}
 	}
+	end_offset = ctx->token_offset + ctx->token_size;
 	if (rexjson_parse_token(ctx, TOKEN_RIGHTSB) < 0)
 		return -1;
 	record->value = cur_offset;
-	record->valuesize = ctx->token_offset - cur_offset;
+	record->valuesize = end_offset - cur_offset;
 	record->valtype = REXJSON_VALUE_ARRAY;
-	return (ctx->token_offset - cur_offset);
+	return (end_offset - cur_offset);
 }
 
 
-- 
2.43.0


From d950c62ad5d07a19be9f308553e8c2f6c2423abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:55 +0000
Subject: [PATCH 39/43] fix: rexjson: keep the first error when a nested value
 fails

---
 rexjson/rexjson.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rexjson/rexjson.c b/rexjson/rexjson.c
index b61e789..8345577 100644
--- a/rexjson/rexjson.c
+++ b/rexjson/rexjson.c
@@ -243,6 +243,8 @@ static ssize_t rexjson_parse_value_set_name(rexjson_t* ctx, size_t nameoffset, s
 			return -1;
 		ret = rexjson_parse_primitive(ctx);
 	}
+	if (ret < 0)
+		return -1;
 	begin->name = nameoffset;
 	begin->namesize = namesize;
 	if ((end = rexjson_record_add(ctx, REXJSON_RECORD_END, REXJSON_VALUE_NULL)) == NULL)
-- 
2.43.0


From 3417df713834dc0cd72197be5f7ed56f431a63b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:40 +0000
Subject: [PATCH 40/43] fix: rexcc: report malformed definition files, no use
 after free or NULL automaton in the tool

---
 rexcc/rexcc.c     | 10 ++++++----
 rexcc/rexccmain.c | 16 ++++++++--------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/rexcc/rexcc.c b/rexcc/rexcc.c
index 9e800b1..29b8761 100644
--- a/rexcc/rexcc.c
+++ b/rexcc/rexcc.c
@@ -288,13 +288,13 @@ static int rex_cc_output_dfa(rexcc_t *pCC, FILE *out)
 	rexdfa_t *dfa = pCC->dfa;
 
 	rex_cc_fprintf(out, 0, "static rexdfa_t ccdfa = {\n");
-	rex_cc_fprintf(out, 1, "%lu,\n", dfa->nstates);
+	rex_cc_fprintf(out, 1, "%lu,\n", (unsigned long)dfa->nstates);
 	rex_cc_fprintf(out, 1, "%s,\n", "states");
-	rex_cc_fprintf(out, 1, "%lu,\n", dfa->ntrans);
+	rex_cc_fprintf(out, 1, "%lu,\n", (unsigned long)dfa->ntrans);
 	rex_cc_fprintf(out, 1, "%s,\n", "transitions");
-	rex_cc_fprintf(out, 1, "%lu,\n", dfa->naccsubstates);
+	rex_cc_fprintf(out, 1, "%lu,\n", (unsigned long)dfa->naccsubstates);
 	rex_cc_fprintf(out, 1, "%s,\n", "accsubstates");
-	rex_cc_fprintf(out, 1, "%lu,\n", dfa->nsubstates);
+	rex_cc_fprintf(out, 1, "%lu,\n", (unsigned long)dfa->nsubstates);
 	rex_cc_fprintf(out, 1, "%s,\n", "substates");
 	rex_cc_fprintf(out, 1, "0,\n");
 	rex_cc_fprintf(out, 1, "0,\n");
@@ -493,6 +493,8 @@ int rex_cc_load_buffer(rexcc_t *pCC, rbuffer_t *text)
 			fprintf(stdout, "\n");
 #endif
 		}
+	} else {
+		return -1;
 	}
 	return 0;
 }
diff --git a/rexcc/rexccmain.c b/rexcc/rexccmain.c
index 4ba073e..75cbbd3 100644
--- a/rexcc/rexccmain.c
+++ b/rexcc/rexccmain.c
@@ -100,6 +100,7 @@ int main(int argc, const char *argv[])
 	rexcc_t *pCC;
 	int i, ret = 0, dumponly = 0;
 	int withsubstates = 0;
+	unsigned int showtime;
 	FILE *devnull = NULL;
 	rexdb_t *tempdb = NULL;
 	FILE *cfile = stdout;
@@ -164,9 +165,8 @@ int main(int argc, const char *argv[])
 			rbuffer_t *text = rex_buffer_map_file(argv[i]);
 			if (text) {
 				if (rex_cc_load_buffer(pCC, text) < 0) {
-					/*
-					 * Error
-					 */
+					fprintf(stderr, "Failed to compile: %s\n", argv[i]);
+					ret = 1;
 				}
 				if (pCC->startuid >= 0) {
 					tempdb = rex_db_createdfa(pCC->nfa, pCC->startuid);
@@ -180,9 +180,8 @@ int main(int argc, const char *argv[])
 				}
 				r_buffer_destroy(text);
 			} else {
-				/*
-				 * Error
-				 */
+				fprintf(stderr, "Failed to open file: %s\n", argv[i]);
+				ret = 1;
 			}
 			break;
 		} else if (argv[i][1] == 'o'){
@@ -190,7 +189,7 @@ int main(int argc, const char *argv[])
 		}
 	}
 	if (dumponly == 1) {
-		for (i = 0; i < (int)pCC->dfa->nstates; i++) {
+		for (i = 0; pCC->dfa && i < (int)pCC->dfa->nstates; i++) {
 			rex_dfa_dumpstate(pCC->dfa, i);
 		}
 		goto end;
@@ -203,8 +202,9 @@ int main(int argc, const char *argv[])
 	}
 
 end:
+	showtime = pCC->showtime;
 	rex_cc_destroy(pCC);
-	if (pCC->showtime) {
+	if (showtime) {
 		fprintf(stdout, "memory: %ld KB (leaked %ld Bytes)\n", (long)r_debug_get_maxmem()/1024, (long)r_debug_get_allocmem());
 	}
 	if (devnull)
-- 
2.43.0


From cbb9116f72ebcf4290e9e3c5cc347881b85a0228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:15 +0000
Subject: [PATCH 41/43] fix: rpa_dbex_dumpuids: no leak when the database is
 not closed

---
 rpa/rpadbex.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index dd98bc8..64aaf9d 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1710,7 +1710,7 @@ int rpa_dbex_dumpuids(rpadbex_t *dbex)
 	unsigned long i;
 	long rec;
 	rpa_ruleinfo_t *info;
-	char *buffer = r_zmalloc(32 * sizeof(char));
+	char *buffer;
 
 	if (!dbex)
 		return -1;
@@ -1718,6 +1718,7 @@ int rpa_dbex_dumpuids(rpadbex_t *dbex)
 		RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_NOTCLOSED);
 		return -1;
 	}
+	buffer = r_zmalloc(32 * sizeof(char));
 	for (i = 0; i < r_array_length(dbex->rules->names); i++) {
 		info = (rpa_ruleinfo_t *)r_harray_get(dbex->rules, i);
 		if (info->type == RPA_RULEINFO_DIRECTIVE) {
-- 
2.43.0


From 1a37df8c63203efb198bf1a6dd50f0483e13ec57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:25 +0000
Subject: [PATCH 42/43] fix: a scan resumes at the next character after an
 aborted attempt

---
 rpa/rpastat.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index f8b1476..3e295b9 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -275,12 +275,8 @@ long rpa_stat_scan(rpastat_t *stat, rparule_t rid, unsigned int encoding, const
 			*where = input;
 			return ret;
 		}
-		if (topsiz == 0) {
-			ptp = &stat->instack[0];
-			input += ptp->wcsize;
-		} else {
-			input += 1;
-		}
+		ptp = &stat->instack[0];
+		input += ptp->wcsize;
 	}
 	return 0;
 }
-- 
2.43.0


From 55ed8d08f7c15bfa440fbf98720f7736205f7ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:34 +0000
Subject: [PATCH 43/43] fix: counted string keys are compared to their full
 length

---
 rlib/rhash.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rlib/rhash.c b/rlib/rhash.c
index af993a5..240d026 100644
--- a/rlib/rhash.c
+++ b/rlib/rhash.c
@@ -18,6 +18,7 @@
  *  Martin Stoilov <martin@rpasearch.com>
  */
 
+#include <string.h>
 #include "rlib/rmem.h"
 #include "rlib/rstring.h"
 #include "rlib/rhash.h"
@@ -144,7 +145,7 @@ rboolean r_hash_rstrequal(rconstpointer key1, rconstpointer key2)
 	const rstr_t *k1 = (const rstr_t *)key1;
 	const rstr_t *k2 = (const rstr_t *)key2;
 
-	return (k1->size == k2->size && r_strncmp((const char*)k1->str, (const char*)k2->str, k1->size) == 0) ? TRUE : FALSE;
+	return (k1->size == k2->size && memcmp(k1->str, k2->str, k1->size) == 0) ? TRUE : FALSE;
 }
 
 
-- 
2.43.0

