From 0204f7c68c81062ba2e8b4beeb84803c57eaa937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:57 +0000
Subject: [PATCH 01/35] Add VERIFY_LOOP annotation point, expands to nothing
 unless C3_VERIFY is defined

---
 src/compiler/bigint.c | 1 +
 src/utils/common.h    | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/src/compiler/bigint.c b/src/compiler/bigint.c
index 82efb18..664228b 100644
--- a/src/compiler/bigint.c
+++ b/src/compiler/bigint.c
@@ -510,6 +510,7 @@ void i128_udivrem(Int128 op1, Int128 op2, Int128 *div, Int128 *rem)
 	op2 = i128_shl64(op2, (uint64_t)shift);
 	do
 	{
+		VERIFY_LOOP(i128_udivrem, &op1, &op2, div, &shift);
 		*div = i128_shl64(*div, 1);
 		if (i128_ucomp(op1, op2) != CMP_LT)
 		{
diff --git a/src/utils/common.h b/src/utils/common.h
index 0e9779b..15aaba1 100644
--- a/src/utils/common.h
+++ b/src/utils/common.h
@@ -128,6 +128,13 @@
  do { long long __tempval1 = _value; long long __tempval2 = _expected; \
 	TEST_ASSERT(__tempval1 == __tempval2, "Checking " _string ": expected %lld but was %lld.", __tempval2, __tempval1); } while(0)
 
+// Annotation points for contract verification (see VERIFY_LOOP uses): they expand to nothing unless C3_VERIFY is defined.
+#ifdef C3_VERIFY
+#define VERIFY_LOOP(name_, ...) verify_loop_##name_(__VA_ARGS__)
+#else
+#define VERIFY_LOOP(name_, ...) do { } while (0)
+#endif
+
 void evprintf(const char *format, va_list list);
 void eprintf(const char *format, ...);
 NORETURN void error_exit(const char *format, ...) ;
-- 
2.43.0


From ae3660d241b1e97319ab50788b467ef5584be60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:57 +0000
Subject: [PATCH 02/35] fix: compile time signed remainder takes the sign of
 the dividend

---
 src/compiler/bigint.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/bigint.c b/src/compiler/bigint.c
index 664228b..b4cd8e1 100644
--- a/src/compiler/bigint.c
+++ b/src/compiler/bigint.c
@@ -545,7 +545,8 @@ Int128 i128_srem(Int128 op1, Int128 op2)
 	if (topbit1) op1 = i128_neg(op1);
 	if (topbit2) op2 = i128_neg(op2);
 	Int128 res = i128_urem(op1, op2);
-	if (topbit2 ^ topbit1)
+	// The remainder takes the sign of the dividend.
+	if (topbit1)
 	{
 		return i128_neg(res);
 	}
-- 
2.43.0


From a1c8d372e86f07627e8ba08ec5580a812c219bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:57 +0000
Subject: [PATCH 03/35] fix: constant conversion of the minimum int128 to
 floating point lost its sign

---
 src/compiler/bigint.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/compiler/bigint.c b/src/compiler/bigint.c
index b4cd8e1..0f1faee 100644
--- a/src/compiler/bigint.c
+++ b/src/compiler/bigint.c
@@ -491,11 +491,9 @@ Real i128_to_float(Int128 op)
 
 Real i128_to_float_signed(Int128 op)
 {
-	if ((int64_t)op.high < 0 && (op.high != INT128_MIN.high || op.low != INT128_MIN.low))
-	{
-		return -i128_to_float_signed(i128_neg(op));
-	}
-	return (Real)op.low + (Real)ldexp((double)op.high, 64);
+	// Negating the minimum value yields 2^127 when read as unsigned, so this is correct for it as well.
+	if ((int64_t)op.high < 0) return -i128_to_float(i128_neg(op));
+	return i128_to_float(op);
 }
 
 void i128_udivrem(Int128 op1, Int128 op2, Int128 *div, Int128 *rem)
-- 
2.43.0


From d8f237424800d427ac02c260720e86a405c89beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:59 +0000
Subject: [PATCH 04/35] fix: UTF-8 decoding accepted overlong sequences and
 values above U+10FFFF

---
 lib/std/core/conv.c3 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/std/core/conv.c3 b/lib/std/core/conv.c3
index 7ffbadf..07fd227 100644
--- a/lib/std/core/conv.c3
+++ b/lib/std/core/conv.c3
@@ -153,7 +153,7 @@ fn Char32? utf8_to_char32(char* ptr, usz* size)
 		Char32 uc = (c & 0x1F) << 6;
 		c = *ptr;
 		// Overlong sequence or invalid second.
-		if (!uc || c & 0xC0 != 0x80) return string::INVALID_UTF8?;
+		if (uc < 0x80 || c & 0xC0 != 0x80) return string::INVALID_UTF8?;
 		return uc + c & 0x3F;
 	}
 	if ((c & 0xF0) == 0xE0)
@@ -166,7 +166,7 @@ fn Char32? utf8_to_char32(char* ptr, usz* size)
 		uc += (c & 0x3F) << 6;
 		c = ptr++[0];
 		// Overlong sequence or invalid last
-		if (!uc || c & 0xC0 != 0x80) return string::INVALID_UTF8?;
+		if (uc < 0x800 || c & 0xC0 != 0x80) return string::INVALID_UTF8?;
 		return uc + c & 0x3F;
 	}
 	if (max_size < 4) return string::INVALID_UTF8?;
@@ -180,8 +180,8 @@ fn Char32? utf8_to_char32(char* ptr, usz* size)
 	if (c & 0xC0 != 0x80) return string::INVALID_UTF8?;
 	uc += (c & 0x3F) << 6;
 	c = ptr++[0];
-	// Overlong sequence or invalid last
-	if (!uc || c & 0xC0 != 0x80) return string::INVALID_UTF8?;
+	// Overlong sequence, beyond the last code point or invalid last
+	if (uc < 0x10000 || uc > 0x10FFFF || c & 0xC0 != 0x80) return string::INVALID_UTF8?;
 	return uc + c & 0x3F;
 }
 
-- 
2.43.0


From 2745ee3b245fc6e8d1cebcb508c4a9c88ac6c4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:54 +0000
Subject: [PATCH 05/35] fix: vector element assignment ignored ^index, and
 vector indexing was unchecked in safe mode

---
 src/compiler/llvm_codegen_expr.c | 44 ++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 9a688ca..366bc3e 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -670,6 +670,27 @@ static inline void llvm_emit_subscript_addr_with_base(GenContext *c, BEValue *re
 	}
 }
 
+/**
+ * Emit the index of a vector subscript, handling ^index and (in safe mode) the bounds check.
+ */
+static LLVMValueRef llvm_emit_vector_index(GenContext *c, Type *vec, Expr *expr)
+{
+	Expr *index_expr = exprptr(expr->subscript_expr.index.expr);
+	BEValue index;
+	llvm_emit_expr(c, &index, index_expr);
+	llvm_value_rvalue(c, &index);
+	LLVMValueRef len = llvm_const_int(c, index.type, vec->array.len);
+	if (expr->subscript_expr.index.start_from_end)
+	{
+		index.value = LLVMBuildNUWSub(c->builder, len, index.value, "");
+	}
+	if (safe_mode_enabled() && !llvm_is_global_eval(c) && !LLVMIsConstant(index.value))
+	{
+		llvm_emit_array_bounds_check(c, &index, len, index_expr->span);
+	}
+	return index.value;
+}
+
 static inline void llvm_emit_vector_subscript(GenContext *c, BEValue *value, Expr *expr)
 {
 	llvm_emit_exprid(c, value, expr->subscript_expr.expr);
@@ -678,13 +699,7 @@ static inline void llvm_emit_vector_subscript(GenContext *c, BEValue *value, Exp
 	ASSERT(vec->type_kind == TYPE_VECTOR);
 	Type *element = vec->array.base;
 	LLVMValueRef vector = value->value;
-	llvm_emit_exprid(c, value, expr->subscript_expr.index.expr);
-	llvm_value_rvalue(c, value);
-	LLVMValueRef index = value->value;
-	if (expr->subscript_expr.index.start_from_end)
-	{
-		index = LLVMBuildNUWSub(c->builder, llvm_const_int(c, value->type, vec->array.len), index, "");
-	}
+	LLVMValueRef index = llvm_emit_vector_index(c, vec, expr);
 	llvm_value_set(value, LLVMBuildExtractElement(c->builder, vector, index, ""), element);
 }
 
@@ -2224,15 +2239,8 @@ static inline void llvm_emit_pre_post_inc_dec_vector(GenContext *c, BEValue *val
 	Type *element = vec->array.base;
 	LLVMValueRef vector = value->value;
 
-	// Now let's get the subscript and store it in value
-	bool start_from_end = expr->subscript_expr.index.start_from_end;
-	llvm_emit_exprid(c, value, expr->subscript_expr.index.expr);
-	llvm_value_rvalue(c, value);
-	LLVMValueRef index = value->value;
-	if (start_from_end)
-	{
-		index = LLVMBuildNUWSub(c->builder, llvm_const_int(c, value->type, vec->array.len), index, "");
-	}
+	// Now let's get the subscript
+	LLVMValueRef index = llvm_emit_vector_index(c, vec, expr);
 
 	// We're now done, we can extract the current value:
 	BEValue current_res;
@@ -4394,9 +4402,7 @@ static void llvm_emit_vector_assign_expr(GenContext *c, BEValue *be_value, Expr
 		return;
 	}
 	// Emit the index
-	BEValue index;
-	llvm_emit_exprid(c, &index, left->subscript_expr.index.expr);
-	LLVMValueRef index_val = llvm_load_value_store(c, &index);
+	LLVMValueRef index_val = llvm_emit_vector_index(c, type_lowering(addr.type), left);
 	if (binary_op > BINARYOP_ASSIGN)
 	{
 		BinaryOp base_op = binaryop_assign_base_op(binary_op);
-- 
2.43.0


From ba7d0635cf13dc4614e67ebcbe9774e825805c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:33 +0000
Subject: [PATCH 06/35] fix: safe mode accepted slicing with a negative or
 overflowing length

---
 src/compiler/llvm_codegen_expr.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 366bc3e..266d4b3 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -2706,6 +2706,19 @@ static void llvm_emit_slice_values(GenContext *c, Expr *slice, BEValue *parent_r
 		}
 		if (is_len_range)
 		{
+			if (safe_mode_enabled() && range.range_type == RANGE_DYNAMIC)
+			{
+				// A negative length is not allowed, and the sum below may only wrap if the length exceeds what remains.
+				llvm_emit_trap_negative(c, exprptr(range.end), end_index.value, "Negative length (%d)", &end_index);
+				if (len.value)
+				{
+					BEValue remaining = len;
+					remaining.value = llvm_emit_sub_int(c, len.type, len.value, start_index.value, slice->span);
+					BEValue excess;
+					llvm_emit_int_comp(c, &excess, &remaining, &end_index, BINARYOP_LT);
+					llvm_emit_panic_if_true(c, &excess, "Slice length out of bounds", slice->span, "Slice length out of bounds (length of %d exceeds the remaining %d)", &end_index, &remaining);
+				}
+			}
 			end_index.value = llvm_emit_add_int(c, end_index.type, start_index.value, end_index.value, slice->span);
 		}
 
@@ -2714,7 +2727,7 @@ static void llvm_emit_slice_values(GenContext *c, Expr *slice, BEValue *parent_r
 		{
 			if (is_len_range)
 			{
-				if (len.value)
+				if (len.value && range.range_type != RANGE_DYNAMIC)
 				{
 					BEValue excess;
 					llvm_emit_int_comp(c, &excess, &len, &end_index, BINARYOP_LT);
-- 
2.43.0


From 4d8d7abc800e858c25d4be55b9724b0111e8e232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:17 +0000
Subject: [PATCH 07/35] fix: a shift amount wider than the shifted value was
 truncated before its range check

---
 src/compiler/llvm_codegen_expr.c | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 266d4b3..c47d6c5 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -2571,6 +2571,30 @@ static void llvm_emit_trap_invalid_shift(GenContext *c, LLVMValueRef value, Type
 	}
 }
 
+/**
+ * Check the shift amount and give it the type of the shifted value. An amount wider than the value must be
+ * checked before it is truncated.
+ */
+static LLVMValueRef llvm_emit_shift_amount(GenContext *c, LLVMValueRef amount, Type *amount_type, LLVMValueRef shifted, Type *shifted_type, SourceSpan loc)
+{
+	LLVMTypeRef shifted_llvm_type = LLVMTypeOf(shifted);
+	amount_type = type_flatten(amount_type);
+	if (safe_mode_enabled() && !LLVMIsConstant(amount) && LLVMGetTypeKind(shifted_llvm_type) == LLVMIntegerTypeKind
+	    && type_is_integer(amount_type) && type_size(amount_type) > type_size(shifted_type))
+	{
+		BEValue val;
+		llvm_value_set(&val, amount, amount_type);
+		// Unsigned comparison also catches the negative amounts.
+		LLVMValueRef max = llvm_const_int(c, amount_type, type_size(shifted_type) * 8);
+		LLVMValueRef exceeds = LLVMBuildICmp(c->builder, LLVMIntUGE, amount, max, "shift_exceeds");
+		llvm_emit_panic_on_true(c, exceeds, "Invalid shift", loc, "Shift amount out of range (was %s).", &val, NULL);
+		return llvm_zext_trunc(c, amount, shifted_llvm_type);
+	}
+	amount = llvm_zext_trunc(c, amount, shifted_llvm_type);
+	llvm_emit_trap_invalid_shift(c, amount, shifted_type, "Shift amount out of range (was %s).", loc);
+	return amount;
+}
+
 static void llvm_emit_slice_values(GenContext *c, Expr *slice, BEValue *parent_ref, BEValue *start_ref, BEValue *end_ref, bool *is_exclusive)
 {
 	ASSERT(slice->expr_kind == EXPR_SLICE);
@@ -4124,16 +4148,14 @@ void llvm_emit_binary(GenContext *c, BEValue *be_value, Expr *expr, BEValue *lhs
 				  : LLVMBuildSRem(c->builder, lhs_value, rhs_value, "smod");
 			break;
 		case BINARYOP_SHR:
-			rhs_value = llvm_zext_trunc(c, rhs_value, LLVMTypeOf(lhs_value));
-			llvm_emit_trap_invalid_shift(c, rhs_value, lhs_type, "Shift amount out of range (was %s).", expr->span);
+			rhs_value = llvm_emit_shift_amount(c, rhs_value, rhs_type, lhs_value, lhs_type, expr->span);
 			val = type_is_unsigned(lhs_type)
 				  ? LLVMBuildLShr(c->builder, lhs_value, rhs_value, "lshr")
 				  : LLVMBuildAShr(c->builder, lhs_value, rhs_value, "ashr");
 			val = LLVMBuildFreeze(c->builder, val, "");
 			break;
 		case BINARYOP_SHL:
-			rhs_value = llvm_zext_trunc(c, rhs_value, LLVMTypeOf(lhs_value));
-			llvm_emit_trap_invalid_shift(c, rhs_value, lhs_type, "Shift amount out of range (was %s).", expr->span);
+			rhs_value = llvm_emit_shift_amount(c, rhs_value, rhs_type, lhs_value, lhs_type, expr->span);
 			val = LLVMBuildShl(c->builder, lhs_value, rhs_value, "shl");
 			val = LLVMBuildFreeze(c->builder, val, "");
 			break;
-- 
2.43.0


From 0dbd5a7d7bcb709e298a8b6ba1e31f0e449aadf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:57 +0000
Subject: [PATCH 08/35] fix: UTF-16 to UTF-8 conversion counted four bytes per
 surrogate, to_utf16/to_utf32 leaked on malformed input

---
 lib/std/core/conv.c3   | 3 ++-
 lib/std/core/string.c3 | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/std/core/conv.c3 b/lib/std/core/conv.c3
index 07fd227..266c02e 100644
--- a/lib/std/core/conv.c3
+++ b/lib/std/core/conv.c3
@@ -251,7 +251,8 @@ fn usz utf8len_for_utf16(Char16[] utf16)
 			len += 3;
 			continue;
 		}
-		len += 4;
+		// Each half of a surrogate pair.
+		len += 2;
 	}
 	return len;
 }
diff --git a/lib/std/core/string.c3 b/lib/std/core/string.c3
index 547bfa0..4104164 100644
--- a/lib/std/core/string.c3
+++ b/lib/std/core/string.c3
@@ -563,6 +563,7 @@ fn Char16[]? String.to_utf16(self, Allocator allocator)
 {
 	usz len16 = conv::utf16len_for_utf8(self);
 	Char16* data = allocator::alloc_array_try(allocator, Char16, len16 + 1)!;
+	defer catch allocator::free(allocator, data);
 	conv::utf8to16_unsafe(self, data)!;
 	data[len16] = 0;
 	return data[:len16];
@@ -581,6 +582,7 @@ fn Char32[]? String.to_utf32(self, Allocator allocator)
 {
 	usz codepoints = conv::utf8_codepoints(self);
 	Char32* data = allocator::alloc_array_try(allocator, Char32, codepoints + 1)!;
+	defer catch allocator::free(allocator, data);
 	conv::utf8to32_unsafe(self, data)!;
 	data[codepoints] = 0;
 	return data[:codepoints];
-- 
2.43.0


From 7e3114bfce122dbd94a64786c2c8c73137d10cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:22 +0000
Subject: [PATCH 09/35] fix: base32 decoding rejects malformed padding and
 bounds its output

---
 lib/std/encoding/base32.c3 | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lib/std/encoding/base32.c3 b/lib/std/encoding/base32.c3
index efc346d..14ba3c2 100644
--- a/lib/std/encoding/base32.c3
+++ b/lib/std/encoding/base32.c3
@@ -93,7 +93,7 @@ fn char[]? decode_buffer(char[] src, char[] dst, char padding = DEFAULT_PAD, Bas
 	usz dn = decode_len(src.len, padding);
 	usz n;
 	char[8] buf;
-	while (src.len > 0 && dst.len > 0)
+	while (src.len > 0)
 	{
 		usz i @noinit;
 		// load 8 bytes into buffer
@@ -104,12 +104,22 @@ fn char[]? decode_buffer(char[] src, char[] dst, char padding = DEFAULT_PAD, Bas
 				if (padding > 0) return encoding::INVALID_PADDING?;
 				break;
 			}
-			if (src[0] == padding) break;
+			if (padding > 0 && src[0] == padding) break;
 			buf[i] = alphabet.reverse[src[0]];
 			if (buf[i] == INVALID) return encoding::INVALID_CHARACTER?;
 			src = src[1..];
 		}
 
+		if (i < 8 && padding > 0)
+		{
+			// The last group: only its padding may follow.
+			if (src.len != 8 - i) return encoding::INVALID_PADDING?;
+			foreach (c : src)
+			{
+				if (c != padding) return encoding::INVALID_PADDING?;
+			}
+		}
+
 		// extract 5-bytes from the buffer which contains 8 x 5 bit chunks
 		switch (i)
 		{
@@ -152,7 +162,7 @@ fn char[]? decode_buffer(char[] src, char[] dst, char padding = DEFAULT_PAD, Bas
 			default:
 				return encoding::INVALID_CHARACTER?;
 		}
-		if (dst.len < 5) break;
+		if (i < 8) break;
 		dst = dst[5..];
 	}
 	return dst_ptr[:n];
-- 
2.43.0


From eb1eeff5bfa4f11de4b61cc583fb30f5abe4cf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:43 +0000
Subject: [PATCH 10/35] fix: SHA-256 lost the length of pieces of 512 MB and
 more, SHA-1 overflowed its piece arithmetic near 4 GB

---
 lib/std/hash/sha1.c3   | 4 ++--
 lib/std/hash/sha256.c3 | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/std/hash/sha1.c3 b/lib/std/hash/sha1.c3
index b4afade..8c2da92 100644
--- a/lib/std/hash/sha1.c3
+++ b/lib/std/hash/sha1.c3
@@ -56,12 +56,12 @@ fn void Sha1.update(&self, char[] data)
 	self.count[1] += len >> 29;
 	j = (j >> 3) & 63;
 	uint i;
-	if (j + len > 63)
+	if (len > 63 - j)
 	{
 		i = 64 - j;
 		self.buffer[j..] = data[:i];
 		sha1_transform(&self.state, &self.buffer);
-		for (; i + 63 < len; i += 64)
+		for (; len - i > 63; i += 64)
 		{
 			sha1_transform(&self.state, &data[i]);
 		}
diff --git a/lib/std/hash/sha256.c3 b/lib/std/hash/sha256.c3
index 46ea81f..b28a363 100644
--- a/lib/std/hash/sha256.c3
+++ b/lib/std/hash/sha256.c3
@@ -71,7 +71,7 @@ fn void Sha256.update(&self, char[] data) {
     uint i = 0;
     uint len = data.len;
     uint buffer_pos = (uint)(self.bitcount / 8) % BLOCK_SIZE;
-    self.bitcount += (ulong)(len * 8);
+    self.bitcount += (ulong)len * 8;
 
     while (len--) {
         self.buffer[buffer_pos++] = data[i++];
-- 
2.43.0


From e77d39a9b24681606086c75df079c4fd737d5ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:42 +0000
Subject: [PATCH 11/35] fix: RingBuffer push, pop, read and write once the
 buffer has wrapped

push after a pop from a full buffer, pop from a full buffer and read past the
wrap used positions relative to the start of the array rather than to head.
---
 lib/std/collections/ringbuffer.c3 | 67 ++++++-------------------------
 1 file changed, 13 insertions(+), 54 deletions(-)

diff --git a/lib/std/collections/ringbuffer.c3 b/lib/std/collections/ringbuffer.c3
index 51c9bb5..85224d8 100644
--- a/lib/std/collections/ringbuffer.c3
+++ b/lib/std/collections/ringbuffer.c3
@@ -22,7 +22,7 @@ fn void RingBuffer.push(&self, Element c)
 {
 	if (self.written < self.buf.len)
 	{
-		self.buf[self.written] = c;
+		self.buf[(self.head + self.written) % self.buf.len] = c;
 		self.written++;
 	}
 	else
@@ -45,17 +45,9 @@ fn Element RingBuffer.get(&self, usz index) @operator([])
 
 fn Element? RingBuffer.pop(&self)
 {
-	switch
-	{
-		case self.written == 0:
-			return NO_MORE_ELEMENT?;
-		case self.written < self.buf.len:
-			self.written--;
-			return self.buf[self.written];
-		default:
-			self.head = (self.head - 1) % self.buf.len;
-			return self.buf[self.head];
-	}
+	if (self.written == 0) return NO_MORE_ELEMENT?;
+	self.written--;
+	return self.buf[(self.head + self.written) % self.buf.len];
 }
 
 fn usz? RingBuffer.to_format(&self, Formatter* format) @dynamic
@@ -67,49 +59,16 @@ fn usz? RingBuffer.to_format(&self, Formatter* format) @dynamic
 fn usz RingBuffer.read(&self, usz index, Element[] buffer)
 {
 	index %= self.buf.len;
-	if (self.written < self.buf.len)
-	{
-		if (index >= self.written) return 0;
-		usz end = self.written - index;
-		usz n = min(end, buffer.len);
-		buffer[:n] = self.buf[index:n];
-		return n;
-	}
-	usz end = self.buf.len - self.head;
-	if (index >= end)
-	{
-		index -= end;
-		if (index >= self.head) return 0;
-		usz n = min(self.head - index, buffer.len);
-		buffer[:n] = self.buf[index:n];
-		return n;
-	}
-	if (buffer.len <= self.buf.len - index)
-	{
-		usz n = buffer.len;
-		buffer[:n] = self.buf[self.head + index:n];
-		return n;
-	}
-	usz n1 = self.buf.len - index;
-	buffer[:n1] = self.buf[self.head + index:n1];
-	buffer = buffer[n1..];
-	index -= n1;
-	usz n2 = min(self.head - index, buffer.len);
-	buffer[:n2] = self.buf[index:n2];
-	return n1 + n2;
+	if (index >= self.written) return 0;
+	usz n = min(self.written - index, buffer.len);
+	usz start = (self.head + index) % self.buf.len;
+	usz n1 = min(self.buf.len - start, n);
+	buffer[:n1] = self.buf[start:n1];
+	buffer[n1:n - n1] = self.buf[:n - n1];
+	return n;
 }
 
 fn void RingBuffer.write(&self, Element[] buffer)
 {
-	usz i;
-	while (self.written < self.buf.len && i < buffer.len)
-	{
-		self.buf[self.written] = buffer[i++];
-		self.written++;
-	}
-	foreach (c : buffer[i..])
-	{
-		self.buf[self.head] = c;
-		self.head = (self.head + 1) % self.buf.len;
-	}
-}
\ No newline at end of file
+	foreach (c : buffer) self.push(c);
+}
-- 
2.43.0


From 0515d3743301ccddfdaa7d31bd8e05bfd3c0963d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:42 +0000
Subject: [PATCH 12/35] fix: PriorityQueue.remove_at kept the heap order

Removing from the middle of the array shifted every later element to another
parent. Move the last element to the hole and restore the order there.
---
 lib/std/collections/priorityqueue.c3 | 33 ++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/lib/std/collections/priorityqueue.c3 b/lib/std/collections/priorityqueue.c3
index 253a050..a05b025 100644
--- a/lib/std/collections/priorityqueue.c3
+++ b/lib/std/collections/priorityqueue.c3
@@ -50,7 +50,14 @@ fn PrivatePriorityQueue* PrivatePriorityQueue.tinit(&self, usz initial_capacity
 fn void PrivatePriorityQueue.push(&self, Type element)
 {
 	self.heap.push(element);
-	usz i = self.heap.len() - 1;
+	self.sift_up(self.heap.len() - 1);
+}
+
+<*
+ Move the element at i towards the root until its parent is not worse.
+*>
+fn void PrivatePriorityQueue.sift_up(&self, usz i) @private
+{
 	while (i > 0)
 	{
 		usz parent = (i - 1) / 2;
@@ -77,18 +84,32 @@ fn void PrivatePriorityQueue.remove_at(&self, usz index)
 		self.pop()!!;
 		return;
 	}
-	self.heap.remove_at(index);
+	usz last = self.heap.len() - 1;
+	self.heap.swap(index, last);
+	self.heap.remove_at(last);
+	if (index == last) return;
+	// The element that took the place may belong on either side of it.
+	self.sift_down(index, last);
+	self.sift_up(index);
 }
+
 <*
  @require self != null
 *>
 fn Type? PrivatePriorityQueue.pop(&self)
 {
-	usz i = 0;
 	usz len = self.heap.len();
 	if (!len) return NO_MORE_ELEMENT?;
-	usz new_count = len - 1;
-	self.heap.swap(0, new_count);
+	self.heap.swap(0, len - 1);
+	self.sift_down(0, len - 1);
+	return self.heap.pop();
+}
+
+<*
+ Move the element at i of the first new_count elements away from the root until its children are not better.
+*>
+fn void PrivatePriorityQueue.sift_down(&self, usz i, usz new_count) @private
+{
 	while OUTER: ((2 * i + 1) < new_count)
 	{
 		usz j = 2 * i + 1;
@@ -116,8 +137,6 @@ fn Type? PrivatePriorityQueue.pop(&self)
 		self.heap.swap(i, j);
 		i = j;
 	}
-
-	return self.heap.pop();
 }
 
 fn Type? PrivatePriorityQueue.first(&self)
-- 
2.43.0


From 9a5ed13b71e3524b6829cb90701329853acfb725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:42 +0000
Subject: [PATCH 13/35] fix: quickselect on one element and after 64 partitions

A list of one element was refused, and so was one that needs more than 64
partitions (a sorted list of 200 elements).
---
 lib/std/sort/quicksort.c3 | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/std/sort/quicksort.c3 b/lib/std/sort/quicksort.c3
index dc558a1..293e288 100644
--- a/lib/std/sort/quicksort.c3
+++ b/lib/std/sort/quicksort.c3
@@ -87,14 +87,13 @@ fn void qsort(Type list, isz low, isz high, CmpFn cmp, Context context)
 *>
 fn ElementType? qselect(Type list, isz low, isz high, isz k, CmpFn cmp, Context context)
 {
-	if (low >= 0 && high >= 0 && low < high)
+	if (low >= 0 && high >= 0 && low <= high)
 	{
 		isz l = low;
 		isz h = high;
 		isz pivot;
 
-		usz max_retries = 64;
-		while (l <= h && max_retries--)
+		while (l <= h)
 		{
 			pivot = @partition(list, l, h, cmp, context);
 			if (k == pivot) return list[k];
-- 
2.43.0


From e9debd6b887ec307521ecf83fca195e0bf918611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:42 +0000
Subject: [PATCH 14/35] fix: countingsort with 8 and 16 bit keys did not
 compile

---
 lib/std/sort/countingsort.c3 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/std/sort/countingsort.c3 b/lib/std/sort/countingsort.c3
index e2d2309..681c6f3 100644
--- a/lib/std/sort/countingsort.c3
+++ b/lib/std/sort/countingsort.c3
@@ -57,7 +57,7 @@ fn void csort(Type list, usz low, usz high, KeyFn key_fn, uint byte_idx)
 	Ranges ranges;
 	Indexs indexs;
 
-	KeyFnReturnType mn = ~(KeyFnReturnType)0;
+	KeyFnReturnType mn = (KeyFnReturnType)~(KeyFnReturnType)0;
 	KeyFnReturnType mx = 0;
 
 	char last_key = 0;
-- 
2.43.0


From d1b5fb432d7e225ae100dcd0e22039ad0ad74bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:27 +0000
Subject: [PATCH 15/35] fix: EnumSet of more than 128 or between 33 and 128
 values, GrowableBitSet over other types than uint

EnumSet.has looked at the wrong bit in the array representation, and shifting a
32 bit one did not compile for wider sets.
---
 lib/std/collections/bitset.c3  | 6 +++---
 lib/std/collections/enumset.c3 | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/std/collections/bitset.c3 b/lib/std/collections/bitset.c3
index 4d91721..26abc84 100644
--- a/lib/std/collections/bitset.c3
+++ b/lib/std/collections/bitset.c3
@@ -218,7 +218,7 @@ fn void GrowableBitSet.set(&self, usz i)
 		self.data.push(0);
 		current_len++;
 	}
-	self.data.set(q, self.data[q] | (1 << r));
+	self.data.set(q, (Type)(self.data[q] | ((Type)1 << r)));
 }
 
 fn void GrowableBitSet.unset(&self, usz i)
@@ -226,7 +226,7 @@ fn void GrowableBitSet.unset(&self, usz i)
 	usz q = i / BITS;
 	usz r = i % BITS;
 	if (q >= self.data.len()) return;
-	self.data.set(q, self.data[q] &~ (1 << r));
+	self.data.set(q, (Type)(self.data[q] &~ ((Type)1 << r)));
 }
 
 fn bool GrowableBitSet.get(&self, usz i) @operator([]) @inline
@@ -234,7 +234,7 @@ fn bool GrowableBitSet.get(&self, usz i) @operator([]) @inline
 	usz q = i / BITS;
 	usz r = i % BITS;
 	if (q >= self.data.len()) return false;
-	return self.data[q] & (1 << r) != 0;
+	return self.data[q] & ((Type)1 << r) != 0;
 }
 
 fn usz GrowableBitSet.len(&self) @operator(len)
diff --git a/lib/std/collections/enumset.c3 b/lib/std/collections/enumset.c3
index 416927e..c95f305 100644
--- a/lib/std/collections/enumset.c3
+++ b/lib/std/collections/enumset.c3
@@ -18,7 +18,7 @@ fn void EnumSet.add(&self, Enum v)
 	$if IS_CHAR_ARRAY:
 		(*self)[(usz)v.ordinal / 8] |= (char)(1u << ((usz)v.ordinal % 8));
 	$else
-		*self = (EnumSet)((EnumSetType)*self | 1u << (EnumSetType)v.ordinal);
+		*self = (EnumSet)((EnumSetType)*self | (EnumSetType)((EnumSetType)1 << (EnumSetType)v.ordinal));
 	$endif
 }
 
@@ -39,7 +39,7 @@ fn bool EnumSet.remove(&self, Enum v)
 		return true;
 	$else
 		EnumSetType old = (EnumSetType)*self;
-		EnumSetType new = old & ~(1u << (EnumSetType)v.ordinal);
+		EnumSetType new = (EnumSetType)(old & ~((EnumSetType)1 << (EnumSetType)v.ordinal));
 		*self = (EnumSet)new;
 		return old != new;
 	$endif
@@ -48,9 +48,9 @@ fn bool EnumSet.remove(&self, Enum v)
 fn bool EnumSet.has(&self, Enum v)
 {
 	$if IS_CHAR_ARRAY:
-		return (bool)(((*self)[(usz)v.ordinal / 8] << ((usz)v.ordinal % 8)) & 0x01);
+		return (bool)(((*self)[(usz)v.ordinal / 8] >> ((usz)v.ordinal % 8)) & 0x01);
 	$else
-		return ((EnumSetType)*self & (1u << (EnumSetType)v.ordinal)) != 0;
+		return ((EnumSetType)*self & ((EnumSetType)1 << (EnumSetType)v.ordinal)) != 0;
 	$endif
 }
 
-- 
2.43.0


From 58f3e9458a6a459bbc8ed5c83ef09b03633955fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:56 +0000
Subject: [PATCH 16/35] fix: division, remainder and right shift of unsigned
 vectors used the signed operation

---
 src/compiler/llvm_codegen_expr.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index c47d6c5..b820891 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -4057,6 +4057,7 @@ void llvm_emit_binary(GenContext *c, BEValue *be_value, Expr *expr, BEValue *lhs
 	Type *rhs_type = rhs.type;
 	Type *vector_type = lhs_type->type_kind == TYPE_VECTOR ? lhs_type->array.base : NULL;
 	bool is_float = type_is_float(lhs_type) || (vector_type && type_is_float(vector_type));
+	bool is_unsigned = type_is_unsigned(vector_type ? vector_type : lhs_type);
 	LLVMValueRef val = NULL;
 	LLVMValueRef lhs_value = lhs.value;
 	LLVMValueRef rhs_value = rhs.value;
@@ -4132,24 +4133,24 @@ void llvm_emit_binary(GenContext *c, BEValue *be_value, Expr *expr, BEValue *lhs
 				val = LLVMBuildFDiv(c->builder, lhs_value, rhs_value, "fdiv");
 				break;
 			}
-			val = type_is_unsigned(lhs_type)
+			val = is_unsigned
 				  ? LLVMBuildUDiv(c->builder, lhs_value, rhs_value, "udiv")
 				  : LLVMBuildSDiv(c->builder, lhs_value, rhs_value, "sdiv");
 			break;
 		case BINARYOP_MOD:
 			llvm_emit_trap_zero(c, rhs_type, rhs_value, "% by zero.", expr->span);
-			if (type_is_float(lhs_type))
+			if (is_float)
 			{
 				val = LLVMBuildFRem(c->builder, lhs_value, rhs_value, "fmod");
 				break;
 			}
-			val = type_is_unsigned(lhs_type)
+			val = is_unsigned
 				  ? LLVMBuildURem(c->builder, lhs_value, rhs_value, "umod")
 				  : LLVMBuildSRem(c->builder, lhs_value, rhs_value, "smod");
 			break;
 		case BINARYOP_SHR:
 			rhs_value = llvm_emit_shift_amount(c, rhs_value, rhs_type, lhs_value, lhs_type, expr->span);
-			val = type_is_unsigned(lhs_type)
+			val = is_unsigned
 				  ? LLVMBuildLShr(c->builder, lhs_value, rhs_value, "lshr")
 				  : LLVMBuildAShr(c->builder, lhs_value, rhs_value, "ashr");
 			val = LLVMBuildFreeze(c->builder, val, "");
-- 
2.43.0


From a98d186d6ffdcc26ff0e865f571f24fdb5067d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:56 +0000
Subject: [PATCH 17/35] fix: $$exact_mod of unsigned operands divided

---
 src/compiler/llvm_codegen_builtins.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/llvm_codegen_builtins.c b/src/compiler/llvm_codegen_builtins.c
index 6e78317..df0f01b 100644
--- a/src/compiler/llvm_codegen_builtins.c
+++ b/src/compiler/llvm_codegen_builtins.c
@@ -675,7 +675,7 @@ static void llvm_emit_wrap_builtin(GenContext *c, BEValue *result_value, Expr *e
 			}
 			else
 			{
-				res = LLVMBuildSDiv(c->builder, arg_slots[0], arg_slots[1], "esmod");
+				res = LLVMBuildURem(c->builder, arg_slots[0], arg_slots[1], "emod");
 			}
 			break;
 		default:
-- 
2.43.0


From 45ffe66bd4839decdb161ddbed5f669a611c5ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:04 +0000
Subject: [PATCH 18/35] fix: safe mode bounds check of ^index was optimised
 away when the index wrapped

---
 src/compiler/llvm_codegen_expr.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index b820891..d429501 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -670,6 +670,15 @@ static inline void llvm_emit_subscript_addr_with_base(GenContext *c, BEValue *re
 	}
 }
 
+/**
+ * Emit the index len - index of ^index. In safe mode the result is checked, so it may not be poison if it wraps.
+ */
+static LLVMValueRef llvm_emit_index_from_end(GenContext *c, LLVMValueRef len, LLVMValueRef index)
+{
+	if (safe_mode_enabled()) return LLVMBuildSub(c->builder, len, index, "");
+	return LLVMBuildNUWSub(c->builder, len, index, "");
+}
+
 /**
  * Emit the index of a vector subscript, handling ^index and (in safe mode) the bounds check.
  */
@@ -682,7 +691,7 @@ static LLVMValueRef llvm_emit_vector_index(GenContext *c, Type *vec, Expr *expr)
 	LLVMValueRef len = llvm_const_int(c, index.type, vec->array.len);
 	if (expr->subscript_expr.index.start_from_end)
 	{
-		index.value = LLVMBuildNUWSub(c->builder, len, index.value, "");
+		index.value = llvm_emit_index_from_end(c, len, index.value);
 	}
 	if (safe_mode_enabled() && !llvm_is_global_eval(c) && !LLVMIsConstant(index.value))
 	{
@@ -752,7 +761,7 @@ static inline void llvm_emit_subscript_addr(GenContext *c, BEValue *value, Expr
 	if (start_from_end)
 	{
 		ASSERT(needs_len);
-		index.value = LLVMBuildNUWSub(c->builder, llvm_zext_trunc(c, len.value, llvm_get_type(c, index.type)), index.value, "");
+		index.value = llvm_emit_index_from_end(c, llvm_zext_trunc(c, len.value, llvm_get_type(c, index.type)), index.value);
 	}
 	if (needs_len && safe_mode_enabled() && !llvm_is_global_eval(c))
 	{
-- 
2.43.0


From 3fbb8294f981de77dbd9382e8aec27f926e95ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:04 +0000
Subject: [PATCH 19/35] fix: ++ and -- of a vector element was undefined on
 overflow

---
 src/compiler/llvm_codegen_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index d429501..4fe80eb 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -2256,7 +2256,7 @@ static inline void llvm_emit_pre_post_inc_dec_vector(GenContext *c, BEValue *val
 	llvm_value_set(&current_res, LLVMBuildExtractElement(c->builder, vector, index, ""), element);
 
 	// Calculate the new value.
-	LLVMValueRef new_value = llvm_emit_inc_dec_value(c, expr->span, &current_res, diff, false);
+	LLVMValueRef new_value = llvm_emit_inc_dec_value(c, expr->span, &current_res, diff, true);
 
 	// We update the vector value.
 	vector = LLVMBuildInsertElement(c->builder, vector, new_value, index, "");
-- 
2.43.0


From 9dc2b5ce28c84cc7a22851f8eff08acc9ca90269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:58 +0000
Subject: [PATCH 20/35] fix: do not run the body of a loop whose condition is
 constant false

while (false) { ... } and for (...; false; ...) emitted the body (and the
increment) once, as if it were a do-while loop.
---
 src/compiler/llvm_codegen_stmt.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/compiler/llvm_codegen_stmt.c b/src/compiler/llvm_codegen_stmt.c
index 1ba7052..db448cd 100644
--- a/src/compiler/llvm_codegen_stmt.c
+++ b/src/compiler/llvm_codegen_stmt.c
@@ -518,6 +518,13 @@ void llvm_emit_for_stmt(GenContext *c, Ast *ast)
 	Expr *cond = cond_id ? exprptr(cond_id) : NULL;
 	LoopType loop = loop_type_for_cond(cond, skip_first);
 
+	// The condition is tested first and is always false: neither the body nor the increment is reached.
+	if (loop == LOOP_NONE && !skip_first)
+	{
+		DEBUG_POP_LEXICAL_SCOPE(c);
+		return;
+	}
+
 	// This is the starting block to loop back to, and may either be cond, body or inc
 	LLVMBasicBlockRef loop_start_block = body_block ? body_block : inc_block;
 
-- 
2.43.0


From e6edcb18633ea3c6bfa0d884ca4be47b33107872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:34 +0000
Subject: [PATCH 21/35] fix: compute case distances of a switch without
 wrapping

The distance between two cases was computed in the type switched over, so
case int.min..int.max looked like a small range (the compiler then added
4 billion cases) and a @jump switch over ichar asserted. The offset into
the jump table was also sign extended.
---
 src/compiler/llvm_codegen_stmt.c | 24 +++++++++++++++---------
 src/compiler/sema_stmts.c        | 12 +++++++-----
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/compiler/llvm_codegen_stmt.c b/src/compiler/llvm_codegen_stmt.c
index db448cd..52f87a3 100644
--- a/src/compiler/llvm_codegen_stmt.c
+++ b/src/compiler/llvm_codegen_stmt.c
@@ -785,7 +785,14 @@ static LLVMValueRef llvm_emit_switch_jump_stmt(GenContext *c,
 	llvm_emit_block(c, switch_block);
 	AlignSize align;
 	LLVMTypeRef type = LLVMArrayType(c->ptr_type, count);
-	LLVMValueRef index = llvm_emit_array_gep_raw_index(c, jump_table, type, switch_value, llvm_abi_alignment(c, type), &align);
+	// The index is an unsigned offset, which may be too big for the signed type switched over.
+	BEValue index_value = *switch_value;
+	ByteSize index_size = type_size(index_value.type);
+	if (index_size < type_size(type_usz) && count > (1ULL << (index_size * 8 - 1)))
+	{
+		llvm_value_set(&index_value, llvm_zext_trunc(c, index_value.value, llvm_get_type(c, type_usz)), type_usz);
+	}
+	LLVMValueRef index = llvm_emit_array_gep_raw_index(c, jump_table, type, &index_value, llvm_abi_alignment(c, type), &align);
 	LLVMValueRef addr = llvm_load(c, c->ptr_type, index, align, "target");
 	LLVMValueRef instr = LLVMBuildIndirectBr(c->builder, addr, case_count);
 	c->current_block = NULL;
@@ -863,10 +870,11 @@ static void llvm_emit_switch_jump_table(GenContext *c,
 	}
 	switch_ast->switch_stmt.codegen.jump.default_index = default_index;
 	switch_ast->switch_stmt.codegen.jump.min_index = min_index;
-	max = int_sub(max, min);
-	ASSERT(max.i.low <= 0xFFFF);
-	uint64_t count = switch_ast->switch_stmt.codegen.jump.count = max.i.low + 1;
-	ASSERT(!max.i.high && "Should never exceed 64 bytes");
+	// The distance may not fit in the (signed) type itself.
+	Int128 range = i128_sub(max.i, min.i);
+	ASSERT(range.low <= 0xFFFF);
+	uint64_t count = switch_ast->switch_stmt.codegen.jump.count = range.low + 1;
+	ASSERT(!range.high && "Should never exceed 64 bytes");
 
 	Type *goto_array_type = type_get_array(type_voidptr, count);
 	LLVMTypeRef llvm_array_type = llvm_get_type(c, goto_array_type);
@@ -898,10 +906,8 @@ static void llvm_emit_switch_jump_table(GenContext *c,
 		{
 			Int value, to_value;
 			llvm_set_jump_table_values(case_stmt->case_stmt.expr, case_stmt->case_stmt.to_expr, &value, &to_value);
-			value = int_sub(value, min);
-			to_value = int_sub(to_value, min);
-			uint64_t from_val = value.i.low;
-			uint64_t to_val = to_value.i.low;
+			uint64_t from_val = i128_sub(value.i, min.i).low;
+			uint64_t to_val = i128_sub(to_value.i, min.i).low;
 			for (uint64_t j = from_val; j <= to_val; j++)
 			{
 				refs[j] = LLVMBlockAddress(c->cur_func.ref, block);
diff --git a/src/compiler/sema_stmts.c b/src/compiler/sema_stmts.c
index 0f66871..3b86f31 100644
--- a/src/compiler/sema_stmts.c
+++ b/src/compiler/sema_stmts.c
@@ -2250,10 +2250,11 @@ static inline bool sema_check_value_case(SemaContext *context, Type *switch_type
 				              int_to_str(to_const_expr->ixx, 10, false));
 				return false;
 			}
-			Int128 range = int_sub(to_const_expr->ixx, const_expr->ixx).i;
+			// The size of the range may not fit in the (signed) type itself.
+			Int128 range = i128_sub(to_const_expr->ixx.i, const_expr->ixx.i);
 			Int128 max_range = { .low = compiler.build.switchrange_max_size };
 			*actual_cases_ref += range.low;
-			if (i128_comp(range, max_range, type_i128) == CMP_GT)
+			if (i128_comp(range, max_range, type_u128) == CMP_GT)
 			{
 				*max_ranged = true;
 			}
@@ -2419,9 +2420,10 @@ static bool sema_analyse_switch_body(SemaContext *context, Ast *statement, Sourc
 		max_ranged = false;
 		if (low.type != TYPE_POISONED)
 		{
-			Int range = int_sub(high, low);
-			Int max = { .i.low = compiler.build.switchjump_max_size, .type = range.type };
-			if (int_comp(range, max, BINARYOP_GE))
+			// The size of the range may not fit in the (signed) type itself.
+			Int128 range = i128_sub(high.i, low.i);
+			Int128 max = { .low = compiler.build.switchjump_max_size };
+			if (i128_comp(range, max, type_u128) != CMP_LT)
 			{
 				RETURN_SEMA_ERROR(statement, "The switch cannot use a jump table size of the table would exceed "
 				                             "the maximum allowed (%u), please remove '@jump'.", compiler.build.switchjump_max_size);
-- 
2.43.0


From d7f7a35d7b8d84869a7da2f4b420f15458e5d755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:56 +0000
Subject: [PATCH 22/35] fix: empty cases and defaults in @jump and if-chain
 switches

An empty default followed by a case did not continue in that case, and the
block an empty case continues in was missing from the indirectbr.
---
 src/compiler/llvm_codegen_stmt.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/compiler/llvm_codegen_stmt.c b/src/compiler/llvm_codegen_stmt.c
index 52f87a3..d45f50f 100644
--- a/src/compiler/llvm_codegen_stmt.c
+++ b/src/compiler/llvm_codegen_stmt.c
@@ -751,7 +751,8 @@ static void llvm_emit_switch_body_if_chain(GenContext *c,
 	}
 	else
 	{
-		llvm_emit_br(c, exit_block);
+		// An empty default continues in the case that follows it.
+		llvm_emit_br(c, default_case ? default_case->case_stmt.backend_block : exit_block);
 	}
 	llvm_emit_block(c, exit_block);
 	return;
@@ -845,7 +846,7 @@ static void llvm_emit_switch_jump_table(GenContext *c,
 		Ast *case_ast = cases[i];
 		if (case_ast->ast_kind == AST_DEFAULT_STMT)
 		{
-			if (!case_ast->case_stmt.body) continue;
+			// This is the following case or the exit if the default is empty.
 			default_block = case_ast->case_stmt.backend_block;
 			default_index = i;
 			continue;
@@ -912,8 +913,8 @@ static void llvm_emit_switch_jump_table(GenContext *c,
 			{
 				refs[j] = LLVMBlockAddress(c->cur_func.ref, block);
 			}
-			// No fallthrough
-			if (!case_stmt->case_stmt.body) continue;
+			// No fallthrough, unless it's to the default or the exit.
+			if (!case_stmt->case_stmt.body && block != default_block && block != exit_block) continue;
 			LLVMAddDestination(instr, block);
 		}
 		if (!case_stmt->case_stmt.body) continue;
@@ -1151,8 +1152,9 @@ void gencontext_emit_next_stmt(GenContext *context, Ast *ast)
 		                                                &be_value);
 		FOREACH(Ast *, case_ast, cases)
 		{
-			if (!case_ast->case_stmt.body) continue;
-			LLVMAddDestination(instr, case_ast->case_stmt.backend_block);
+			LLVMBasicBlockRef block = case_ast->case_stmt.backend_block;
+			if (!case_ast->case_stmt.body && block != exit_block) continue;
+			LLVMAddDestination(instr, block);
 		}
 		if (default_index < 0) LLVMAddDestination(instr, exit_block);
 
-- 
2.43.0


From dc909a34e5a31b56d02ca3a2e06da88834aa4856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:40 +0000
Subject: [PATCH 23/35] fix: detect a case range that contains an earlier case

Only the start of the later range was looked up in the earlier cases, so
'case 5:' followed by 'case 1..10:' was accepted and gave a switch
instruction with a duplicate case.
---
 src/compiler/sema_stmts.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compiler/sema_stmts.c b/src/compiler/sema_stmts.c
index 3b86f31..b29fb06 100644
--- a/src/compiler/sema_stmts.c
+++ b/src/compiler/sema_stmts.c
@@ -2268,7 +2268,9 @@ static inline bool sema_check_value_case(SemaContext *context, Type *switch_type
 		if (!sema_cast_const(other_expr)) continue;
 		ExprConst *other_const = &other_expr->const_expr;
 		ExprConst *other_to_const = other->case_stmt.to_expr ? &exprptr(other->case_stmt.to_expr)->const_expr : other_const;
-		if (expr_const_in_range(const_expr, other_const, other_to_const))
+		// Overlapping means that either starts inside of the other.
+		if (expr_const_in_range(const_expr, other_const, other_to_const)
+		    || expr_const_in_range(other_const, const_expr, to_const_expr))
 		{
 			SEMA_ERROR(case_stmt, "The same case value appears more than once.");
 			SEMA_NOTE(other, "Here is the previous use of that value.");
-- 
2.43.0


From a5dc51f08d8eec76f9013ea2a7efa5d58901aba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:06 +0000
Subject: [PATCH 24/35] fix: the end of a case range must be constant

It was read as a constant without checking that it is one.
---
 src/compiler/sema_stmts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/sema_stmts.c b/src/compiler/sema_stmts.c
index b29fb06..2fc68a2 100644
--- a/src/compiler/sema_stmts.c
+++ b/src/compiler/sema_stmts.c
@@ -2204,7 +2204,7 @@ static inline bool sema_check_value_case(SemaContext *context, Type *switch_type
 		*if_chained = true;
 		return true;
 	}
-	if (is_range && (!first_is_const || !(expr_is_const_int(expr) || expr_is_const_enum(expr))))
+	if (is_range && (!first_is_const || !sema_cast_const(to_expr) || !(expr_is_const_int(expr) || expr_is_const_enum(expr))))
 	{
 		sema_error_at(context, extend_span_with_token(expr->span, to_expr->span), "Ranges must be constant integers.");
 		return false;
-- 
2.43.0


From 56aba8069fbf49c32d448a6d9a3f576cbf53657f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:08 +0000
Subject: [PATCH 25/35] fix: nextcase in a @jump switch reads its value before
 the defers run

As in a regular switch. A variable was read after its defers could have
changed it.
---
 src/compiler/llvm_codegen_stmt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/llvm_codegen_stmt.c b/src/compiler/llvm_codegen_stmt.c
index d45f50f..102bc8c 100644
--- a/src/compiler/llvm_codegen_stmt.c
+++ b/src/compiler/llvm_codegen_stmt.c
@@ -1138,6 +1138,8 @@ void gencontext_emit_next_stmt(GenContext *context, Ast *ast)
 	llvm_emit_expr(context, &be_value, ast->nextcase_stmt.switch_expr);
 	if (jump_target->switch_stmt.flow.jump)
 	{
+		// The value is read before the defers run.
+		llvm_value_rvalue(context, &be_value);
 		llvm_emit_statement_chain(context, ast->nextcase_stmt.defer_id);
 		Ast **cases = jump_target->switch_stmt.cases;
 		int default_index = jump_target->switch_stmt.codegen.jump.default_index;
-- 
2.43.0


From 263cc9042e7e640acb2cbcc4423575d13e925f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:00 +0000
Subject: [PATCH 26/35] fix: writing a bitstruct member inside of one byte
 cleared the bits above it

For a char array bitstruct, the mask of the bits to keep used the bit's
position in the array rather than in the byte.
---
 src/compiler/llvm_codegen_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 4fe80eb..2a1ccbb 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -1103,7 +1103,7 @@ static inline void llvm_emit_update_bitstruct_array(GenContext *c,
 			if (i == end_byte && end_mod != 7)
 			{
 				res = llvm_emit_and_raw(c, res, llvm_const_low_bitmask(c, c->byte_type, 8, end_mod + 1));
-				mask = llvm_emit_or_raw(c, mask, llvm_const_high_bitmask(c, c->byte_type, 8, 7 - (int)end_bit));
+				mask = llvm_emit_or_raw(c, mask, llvm_const_high_bitmask(c, c->byte_type, 8, 7 - end_mod));
 			}
 			// Load the current value.
 			LLVMValueRef current = llvm_load(c, c->byte_type, byte_ptr, alignment, "");
-- 
2.43.0


From 71cd9b7eb6aff66c9c793c7527a2d7f9689deb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:32 +0000
Subject: [PATCH 27/35] fix: analyse the end of a bitstruct bit range

The start was analysed twice, so a constant end of the range was used
without having been resolved.
---
 src/compiler/sema_decls.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/sema_decls.c b/src/compiler/sema_decls.c
index 24f7582..e2714ea 100755
--- a/src/compiler/sema_decls.c
+++ b/src/compiler/sema_decls.c
@@ -825,7 +825,7 @@ static inline bool sema_analyse_bitstruct_member(SemaContext *context, Decl *par
 		if (end)
 		{
 			// Analyse the end
-			if (!sema_analyse_expr(context, start)) return false;
+			if (!sema_analyse_expr(context, end)) return false;
 			if (!sema_cast_const(end) || !type_is_integer(end->type) || int_is_neg(end->const_expr.ixx))
 			{
 				SEMA_ERROR(end, "This must be a constant non-negative integer value.");
-- 
2.43.0


From 189a63702c0346aaec9d8e9c8359238caa3507b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:54 +0000
Subject: [PATCH 28/35] fix: initializers, array casts and ! of bool vectors

---
 src/compiler/llvm_codegen_expr.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 2a1ccbb..b9c8565 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -1544,8 +1544,7 @@ static inline void llvm_emit_initialize_reference_vector(GenContext *c, BEValue
 	FOREACH_IDX(i, Expr *, element, elements)
 	{
 		llvm_emit_expr(c, &element_val, element);
-		llvm_value_rvalue(c, &element_val);
-		vector_val = LLVMBuildInsertElement(c->builder, vector_val, element_val.value, llvm_const_int(c, type_usz, i), "");
+		vector_val = LLVMBuildInsertElement(c->builder, vector_val, llvm_load_value_store(c, &element_val), llvm_const_int(c, type_usz, i), "");
 	}
 	llvm_store_raw(c, ref, vector_val);
 }
@@ -2415,7 +2414,7 @@ static void llvm_emit_unary_expr(GenContext *c, BEValue *value, Expr *expr)
 				}
 				else
 				{
-					llvm_value = LLVMBuildICmp(c->builder, LLVMIntEQ, value->value, llvm_get_zero(c, type), "not");
+					llvm_value = LLVMBuildICmp(c->builder, LLVMIntEQ, value->value, llvm_get_zero_raw(LLVMTypeOf(value->value)), "not");
 				}
 				Type *res_type = type_get_vector_bool(type);
 				llvm_value = LLVMBuildSExt(c->builder, llvm_value, llvm_get_type(c, res_type), "");
@@ -6245,8 +6244,7 @@ static inline void llvm_emit_vector_initializer_list(GenContext *c, BEValue *val
 		FOREACH_IDX(i, Expr *, element, elements)
 		{
 			llvm_emit_expr(c, &val, element);
-			llvm_value_rvalue(c, &val);
-			vec_value = llvm_update_vector(c, vec_value, val.value, (ArrayIndex)i);
+			vec_value = llvm_update_vector(c, vec_value, llvm_load_value_store(c, &val), (ArrayIndex)i);
 		}
 	}
 	else
@@ -6259,18 +6257,18 @@ static inline void llvm_emit_vector_initializer_list(GenContext *c, BEValue *val
 			ASSERT(vec_size(designator->designator_expr.path) == 1);
 			DesignatorElement *element = designator->designator_expr.path[0];
 			llvm_emit_expr(c, &val, designator->designator_expr.value);
-			llvm_value_rvalue(c, &val);
+			LLVMValueRef element_val = llvm_load_value_store(c, &val);
 			switch (element->kind)
 			{
 				case DESIGNATOR_ARRAY:
 				{
-					vec_value = llvm_update_vector(c, vec_value, val.value, element->index);
+					vec_value = llvm_update_vector(c, vec_value, element_val, element->index);
 					break;
 				}
 				case DESIGNATOR_RANGE:
 					for (ArrayIndex idx = element->index; idx <= element->index_end; idx++)
 					{
-						vec_value = llvm_update_vector(c, vec_value, val.value, idx);
+						vec_value = llvm_update_vector(c, vec_value, element_val, idx);
 					}
 					break;
 				case DESIGNATOR_FIELD:
@@ -6957,6 +6955,7 @@ static inline void llvm_emit_vector_to_array(GenContext *c, BEValue *value, Expr
 	for (unsigned i = 0; i < to_type->array.len; i++)
 	{
 		LLVMValueRef element = llvm_emit_extract_value(c, value->value, i);
+		if (value->kind == BE_BOOLVECTOR) element = LLVMBuildZExt(c->builder, element, c->byte_type, "");
 		array = llvm_emit_insert_value(c, array, element, i);
 	}
 	llvm_value_set(value, array, to_type);
-- 
2.43.0


From a544e324553cfa9fa37367dfc682b8b0010b790a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:06 +0000
Subject: [PATCH 29/35] fix: reject \U escapes that do not fit in UTF-8

---
 src/compiler/lexer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/lexer.c b/src/compiler/lexer.c
index 8c62fdd..0f0b503 100644
--- a/src/compiler/lexer.c
+++ b/src/compiler/lexer.c
@@ -877,6 +877,8 @@ static int append_esc_string_token(char *restrict dest, const char *restrict src
 			if (x8 < 0) return -1;
 			unicode_char = ((unsigned) x1 << 28U) + ((unsigned) x2 << 24U) + ((unsigned) x3 << 20U) + ((unsigned) x4 << 16U) +
 					((unsigned) x5 << 12U) + ((unsigned) x6 << 8U) + ((unsigned) x7 << 4U) + (unsigned)x8;
+			// Does not fit the longest UTF-8 encoding.
+			if (unicode_char > 0x1FFFFFU) return -1;
 			scanned = 9;
 			break;
 		}
-- 
2.43.0


From 9870e3aa93a282ad2f031acc859a5e8942554ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:06 +0000
Subject: [PATCH 30/35] fix: detect every decimal literal over 128 bits

---
 src/compiler/parse_expr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/parse_expr.c b/src/compiler/parse_expr.c
index d8ce055..720b111 100644
--- a/src/compiler/parse_expr.c
+++ b/src/compiler/parse_expr.c
@@ -1506,6 +1506,7 @@ Expr *parse_integer(ParseContext *c, Expr *left)
 						break;
 				}
 				uint64_t old_top = i.high;
+				if (old_top > UINT64_MAX / 10) wrapped = true;
 				i = i128_mult64(i, 10);
 				i = i128_add64(i, (uint64_t)(ch - '0'));
 				if (!wrapped && old_top > i.high) wrapped = true;
-- 
2.43.0


From fa396fd465f9d7c6a6618295e095f4a3448fbc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:06 +0000
Subject: [PATCH 31/35] fix: report integer type suffixes below 8 bits

---
 src/compiler/parse_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/parse_expr.c b/src/compiler/parse_expr.c
index 720b111..85c8989 100644
--- a/src/compiler/parse_expr.c
+++ b/src/compiler/parse_expr.c
@@ -1525,7 +1525,7 @@ EXIT:
 	Type *type_base = NULL;
 	if (type_bits)
 	{
-		if (type_bits < 0 || !is_power_of_two((uint64_t)type_bits) || type_bits > 128)
+		if (type_bits < 8 || !is_power_of_two((uint64_t)type_bits) || type_bits > 128)
 		{
 			PRINT_ERROR_HERE("Integer type suffix should be i8, i16, i32, i64 or i128.");
 			return poisoned_expr;
-- 
2.43.0


From 263a0b8b0e748fc512618a450ad990dcd740d8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:06 +0000
Subject: [PATCH 32/35] fix: b64 literals after another bytes literal lost
 their data, unpadded ones read beyond their end

---
 src/compiler/parse_expr.c | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/compiler/parse_expr.c b/src/compiler/parse_expr.c
index 85c8989..f212715 100644
--- a/src/compiler/parse_expr.c
+++ b/src/compiler/parse_expr.c
@@ -1644,7 +1644,21 @@ static char base64_to_sextet(char c)
 	return -1;
 }
 /**
- * Parse hex, skipping over invalid characters.
+ * Read the next sextet, skipping over invalid characters.
+ * @return the sextet, -1 if there is none before the end
+ */
+static int next_base64_sextet(const char **data, const char *end)
+{
+	while (*data < end)
+	{
+		int val = base64_to_sextet(*((*data)++));
+		if (val >= 0) return val;
+	}
+	return -1;
+}
+
+/**
+ * Parse base64, skipping over invalid characters. Missing padding at the end is read as zero.
  * @param result_pointer ref to place to put the data
  * @param result_pointer_end the end of the result data
  * @param data start pointer
@@ -1654,19 +1668,19 @@ static void parse_base64(char *result_pointer, char *result_pointer_end, const c
 {
 	char *data_current = result_pointer;
 	ASSERT(data_current);
-	while (data < end)
+	int val;
+	while ((val = next_base64_sextet(&data, end)) >= 0)
 	{
-		int val, val2, val3, val4;
-		while ((val = base64_to_sextet(*(data++))) < 0) if (data == end) goto DONE;
-		while ((val2 = base64_to_sextet(*(data++))) < 0) {}
-		while ((val3 = base64_to_sextet(*(data++))) < 0) {}
-		while ((val4 = base64_to_sextet(*(data++))) < 0) {}
-		uint32_t triplet = (uint32_t)((val << 3 * 6) + (val2 << 2 * 6) + (val3 << 6) + val4);
+		uint32_t triplet = (uint32_t)val << 3 * 6;
+		for (int shift = 2 * 6; shift >= 0; shift -= 6)
+		{
+			val = next_base64_sextet(&data, end);
+			if (val > 0) triplet |= (uint32_t)val << shift;
+		}
 		if (data_current < result_pointer_end) *(data_current++) = (char)((triplet >> 16) & 0xFF);
 		if (data_current < result_pointer_end) *(data_current++) = (char)((triplet >> 8) & 0xFF);
 		if (data_current < result_pointer_end) *(data_current++) = (char)(triplet & 0xFF);
 	}
-	DONE:;
 }
 
 static Expr *parse_bytes_expr(ParseContext *c, Expr *left)
@@ -1693,7 +1707,7 @@ static Expr *parse_bytes_expr(ParseContext *c, Expr *left)
 		{
 			const char *base64data = c->data.lex_start + 4;
 			const char *end = base64data + c->data.lex_len - 1 - 4;
-			parse_base64(new_data + len, new_data + next_len, base64data, end);
+			parse_base64(new_data + len, new_data + new_len, base64data, end);
 		}
 		else
 		{
-- 
2.43.0


From c4b56679e6f0146d9899a5adbf03f1cd4dbc673a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:06 +0000
Subject: [PATCH 33/35] fix: compile time comparison of strings with NUL, of
 faults and references with !=

---
 src/compiler/number.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/compiler/number.c b/src/compiler/number.c
index 3cc1530..482d993 100644
--- a/src/compiler/number.c
+++ b/src/compiler/number.c
@@ -137,11 +137,12 @@ bool expr_const_compare(const ExprConst *left, const ExprConst *right, BinaryOp
 			return int_comp(left->ixx, right->ixx, op);
 		case CONST_FAULT:
 			ASSERT(right->const_kind == CONST_FAULT);
-			return decl_flatten(right->fault) == decl_flatten(left->fault);
+			is_eq = decl_flatten(right->fault) == decl_flatten(left->fault);
+			goto RETURN;
 		case CONST_REF:
 			ASSERT(right->const_kind == CONST_POINTER || right->const_kind == CONST_REF);
-			if (right->const_kind == CONST_POINTER) return false;
-			return decl_flatten(right->global_ref) == decl_flatten(left->global_ref);
+			is_eq = right->const_kind == CONST_REF && decl_flatten(right->global_ref) == decl_flatten(left->global_ref);
+			goto RETURN;
 		case CONST_FLOAT:
 			return compare_fps(left->fxx.f, right->fxx.f, op);
 		case CONST_POINTER:
@@ -161,7 +162,7 @@ bool expr_const_compare(const ExprConst *left, const ExprConst *right, BinaryOp
 				is_eq = true;
 				goto RETURN;
 			}
-			is_eq = !strncmp(left->bytes.ptr, right->bytes.ptr, left->bytes.len);
+			is_eq = !memcmp(left->bytes.ptr, right->bytes.ptr, left->bytes.len);
 			goto RETURN;
 		case CONST_TYPEID:
 			is_eq = left->typeid == right->typeid;
-- 
2.43.0


From ba110ab3d7b8b213810a4b9b6a941ca7f2f678fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:44 +0000
Subject: [PATCH 34/35] Annotate the digit loops of parse_integer with
 VERIFY_LOOP

---
 src/compiler/parse_expr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compiler/parse_expr.c b/src/compiler/parse_expr.c
index f212715..134e9ac 100644
--- a/src/compiler/parse_expr.c
+++ b/src/compiler/parse_expr.c
@@ -1406,6 +1406,7 @@ Expr *parse_integer(ParseContext *c, Expr *left)
 			max = UINT64_MAX >> 4;
 			for (size_t loc = 2; loc < len; loc++)
 			{
+				VERIFY_LOOP(parse_integer, 16, &loc, &i, &wrapped, &hex_characters);
 				char ch = string[loc];
 				switch (ch | 32)
 				{
@@ -1434,6 +1435,7 @@ Expr *parse_integer(ParseContext *c, Expr *left)
 			max = UINT64_MAX >> 3;
 			for (size_t loc = 2; loc < len; loc++)
 			{
+				VERIFY_LOOP(parse_integer, 8, &loc, &i, &wrapped, &oct_characters);
 				char ch = string[loc];
 				switch (ch | 32)
 				{
@@ -1462,6 +1464,7 @@ Expr *parse_integer(ParseContext *c, Expr *left)
 			max = UINT64_MAX >> 1;
 			for (size_t loc = 2; loc < len; loc++)
 			{
+				VERIFY_LOOP(parse_integer, 2, &loc, &i, &wrapped, &binary_characters);
 				char ch = string[loc];
 				switch (ch | 32)
 				{
@@ -1488,6 +1491,7 @@ Expr *parse_integer(ParseContext *c, Expr *left)
 		default:
 			for (size_t loc = 0; loc < len; loc++)
 			{
+				VERIFY_LOOP(parse_integer, 10, &loc, &i, &wrapped, NULL);
 				char ch = string[loc];
 				switch (ch | 32)
 				{
-- 
2.43.0


From 431cba7d9593bb36479d7fb0396b57640bad2702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:41 +0000
Subject: [PATCH 35/35] fix: reject signed integer literals above the maximum
 of their type instead of wrapping them

---
 src/compiler/parse_expr.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/compiler/parse_expr.c b/src/compiler/parse_expr.c
index 134e9ac..6f34214 100644
--- a/src/compiler/parse_expr.c
+++ b/src/compiler/parse_expr.c
@@ -1576,13 +1576,12 @@ EXIT:
 	else
 	{
 		int min_bits = type_size(type_cint) * 8;
-		Int test = { .i = i };
+		Int test = { .i = i, .type = TYPE_U128 };
 		for (int type_kind = 0; type_kind < 5; type_kind++)
 		{
 			TypeKind kind = (is_unsigned ? TYPE_U8 : TYPE_I8) + type_kind;
 			int bitsize = type_kind_bitsize(kind);
 			if (bitsize < min_bits) continue;
-			test.type = kind;
 			if (int_fits(test, kind))
 			{
 				type_base = is_unsigned ? type_int_unsigned_by_bitsize(bitsize) : type_int_signed_by_bitsize(bitsize);
@@ -1592,7 +1591,7 @@ EXIT:
 		if (!type_base) type_base = is_unsigned ? type_cuint : type_cint;
 	}
 	expr_int->const_expr.ixx = (Int) { i, type_base->type_kind };
-	if (!int_fits(expr_int->const_expr.ixx, type_base->type_kind))
+	if (!int_fits((Int) { i, TYPE_U128 }, type_base->type_kind))
 	{
 		unsigned radix = 10;
 		if (hex_characters) radix = 16;
@@ -1601,12 +1600,12 @@ EXIT:
 		if (type_bits)
 		{
 			PRINT_ERROR_HERE("'%s' does not fit in a '%c%d' literal.",
-			                 i128_to_string(i, radix, true, false), is_unsigned ? 'u' : 'i', type_bits);
+			                 i128_to_string(i, radix, false, false), is_unsigned ? 'u' : 'i', type_bits);
 		}
 		else
 		{
 			PRINT_ERROR_HERE("'%s' does not fit in an %s literal.",
-			                 i128_to_string(i, radix, true, false), is_unsigned ? "unsigned int" : "int");
+			                 i128_to_string(i, radix, false, false), is_unsigned ? "unsigned int" : "int");
 		}
 		return poisoned_expr;
 	}
-- 
2.43.0

