From 89789ba798c6391ee9e061c33c4aadcedb26abce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 01/71] fix: guest heap: do not wrap around when rounding up
 huge allocation sizes

---
 lib/libloong/native/heap.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/libloong/native/heap.hpp b/lib/libloong/native/heap.hpp
index ba250b5..0e89f81 100644
--- a/lib/libloong/native/heap.hpp
+++ b/lib/libloong/native/heap.hpp
@@ -101,6 +101,9 @@ struct Arena
 		return (size + (ALIGNMENT-1)) & ~(ALIGNMENT-1);
 	}
 	static size_t fixup_size(size_t size) {
+		// Sizes that would wrap around when aligned can never be allocated
+		if (LA_UNLIKELY(size > SIZE_MAX - (ALIGNMENT-1)))
+			return SIZE_MAX & ~(ALIGNMENT-1);
 		// The minimum allocation is 8 bytes
 		return std::max(ALIGNMENT, word_align(size));
 	}
-- 
2.43.0


From c65c36329aa67f41380eccea1d3b2346951ef7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 02/71] fix: accelerated calloc: fail when count * size
 overflows

---
 lib/libloong/machine_accelerate.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/libloong/machine_accelerate.cpp b/lib/libloong/machine_accelerate.cpp
index e98425c..c55f0bb 100644
--- a/lib/libloong/machine_accelerate.cpp
+++ b/lib/libloong/machine_accelerate.cpp
@@ -211,7 +211,11 @@ void Machine::setup_accelerated_heap(address_t arena_base, size_t arena_size)
 	{
 		const auto [count, size] =
 			machine.template sysargs<address_t, address_t> ();
-		const size_t len = count * size;
+		size_t len = 0;
+		if (LA_UNLIKELY(__builtin_mul_overflow(count, size, &len))) {
+			machine.set_result(0);
+			return;
+		}
 		auto data = machine.arena().malloc(len);
 		HPRINT("SYSCALL calloc(%zu, %zu) = 0x%lX\n",
 			(size_t)count, (size_t)size, (long)data);
-- 
2.43.0


From b6bb5ff3b88e6cd4a4c78c34188d61555ad23e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 03/71] fix: guest heap: use full-width guest addresses, so
 that pointers above 4 GiB do not alias live blocks

---
 lib/libloong/native/heap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libloong/native/heap.hpp b/lib/libloong/native/heap.hpp
index 0e89f81..732f73b 100644
--- a/lib/libloong/native/heap.hpp
+++ b/lib/libloong/native/heap.hpp
@@ -15,7 +15,7 @@ struct Arena;
 
 struct ArenaChunk
 {
-	using PointerType = uint32_t;
+	using PointerType = address_t;
 
 	ArenaChunk() = default;
 	ArenaChunk(ArenaChunk* n, ArenaChunk* p, size_t s, bool f, PointerType d)
-- 
2.43.0


From b39a57dce6cab9b3ecda00cc812db7da5b48bd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 04/71] fix: interpreter: writes to register zero are discarded
 in every execution mode

---
 lib/libloong/bytecode_impl.cpp     | 2 ++
 lib/libloong/cpu.cpp               | 2 ++
 lib/libloong/threaded_rewriter.cpp | 3 +++
 3 files changed, 7 insertions(+)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index bf048c0..2623592 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -1029,6 +1029,7 @@ INSTRUCTION(LA64_BC_FUNCTION, execute_decoded_function)
 	const auto handler = DECODER().get_handler();
 	//printf("Slow-path pc=0x%lx for instr %08X\n", RECONSTRUCT_PC(), DECODER().instr);
 	handler(CPU(), la_instruction{DECODER().instr});
+	REG(REG_ZERO) = 0;
 	NEXT_INSTR();
 }
 INSTRUCTION(LA64_BC_FUNCTION2, execute_function_extended)
@@ -1036,6 +1037,7 @@ INSTRUCTION(LA64_BC_FUNCTION2, execute_function_extended)
 	// Call the cached handler for this instruction
 	const auto handler = DECODER().get_extended_handler();
 	handler(CPU(), la_instruction{DECODER().instr});
+	REG(REG_ZERO) = 0;
 	NEXT_INSTR();
 }
 
diff --git a/lib/libloong/cpu.cpp b/lib/libloong/cpu.cpp
index 83f6398..a7e3dcf 100644
--- a/lib/libloong/cpu.cpp
+++ b/lib/libloong/cpu.cpp
@@ -70,6 +70,8 @@ namespace loongarch
 	{
 		const auto& handler = decode(instr);
 		handler.handler(*this, instr);
+		// Register zero is hardwired to zero
+		reg(REG_ZERO) = 0;
 	}
 
 	bool CPU::is_executable(address_t addr) const noexcept
diff --git a/lib/libloong/threaded_rewriter.cpp b/lib/libloong/threaded_rewriter.cpp
index 5ce172a..cc250c1 100644
--- a/lib/libloong/threaded_rewriter.cpp
+++ b/lib/libloong/threaded_rewriter.cpp
@@ -227,6 +227,7 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 		case LA64_BC_PCALAU12I:
 		case LA64_BC_LU12I_W:
 			// No optimization needed - use original instruction bits
+			NOP_IF_RD_ZERO(original.ri20.rd, bytecode);
 			return instruction_bits;
 		case LA64_BC_LDPTR_D: {
 			auto fi = *(FasterLA64_RI14 *)&instruction_bits;
@@ -676,9 +677,11 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 		} break;
 		case LA64_BC_PCADDU12I:
 			// PCADDU12I uses PC, handled as diverging instruction
+			NOP_IF_RD_ZERO(original.ri20.rd, bytecode);
 			return instruction_bits;
 		case LA64_BC_PCADDU18I:
 			// PCADDU18I uses PC, handled as diverging instruction
+			NOP_IF_RD_ZERO(original.ri20.rd, bytecode);
 			return instruction_bits;
 		case LA64_BC_ANDN: {
 			// ANDN rd, rj, rk - uses R3 format
-- 
2.43.0


From 18086be5e0b0d5ea4cddb741d323cc68ccbd0aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 05/71] fix: signed division: the most negative value divided
 by -1 must not trap the host

---
 lib/libloong/la_instr_impl.hpp | 8 ++++----
 lib/libloong/tr_emit.cpp       | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index f170aff..1fc5282 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -62,13 +62,13 @@ struct InstrImpl {
 	static void DIV_W(cpu_t& cpu, la_instruction instr) {
 		int32_t a = static_cast<int32_t>(cpu.reg(instr.r3.rj));
 		int32_t b = static_cast<int32_t>(cpu.reg(instr.r3.rk));
-		cpu.reg(instr.r3.rd) = (b != 0) ? static_cast<int64_t>(a / b) : 0;
+		cpu.reg(instr.r3.rd) = (b == -1) ? static_cast<int32_t>(0u - static_cast<uint32_t>(a)) : (b != 0) ? static_cast<int64_t>(a / b) : 0;
 	}
 
 	static void MOD_W(cpu_t& cpu, la_instruction instr) {
 		int32_t a = static_cast<int32_t>(cpu.reg(instr.r3.rj));
 		int32_t b = static_cast<int32_t>(cpu.reg(instr.r3.rk));
-		cpu.reg(instr.r3.rd) = (b != 0) ? static_cast<int64_t>(a % b) : 0;
+		cpu.reg(instr.r3.rd) = (b != 0 && b != -1) ? static_cast<int64_t>(a % b) : 0;
 	}
 
 	static void DIV_WU(cpu_t& cpu, la_instruction instr) {
@@ -86,13 +86,13 @@ struct InstrImpl {
 	static void DIV_D(cpu_t& cpu, la_instruction instr) {
 		int64_t a = static_cast<int64_t>(cpu.reg(instr.r3.rj));
 		int64_t b = static_cast<int64_t>(cpu.reg(instr.r3.rk));
-		cpu.reg(instr.r3.rd) = (b != 0) ? (a / b) : 0;
+		cpu.reg(instr.r3.rd) = (b == -1) ? (0ull - static_cast<uint64_t>(a)) : (b != 0) ? (a / b) : 0;
 	}
 
 	static void MOD_D(cpu_t& cpu, la_instruction instr) {
 		int64_t a = static_cast<int64_t>(cpu.reg(instr.r3.rj));
 		int64_t b = static_cast<int64_t>(cpu.reg(instr.r3.rk));
-		cpu.reg(instr.r3.rd) = (b != 0) ? (a % b) : 0;
+		cpu.reg(instr.r3.rd) = (b != 0 && b != -1) ? (a % b) : 0;
 	}
 
 	static void DIV_DU(cpu_t& cpu, la_instruction instr) {
diff --git a/lib/libloong/tr_emit.cpp b/lib/libloong/tr_emit.cpp
index 02af911..2e8e30e 100644
--- a/lib/libloong/tr_emit.cpp
+++ b/lib/libloong/tr_emit.cpp
@@ -1030,14 +1030,14 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			if (instr.r3.rd != 0) {
 				emit.add_code("  { int32_t a = (int32_t)" + emit.reg(instr.r3.rj) +
 					", b = (int32_t)" + emit.reg(instr.r3.rk) + ";");
-				emit.add_code("    " + emit.reg(instr.r3.rd) + " = (b != 0 && !(a == INT32_MIN && b == -1)) ? (int64_t)(a / b) : 0; }");
+				emit.add_code("    " + emit.reg(instr.r3.rd) + " = (b == -1) ? (int64_t)(int32_t)(0u - (uint32_t)a) : (b != 0) ? (int64_t)(a / b) : 0; }");
 			}
 			break;
 		case InstrId::MOD_W:
 			if (instr.r3.rd != 0) {
 				emit.add_code("  { int32_t a = (int32_t)" + emit.reg(instr.r3.rj) +
 					", b = (int32_t)" + emit.reg(instr.r3.rk) + ";");
-				emit.add_code("    " + emit.reg(instr.r3.rd) + " = (b != 0 && !(a == INT32_MIN && b == -1)) ? (int64_t)(a % b) : 0; }");
+				emit.add_code("    " + emit.reg(instr.r3.rd) + " = (b != 0 && b != -1) ? (int64_t)(a % b) : 0; }");
 			}
 			break;
 		case InstrId::DIV_WU:
@@ -1058,14 +1058,14 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			if (instr.r3.rd != 0) {
 				emit.add_code("  { int64_t a = (int64_t)" + emit.reg(instr.r3.rj) +
 					", b = (int64_t)" + emit.reg(instr.r3.rk) + ";");
-				emit.add_code("    " + emit.reg(instr.r3.rd) + " = (b != 0 && !(a == INT64_MIN && b == -1)) ? (a / b) : 0; }");
+				emit.add_code("    " + emit.reg(instr.r3.rd) + " = (b == -1) ? (0ull - (uint64_t)a) : (b != 0) ? (a / b) : 0; }");
 			}
 			break;
 		case InstrId::MOD_D:
 			if (instr.r3.rd != 0) {
 				emit.add_code("  { int64_t a = (int64_t)" + emit.reg(instr.r3.rj) +
 					", b = (int64_t)" + emit.reg(instr.r3.rk) + ";");
-				emit.add_code("    " + emit.reg(instr.r3.rd) + " = (b != 0 && !(a == INT64_MIN && b == -1)) ? (a % b) : 0; }");
+				emit.add_code("    " + emit.reg(instr.r3.rd) + " = (b != 0 && b != -1) ? (a % b) : 0; }");
 			}
 			break;
 		case InstrId::DIV_DU:
-- 
2.43.0


From 6023960489ccf078791b1f4e19676bc02c3e5f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 06/71] fix: bstrins/bstrpick: handle full-width bit fields and
 sign-extend bstrpick.w

---
 lib/libloong/bytecode_impl.cpp | 10 +++++-----
 lib/libloong/la_instr_impl.hpp |  8 ++++----
 lib/libloong/tr_emit.cpp       |  8 ++++----
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index 2623592..f83a4c6 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -194,7 +194,7 @@ INSTRUCTION(LA64_BC_BSTRPICK_D, la64_bstrpick_d)
 	auto fi = *(FasterLA64_BitField *)&DECODER().instr;
 	const address_t src = REG(fi.rj);
 	const uint32_t width = fi.msbd - fi.lsbd + 1;
-	const address_t mask = (1ULL << width) - 1;
+	const address_t mask = ~0ULL >> ((64 - width) & 63);
 	REG(fi.rd) = (src >> fi.lsbd) & mask;
 	NEXT_INSTR();
 }
@@ -302,14 +302,14 @@ INSTRUCTION(LA64_BC_STX_D, la64_stx_d)
 	NEXT_INSTR();
 }
 
-// LA64_BC_BSTRPICK_W: Bit string pick word (rd = extract bits[msbw:lsbw] from rj, zero-extend)
+// LA64_BC_BSTRPICK_W: Bit string pick word (rd = sign-extend bits[msbw:lsbw] from rj)
 INSTRUCTION(LA64_BC_BSTRPICK_W, la64_bstrpick_w)
 {
 	auto fi = *(FasterLA64_BitFieldW *)&DECODER().instr;
 	const uint32_t src = (uint32_t)REG(fi.rj);
 	const uint32_t width = fi.msbw - fi.lsbw + 1;
-	const uint32_t mask = (1U << width) - 1;
-	REG(fi.rd) = (src >> fi.lsbw) & mask;
+	const uint32_t mask = ~0U >> ((32 - width) & 31);
+	REG(fi.rd) = (int32_t)((src >> fi.lsbw) & mask);
 	NEXT_INSTR();
 }
 
@@ -419,7 +419,7 @@ INSTRUCTION(LA64_BC_BSTRINS_D, la64_bstrins_d)
 	// Valid when msbd >= lsbd
 	if (fi.msbd >= fi.lsbd) {
 		uint32_t width = fi.msbd - fi.lsbd + 1;
-		uint64_t mask = ((1ULL << width) - 1) << fi.lsbd;
+		uint64_t mask = (~0ULL >> (64 - width)) << fi.lsbd;
 		uint64_t bits = (src << fi.lsbd) & mask;
 		REG(fi.rd) = (dst & ~mask) | bits;
 	}
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 1fc5282..4bedd38 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -592,7 +592,7 @@ struct InstrImpl {
 		// Valid when msbd >= lsbd
 		if (msbd >= lsbd) {
 			uint32_t width = msbd - lsbd + 1;
-			uint64_t mask = ((1ULL << width) - 1) << lsbd;
+			uint64_t mask = (~0ULL >> (64 - width)) << lsbd;
 			uint64_t bits = (src << lsbd) & mask;
 			cpu.reg(instr.ri16.rd) = (dst & ~mask) | bits;
 		}
@@ -606,7 +606,7 @@ struct InstrImpl {
 
 		// Extract the bit field
 		uint32_t width = msbd - lsbd + 1;
-		uint64_t mask = (1ULL << width) - 1;
+		uint64_t mask = ~0ULL >> ((64 - width) & 63);
 		uint64_t result = (src >> lsbd) & mask;
 		cpu.reg(instr.ri16.rd) = result;
 	}
@@ -622,7 +622,7 @@ struct InstrImpl {
 		// Valid when msbw >= lsbw
 		if (msbw >= lsbw) {
 			uint32_t width = msbw - lsbw + 1;
-			uint32_t mask = ((1U << width) - 1) << lsbw;
+			uint32_t mask = (~0U >> (32 - width)) << lsbw;
 			uint32_t bits = (src << lsbw) & mask;
 			uint32_t result = (dst & ~mask) | bits;
 			// Sign-extend to 64 bits
@@ -639,7 +639,7 @@ struct InstrImpl {
 
 		// Extract the bit field
 		uint32_t width = msbw - lsbw + 1;
-		uint32_t mask = (1U << width) - 1;
+		uint32_t mask = ~0U >> ((32 - width) & 31);
 		uint32_t result = (src >> lsbw) & mask;
 		cpu.reg(instr.ri16.rd) = (int32_t)result;
 	}
diff --git a/lib/libloong/tr_emit.cpp b/lib/libloong/tr_emit.cpp
index 2e8e30e..6904156 100644
--- a/lib/libloong/tr_emit.cpp
+++ b/lib/libloong/tr_emit.cpp
@@ -1378,7 +1378,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 				uint32_t lsbw = (instr.whole >> 10) & 0x1F;
 				if (msbw >= lsbw) {
 					uint32_t width = msbw - lsbw + 1;
-					uint32_t mask = ((1U << width) - 1) << lsbw;  // Precomputed at translation time
+					uint32_t mask = (~0U >> (32 - width)) << lsbw;  // Precomputed at translation time
 					uint32_t inv_mask = ~mask;  // Precomputed at translation time
 					emit.add_code("  " + emit.reg(instr.ri16.rd) + " = (int32_t)(((uint32_t)" +
 						emit.reg(instr.ri16.rd) + " & " + std::to_string(inv_mask) + "U) | (((uint32_t)" +
@@ -1393,7 +1393,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 				uint32_t lsbd = (instr.whole >> 10) & 0x3F;
 				if (msbd >= lsbd) {
 					uint32_t width = msbd - lsbd + 1;
-					uint64_t mask = ((1ULL << width) - 1) << lsbd;  // Precomputed at translation time
+					uint64_t mask = (~0ULL >> (64 - width)) << lsbd;  // Precomputed at translation time
 					uint64_t inv_mask = ~mask;  // Precomputed at translation time
 					emit.add_code("  " + emit.reg(instr.ri16.rd) + " = (" +
 						emit.reg(instr.ri16.rd) + " & " + std::to_string(inv_mask) + "ULL) | ((" +
@@ -1407,7 +1407,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 				uint32_t msbw = (instr.whole >> 16) & 0x1F;
 				uint32_t lsbw = (instr.whole >> 10) & 0x1F;
 				uint32_t width = msbw - lsbw + 1;
-				uint32_t mask = (1U << width) - 1;  // Precomputed at translation time
+				uint32_t mask = ~0U >> ((32 - width) & 31);  // Precomputed at translation time
 				if (lsbw == 0) {
 					emit.add_code("  " + emit.reg(instr.ri16.rd) + " = (int32_t)(" +
 						emit.reg(instr.ri16.rj) + " & " + std::to_string(mask) + "U);");
@@ -1423,7 +1423,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 				uint32_t msbd = (instr.whole >> 16) & 0x3F;
 				uint32_t lsbd = (instr.whole >> 10) & 0x3F;
 				uint32_t width = msbd - lsbd + 1;
-				uint64_t mask = (1ULL << width) - 1;  // Precomputed at translation time
+				uint64_t mask = ~0ULL >> ((64 - width) & 63);  // Precomputed at translation time
 				if (lsbd == 0 && instr.ri16.rd == instr.ri16.rj) {
 					emit.add_code("  " + emit.reg(instr.ri16.rd) + " &= " +
 						std::to_string(mask) + "ULL;");
-- 
2.43.0


From 364713444be692eacd2cda265a5ed3f49e435ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 07/71] fix: bytepick.d selects from the left of rk:rj, as
 specified

---
 lib/libloong/bytecode_impl.cpp | 4 ++--
 lib/libloong/la_instr_impl.hpp | 8 ++++----
 lib/libloong/tr_emit.cpp       | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index f83a4c6..91f2c8b 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -752,9 +752,9 @@ INSTRUCTION(LA64_BC_BYTEPICK_D, la64_bytepick_d)
 	uint32_t shift = fi.sa3 * 8;
 	uint64_t result;
 	if (shift == 0) {
-		result = rj_val;
+		result = rk_val;
 	} else {
-		result = (rk_val << (64 - shift)) | (rj_val >> shift);
+		result = (rk_val << shift) | (rj_val >> (64 - shift));
 	}
 	REG(fi.rd) = result;
 	NEXT_INSTR();
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 4bedd38..ff937f7 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -164,7 +164,7 @@ struct InstrImpl {
 	static void BYTEPICK_D(cpu_t& cpu, la_instruction instr) {
 		// BYTEPICK.D rd, rj, rk, sa3
 		// Concatenates rk and rj as a 128-bit value [rk:rj]
-		// Then extracts 64 bits starting at byte offset sa3
+		// Then extracts 64 bits, skipping the sa3 leftmost bytes
 		uint32_t sa3 = (instr.whole >> 15) & 0x7;
 		uint64_t rj_val = cpu.reg(instr.r3.rj);
 		uint64_t rk_val = cpu.reg(instr.r3.rk);
@@ -172,12 +172,12 @@ struct InstrImpl {
 		// Shift amount in bits = sa3 * 8
 		uint32_t shift = sa3 * 8;
 
-		// Result is (rk << (64 - shift)) | (rj >> shift)
+		// Result is (rk << shift) | (rj >> (64 - shift))
 		uint64_t result;
 		if (shift == 0) {
-			result = rj_val;
+			result = rk_val;
 		} else {
-			result = (rk_val << (64 - shift)) | (rj_val >> shift);
+			result = (rk_val << shift) | (rj_val >> (64 - shift));
 		}
 		cpu.reg(instr.r3.rd) = result;
 	}
diff --git a/lib/libloong/tr_emit.cpp b/lib/libloong/tr_emit.cpp
index 6904156..a52ca8b 100644
--- a/lib/libloong/tr_emit.cpp
+++ b/lib/libloong/tr_emit.cpp
@@ -1361,12 +1361,12 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			if (instr.r3.rd != 0) {
 				uint32_t sa3 = (instr.whole >> 15) & 0x7;
 				if (sa3 == 0) {
-					emit.add_code("  " + emit.reg(instr.r3.rd) + " = " + emit.reg(instr.r3.rj) + ";");
+					emit.add_code("  " + emit.reg(instr.r3.rd) + " = " + emit.reg(instr.r3.rk) + ";");
 				} else {
 					uint32_t shift = sa3 * 8;
 					emit.add_code("  " + emit.reg(instr.r3.rd) + " = (" +
-						emit.reg(instr.r3.rk) + " << " + std::to_string(64 - shift) + ") | (" +
-						emit.reg(instr.r3.rj) + " >> " + std::to_string(shift) + ");");
+						emit.reg(instr.r3.rk) + " << " + std::to_string(shift) + ") | (" +
+						emit.reg(instr.r3.rj) + " >> " + std::to_string(64 - shift) + ");");
 				}
 			}
 			break;
-- 
2.43.0


From ce3952c656b4690bd7821e440e6ad77825992f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 08/71] fix: sltui: the immediate is sign-extended before the
 unsigned comparison

---
 lib/libloong/threaded_rewriter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/libloong/threaded_rewriter.cpp b/lib/libloong/threaded_rewriter.cpp
index cc250c1..719387a 100644
--- a/lib/libloong/threaded_rewriter.cpp
+++ b/lib/libloong/threaded_rewriter.cpp
@@ -639,12 +639,12 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			return fi.whole;
 		} break;
 		case LA64_BC_SLTUI: {
-			// SLTUI rd, rj, imm12 - uses RI12 format with zero-extended immediate
+			// SLTUI rd, rj, imm12 - uses RI12 format with sign-extended immediate
 			auto fi = *(FasterLA64_RI12 *)&instruction_bits;
 			fi.rd = original.ri12.rd;
 			fi.rj = original.ri12.rj;
-			// SLTUI uses zero-extended immediate for unsigned comparison
-			fi.imm = original.ri12.imm & 0xFFF;
+			// SLTUI sign-extends the immediate, then compares unsigned
+			fi.set_imm(original.ri12.imm);
 			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
-- 
2.43.0


From 8a56310c13830d2ebde7c422e5a99c36e317578a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 09/71] fix: pcaddu18i: do not truncate the shifted immediate
 to 32 bits

---
 lib/libloong/la_instr_impl.hpp | 2 +-
 lib/libloong/tr_emit.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index ff937f7..ccea812 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -570,7 +570,7 @@ struct InstrImpl {
 
 	static void PCADDU18I(cpu_t& cpu, la_instruction instr) {
 		int32_t si20 = InstructionHelpers::sign_extend_20(instr.ri20.imm);
-		int64_t offset = (int64_t)(si20 << 18);
+		int64_t offset = (int64_t)si20 << 18;
 		cpu.reg(instr.ri20.rd) = cpu.pc() + offset;
 	}
 
diff --git a/lib/libloong/tr_emit.cpp b/lib/libloong/tr_emit.cpp
index a52ca8b..540a989 100644
--- a/lib/libloong/tr_emit.cpp
+++ b/lib/libloong/tr_emit.cpp
@@ -767,7 +767,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 		case InstrId::PCADDU18I: {
 			if (instr.ri20.rd != 0) {
 				int32_t si20 = InstructionHelpers::sign_extend_20(instr.ri20.imm);
-				int64_t offset = (int64_t)(si20 << 18);
+				int64_t offset = (int64_t)si20 << 18;
 				emit.add_code("  " + emit.reg(instr.ri20.rd) + " = " +
 					hex_address(emit.pc() + offset) + "ULL;");
 			}
-- 
2.43.0


From 2a9edd620778151b1e106b5a0f03abdf658cc590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 10/71] fix: fused multiply-add instructions round once and
 compute the specified signs

---
 lib/libloong/bytecode_impl.cpp |  6 +--
 lib/libloong/la_instr_impl.hpp | 74 +++++++++++++++++-----------------
 lib/libloong/registers.hpp     |  1 +
 lib/libloong/tr_api.cpp        |  2 +
 lib/libloong/tr_api.hpp        |  2 +
 lib/libloong/tr_compiler.cpp   |  5 +++
 lib/libloong/tr_emit.cpp       | 64 ++++++++++++++---------------
 7 files changed, 82 insertions(+), 72 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index 91f2c8b..fd98f7a 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -615,8 +615,8 @@ INSTRUCTION(LA64_BC_VFMADD_D, la64_vfmadd_d)
 	const auto& src_k = REGISTERS().getvr(fi.rk);
 	const auto& src_a = REGISTERS().getvr(fi.ra);
 
-	dst.df[0] = src_a.df[0] + src_j.df[0] * src_k.df[0];
-	dst.df[1] = src_a.df[1] + src_j.df[1] * src_k.df[1];
+	dst.df[0] = std::fma(src_j.df[0], src_k.df[0], src_a.df[0]);
+	dst.df[1] = std::fma(src_j.df[1], src_k.df[1], src_a.df[1]);
 	NEXT_INSTR();
 }
 
@@ -689,7 +689,7 @@ INSTRUCTION(LA64_BC_FMADD_D, la64_fmadd_d)
 	const auto& vr_a = REGISTERS().getvr(fi.ra);
 	auto& vr_d = REGISTERS().getvr(fi.rd);
 
-	vr_d.df[0] = vr_a.df[0] + vr_j.df[0] * vr_k.df[0];
+	vr_d.df[0] = std::fma(vr_j.df[0], vr_k.df[0], vr_a.df[0]);
 	NEXT_INSTR();
 }
 
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index ccea812..16ef9fe 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -1400,7 +1400,7 @@ struct InstrImpl {
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.f[0] = vr_a.f[0] + vr_j.f[0] * vr_k.f[0];
+		vr_d.f[0] = std::fma(vr_j.f[0], vr_k.f[0], vr_a.f[0]);
 	}
 
 	static void FMSUB_S(cpu_t& cpu, la_instruction instr) {
@@ -1410,7 +1410,7 @@ struct InstrImpl {
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.f[0] = vr_k.f[0] * vr_j.f[0] - vr_a.f[0];
+		vr_d.f[0] = std::fma(vr_j.f[0], vr_k.f[0], -vr_a.f[0]);
 	}
 
 	static void FLDX_S(cpu_t& cpu, la_instruction instr) {
@@ -1451,7 +1451,7 @@ struct InstrImpl {
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.df[0] = vr_k.df[0] * vr_j.df[0] - vr_a.df[0];
+		vr_d.df[0] = std::fma(vr_j.df[0], vr_k.df[0], -vr_a.df[0]);
 	}
 
 	static void FMADD_D(cpu_t& cpu, la_instruction instr) {
@@ -1461,7 +1461,7 @@ struct InstrImpl {
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.df[0] = vr_a.df[0] + vr_j.df[0] * vr_k.df[0];
+		vr_d.df[0] = std::fma(vr_j.df[0], vr_k.df[0], vr_a.df[0]);
 	}
 
 	static void FNMADD_S(cpu_t& cpu, la_instruction instr) {
@@ -1471,7 +1471,7 @@ struct InstrImpl {
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.f[0] = -(vr_a.f[0] + vr_j.f[0] * vr_k.f[0]);
+		vr_d.f[0] = -std::fma(vr_j.f[0], vr_k.f[0], vr_a.f[0]);
 	}
 
 	static void FNMADD_D(cpu_t& cpu, la_instruction instr) {
@@ -1481,7 +1481,7 @@ struct InstrImpl {
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.df[0] = -(vr_a.df[0] + vr_j.df[0] * vr_k.df[0]);
+		vr_d.df[0] = -std::fma(vr_j.df[0], vr_k.df[0], vr_a.df[0]);
 	}
 
 	static void FNMSUB_S(cpu_t& cpu, la_instruction instr) {
@@ -1491,7 +1491,7 @@ struct InstrImpl {
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.f[0] = vr_a.f[0] - vr_j.f[0] * vr_k.f[0];
+		vr_d.f[0] = -std::fma(vr_j.f[0], vr_k.f[0], -vr_a.f[0]);
 	}
 
 	static void FNMSUB_D(cpu_t& cpu, la_instruction instr) {
@@ -1501,7 +1501,7 @@ struct InstrImpl {
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.df[0] = vr_a.df[0] - vr_j.df[0] * vr_k.df[0];
+		vr_d.df[0] = -std::fma(vr_j.df[0], vr_k.df[0], -vr_a.df[0]);
 	}
 
 	static void CLO_W(cpu_t& cpu, la_instruction instr) {
@@ -2873,8 +2873,8 @@ struct InstrImpl {
 		const auto& src_a = cpu.registers().getvr(instr.r4.ra);
 		auto& dst = cpu.registers().getvr(instr.r4.rd);
 
-		dst.df[0] = src_a.df[0] + src_j.df[0] * src_k.df[0];
-		dst.df[1] = src_a.df[1] + src_j.df[1] * src_k.df[1];
+		dst.df[0] = std::fma(src_j.df[0], src_k.df[0], src_a.df[0]);
+		dst.df[1] = std::fma(src_j.df[1], src_k.df[1], src_a.df[1]);
 		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
 		dst.du[2] = 0;
 		dst.du[3] = 0;
@@ -2882,14 +2882,14 @@ struct InstrImpl {
 
 	static void VFNMADD_D(cpu_t& cpu, la_instruction instr) {
 		// VFNMADD.D: Vector fused negative multiply-add (double precision, 2x64-bit)
-		// 4R-type format: vd = -(vj * vk) + va = va - vj * vk
+		// 4R-type format: vd = -(vj * vk + va)
 		const auto& src_j = cpu.registers().getvr(instr.r4.rj);
 		const auto& src_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& src_a = cpu.registers().getvr(instr.r4.ra);
 		auto& dst = cpu.registers().getvr(instr.r4.rd);
 
-		dst.df[0] = src_a.df[0] - src_j.df[0] * src_k.df[0];
-		dst.df[1] = src_a.df[1] - src_j.df[1] * src_k.df[1];
+		dst.df[0] = -std::fma(src_j.df[0], src_k.df[0], src_a.df[0]);
+		dst.df[1] = -std::fma(src_j.df[1], src_k.df[1], src_a.df[1]);
 		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
 		dst.du[2] = 0;
 		dst.du[3] = 0;
@@ -3881,7 +3881,7 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(xd);
 
 		for (int i = 0; i < 8; i++) {
-			dst.f[i] = src_a.f[i] + src_j.f[i] * src_k.f[i];
+			dst.f[i] = std::fma(src_j.f[i], src_k.f[i], src_a.f[i]);
 		}
 	}
 
@@ -3898,10 +3898,10 @@ struct InstrImpl {
 		const auto& src_a = cpu.registers().getvr(xa);
 		auto& dst = cpu.registers().getvr(xd);
 
-		dst.df[0] = src_a.df[0] + src_j.df[0] * src_k.df[0];
-		dst.df[1] = src_a.df[1] + src_j.df[1] * src_k.df[1];
-		dst.df[2] = src_a.df[2] + src_j.df[2] * src_k.df[2];
-		dst.df[3] = src_a.df[3] + src_j.df[3] * src_k.df[3];
+		dst.df[0] = std::fma(src_j.df[0], src_k.df[0], src_a.df[0]);
+		dst.df[1] = std::fma(src_j.df[1], src_k.df[1], src_a.df[1]);
+		dst.df[2] = std::fma(src_j.df[2], src_k.df[2], src_a.df[2]);
+		dst.df[3] = std::fma(src_j.df[3], src_k.df[3], src_a.df[3]);
 	}
 
 	static void XVFMSUB_S(cpu_t& cpu, la_instruction instr) {
@@ -3918,7 +3918,7 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(xd);
 
 		for (int i = 0; i < 8; i++) {
-			dst.f[i] = src_a.f[i] - src_j.f[i] * src_k.f[i];
+			dst.f[i] = std::fma(src_j.f[i], src_k.f[i], -src_a.f[i]);
 		}
 	}
 
@@ -3935,15 +3935,15 @@ struct InstrImpl {
 		const auto& src_a = cpu.registers().getvr(xa);
 		auto& dst = cpu.registers().getvr(xd);
 
-		dst.df[0] = src_a.df[0] - src_j.df[0] * src_k.df[0];
-		dst.df[1] = src_a.df[1] - src_j.df[1] * src_k.df[1];
-		dst.df[2] = src_a.df[2] - src_j.df[2] * src_k.df[2];
-		dst.df[3] = src_a.df[3] - src_j.df[3] * src_k.df[3];
+		dst.df[0] = std::fma(src_j.df[0], src_k.df[0], -src_a.df[0]);
+		dst.df[1] = std::fma(src_j.df[1], src_k.df[1], -src_a.df[1]);
+		dst.df[2] = std::fma(src_j.df[2], src_k.df[2], -src_a.df[2]);
+		dst.df[3] = std::fma(src_j.df[3], src_k.df[3], -src_a.df[3]);
 	}
 
 	static void XVFNMADD_S(cpu_t& cpu, la_instruction instr) {
 		// XVFNMADD.S: LASX vector fused negative multiply-add (single precision, 8x32-bit)
-		// 4R-type format: xd = -(xj * xk) + xa = xa - xj * xk
+		// 4R-type format: xd = -(xj * xk + xa)
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3955,13 +3955,13 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(xd);
 
 		for (int i = 0; i < 8; i++) {
-			dst.f[i] = src_a.f[i] - src_j.f[i] * src_k.f[i];
+			dst.f[i] = -std::fma(src_j.f[i], src_k.f[i], src_a.f[i]);
 		}
 	}
 
 	static void XVFNMADD_D(cpu_t& cpu, la_instruction instr) {
 		// XVFNMADD.D: LASX vector fused negative multiply-add (double precision, 4x64-bit)
-		// 4R-type format: xd = -(xj * xk) + xa = xa - xj * xk
+		// 4R-type format: xd = -(xj * xk + xa)
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3972,15 +3972,15 @@ struct InstrImpl {
 		const auto& src_a = cpu.registers().getvr(xa);
 		auto& dst = cpu.registers().getvr(xd);
 
-		dst.df[0] = src_a.df[0] - src_j.df[0] * src_k.df[0];
-		dst.df[1] = src_a.df[1] - src_j.df[1] * src_k.df[1];
-		dst.df[2] = src_a.df[2] - src_j.df[2] * src_k.df[2];
-		dst.df[3] = src_a.df[3] - src_j.df[3] * src_k.df[3];
+		dst.df[0] = -std::fma(src_j.df[0], src_k.df[0], src_a.df[0]);
+		dst.df[1] = -std::fma(src_j.df[1], src_k.df[1], src_a.df[1]);
+		dst.df[2] = -std::fma(src_j.df[2], src_k.df[2], src_a.df[2]);
+		dst.df[3] = -std::fma(src_j.df[3], src_k.df[3], src_a.df[3]);
 	}
 
 	static void XVFNMSUB_S(cpu_t& cpu, la_instruction instr) {
 		// XVFNMSUB.S: LASX vector fused negative multiply-subtract (single precision, 8x32-bit)
-		// 4R-type format: xd = -(xj * xk) - xa = -xa - xj * xk
+		// 4R-type format: xd = -(xj * xk - xa)
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3992,13 +3992,13 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(xd);
 
 		for (int i = 0; i < 8; i++) {
-			dst.f[i] = -(src_a.f[i] + src_j.f[i] * src_k.f[i]);
+			dst.f[i] = -std::fma(src_j.f[i], src_k.f[i], -src_a.f[i]);
 		}
 	}
 
 	static void XVFNMSUB_D(cpu_t& cpu, la_instruction instr) {
 		// XVFNMSUB.D: LASX vector fused negative multiply-subtract (double precision, 4x64-bit)
-		// 4R-type format: xd = -(xj * xk) - xa = -xa - xj * xk
+		// 4R-type format: xd = -(xj * xk - xa)
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -4009,10 +4009,10 @@ struct InstrImpl {
 		const auto& src_a = cpu.registers().getvr(xa);
 		auto& dst = cpu.registers().getvr(xd);
 
-		dst.df[0] = -(src_a.df[0] + src_j.df[0] * src_k.df[0]);
-		dst.df[1] = -(src_a.df[1] + src_j.df[1] * src_k.df[1]);
-		dst.df[2] = -(src_a.df[2] + src_j.df[2] * src_k.df[2]);
-		dst.df[3] = -(src_a.df[3] + src_j.df[3] * src_k.df[3]);
+		dst.df[0] = -std::fma(src_j.df[0], src_k.df[0], -src_a.df[0]);
+		dst.df[1] = -std::fma(src_j.df[1], src_k.df[1], -src_a.df[1]);
+		dst.df[2] = -std::fma(src_j.df[2], src_k.df[2], -src_a.df[2]);
+		dst.df[3] = -std::fma(src_j.df[3], src_k.df[3], -src_a.df[3]);
 	}
 
 	static void XVORI_B(cpu_t& cpu, la_instruction instr) {
diff --git a/lib/libloong/registers.hpp b/lib/libloong/registers.hpp
index c8b4a4e..dc2a0a4 100644
--- a/lib/libloong/registers.hpp
+++ b/lib/libloong/registers.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include "common.hpp"
 #include <array>
+#include <cmath>
 #include <cstdint>
 #include <cstring>
 
diff --git a/lib/libloong/tr_api.cpp b/lib/libloong/tr_api.cpp
index c9f6134..8ee0f14 100644
--- a/lib/libloong/tr_api.cpp
+++ b/lib/libloong/tr_api.cpp
@@ -149,6 +149,8 @@ static struct CallbackTable {
 	void (*fallback) (CPU*, addr_t, uint32_t);
 	float  (*sqrtf32)(float);
 	double (*sqrtf64)(double);
+	float  (*fmaf32)(float, float, float);
+	double (*fmaf64)(double, double, double);
 	int (*clz) (uint32_t);
 	int (*clzl) (uint64_t);
 	int (*ctz) (uint32_t);
diff --git a/lib/libloong/tr_api.hpp b/lib/libloong/tr_api.hpp
index 59a06a7..96c5d27 100644
--- a/lib/libloong/tr_api.hpp
+++ b/lib/libloong/tr_api.hpp
@@ -32,6 +32,8 @@ namespace loongarch {
 		// Math operations that TCC doesn't have
 		float  (*sqrtf32)(float);
 		double (*sqrtf64)(double);
+		float  (*fmaf32)(float, float, float);
+		double (*fmaf64)(double, double, double);
 		int (*clz) (uint32_t);
 		int (*clzl) (uint64_t);
 		int (*ctz) (uint32_t);
diff --git a/lib/libloong/tr_compiler.cpp b/lib/libloong/tr_compiler.cpp
index 62c6433..90c6c1b 100644
--- a/lib/libloong/tr_compiler.cpp
+++ b/lib/libloong/tr_compiler.cpp
@@ -2,6 +2,7 @@
 #include "decoder_cache.hpp"
 #include "threaded_bytecodes.hpp"
 #include "tr_types.hpp"
+#include <cmath>
 #include <cstring>
 #include <atomic>
 #include <mutex>
@@ -167,6 +168,8 @@ namespace loongarch
 			void (*fallback) (CPU&, address_t, uint32_t);
 			float  (*sqrtf32)(float);
 			double (*sqrtf64)(double);
+			float  (*fmaf32)(float, float, float);
+			double (*fmaf64)(double, double, double);
 			int (*clz) (uint32_t);
 			int (*clzl) (uint64_t);
 			int (*ctz) (uint32_t);
@@ -216,6 +219,8 @@ namespace loongarch
 		};
 		callback_table.sqrtf32 = [](float x) { return __builtin_sqrtf(x); };
 		callback_table.sqrtf64 = [](double x) { return __builtin_sqrt(x); };
+		callback_table.fmaf32 = [](float a, float b, float c) { return std::fma(a, b, c); };
+		callback_table.fmaf64 = [](double a, double b, double c) { return std::fma(a, b, c); };
 		callback_table.clz = [](uint32_t x) { return __builtin_clz(x); };
 		callback_table.clzl = [](uint64_t x) { return __builtin_clzl(x); };
 		callback_table.ctz = [](uint32_t x) { return __builtin_ctz(x); };
diff --git a/lib/libloong/tr_emit.cpp b/lib/libloong/tr_emit.cpp
index 540a989..538ece7 100644
--- a/lib/libloong/tr_emit.cpp
+++ b/lib/libloong/tr_emit.cpp
@@ -1630,10 +1630,10 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			uint32_t fj = instr.r4.rj;
 			uint32_t fk = instr.r4.rk;
 			uint32_t fa = instr.r4.ra;
-			emit.add_code("  " + emit.freg64(fd) + " = "
-				+ emit.freg64(fj) + " * "
-				+ emit.freg64(fk) + " + "
-				+ emit.freg64(fa) + ";");
+			emit.add_code("  " + emit.freg64(fd) + " = api.fmaf64("
+				+ emit.freg64(fj) + ", "
+				+ emit.freg64(fk) + ", "
+				+ emit.freg64(fa) + ");");
 			break;
 		}
 		case InstrId::FMADD_S: {
@@ -1642,10 +1642,10 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			uint32_t fj = instr.r4.rj;
 			uint32_t fk = instr.r4.rk;
 			uint32_t fa = instr.r4.ra;
-			emit.add_code("  " + emit.freg32(fd) + " = "
-				+ emit.freg32(fj) + " * "
-				+ emit.freg32(fk) + " + "
-				+ emit.freg32(fa) + ";");
+			emit.add_code("  " + emit.freg32(fd) + " = api.fmaf32("
+				+ emit.freg32(fj) + ", "
+				+ emit.freg32(fk) + ", "
+				+ emit.freg32(fa) + ");");
 			break;
 		}
 		case InstrId::FMSUB_D: {
@@ -1654,10 +1654,10 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			uint32_t fj = instr.r4.rj;
 			uint32_t fk = instr.r4.rk;
 			uint32_t fa = instr.r4.ra;
-			emit.add_code("  " + emit.freg64(fd) + " = "
-				+ emit.freg64(fj) + " * "
-				+ emit.freg64(fk) + " - "
-				+ emit.freg64(fa) + ";");
+			emit.add_code("  " + emit.freg64(fd) + " = api.fmaf64("
+				+ emit.freg64(fj) + ", "
+				+ emit.freg64(fk) + ", -"
+				+ emit.freg64(fa) + ");");
 			break;
 		}
 		case InstrId::FMSUB_S: {
@@ -1666,10 +1666,10 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			uint32_t fj = instr.r4.rj;
 			uint32_t fk = instr.r4.rk;
 			uint32_t fa = instr.r4.ra;
-			emit.add_code("  " + emit.freg32(fd) + " = "
-				+ emit.freg32(fj) + " * "
-				+ emit.freg32(fk) + " - "
-				+ emit.freg32(fa) + ";");
+			emit.add_code("  " + emit.freg32(fd) + " = api.fmaf32("
+				+ emit.freg32(fj) + ", "
+				+ emit.freg32(fk) + ", -"
+				+ emit.freg32(fa) + ");");
 			break;
 		}
 		case InstrId::FNMADD_D: {
@@ -1678,9 +1678,9 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			uint32_t fj = instr.r4.rj;
 			uint32_t fk = instr.r4.rk;
 			uint32_t fa = instr.r4.ra;
-			emit.add_code("  " + emit.freg64(fd) + " = "
-				"-(" + emit.freg64(fj) + " * "
-				+ emit.freg64(fk) + " + "
+			emit.add_code("  " + emit.freg64(fd) + " = -api.fmaf64("
+				+ emit.freg64(fj) + ", "
+				+ emit.freg64(fk) + ", "
 				+ emit.freg64(fa) + ");");
 			break;
 		}
@@ -1690,9 +1690,9 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			uint32_t fj = instr.r4.rj;
 			uint32_t fk = instr.r4.rk;
 			uint32_t fa = instr.r4.ra;
-			emit.add_code("  " + emit.freg32(fd) + " = "
-				"-(" + emit.freg32(fj) + " * "
-				+ emit.freg32(fk) + " + "
+			emit.add_code("  " + emit.freg32(fd) + " = -api.fmaf32("
+				+ emit.freg32(fj) + ", "
+				+ emit.freg32(fk) + ", "
 				+ emit.freg32(fa) + ");");
 			break;
 		}
@@ -1702,10 +1702,10 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			uint32_t fj = instr.r4.rj;
 			uint32_t fk = instr.r4.rk;
 			uint32_t fa = instr.r4.ra;
-			emit.add_code("  " + emit.freg64(fd) + " = "
-				"-" + emit.freg64(fj) + " * "
-				+ emit.freg64(fk) + " + "
-				+ emit.freg64(fa) + ";");
+			emit.add_code("  " + emit.freg64(fd) + " = -api.fmaf64("
+				+ emit.freg64(fj) + ", "
+				+ emit.freg64(fk) + ", -"
+				+ emit.freg64(fa) + ");");
 			break;
 		}
 		case InstrId::FNMSUB_S: {
@@ -1714,10 +1714,10 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			uint32_t fj = instr.r4.rj;
 			uint32_t fk = instr.r4.rk;
 			uint32_t fa = instr.r4.ra;
-			emit.add_code("  " + emit.freg32(fd) + " = "
-				"-" + emit.freg32(fj) + " * "
-				+ emit.freg32(fk) + " + "
-				+ emit.freg32(fa) + ";");
+			emit.add_code("  " + emit.freg32(fd) + " = -api.fmaf32("
+				+ emit.freg32(fj) + ", "
+				+ emit.freg32(fk) + ", -"
+				+ emit.freg32(fa) + ");");
 			break;
 		}
 
@@ -1924,8 +1924,8 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			emit.add_code("    const lasx_reg* vj_ptr = &cpu->vr[" + std::to_string(instr.r4.rj) + "];");
 			emit.add_code("    const lasx_reg* vk_ptr = &cpu->vr[" + std::to_string(instr.r4.rk) + "];");
 			emit.add_code("    const lasx_reg* va_ptr = &cpu->vr[" + std::to_string(instr.r4.ra) + "];");
-			emit.add_code("    vd_ptr->df[0] = va_ptr->df[0] + vj_ptr->df[0] * vk_ptr->df[0];");
-			emit.add_code("    vd_ptr->df[1] = va_ptr->df[1] + vj_ptr->df[1] * vk_ptr->df[1]; }");
+			emit.add_code("    vd_ptr->df[0] = api.fmaf64(vj_ptr->df[0], vk_ptr->df[0], va_ptr->df[0]);");
+			emit.add_code("    vd_ptr->df[1] = api.fmaf64(vj_ptr->df[1], vk_ptr->df[1], va_ptr->df[1]); }");
 			break;
 		}
 
-- 
2.43.0


From 97629ef143345701eaf64282f431eef05046a27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 11/71] fix: floating-point compares: support every
 architectural condition

---
 lib/libloong/la_instr_impl.hpp | 203 +++------------------------------
 1 file changed, 19 insertions(+), 184 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 16ef9fe..a15acb2 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -893,6 +893,21 @@ struct InstrImpl {
 		cpu.reg(rd) = cpu.registers().cf(cj);  // Write condition flag, zero-extended
 	}
 
+	// Evaluate a floating-point compare condition: bit 1 is less, bit 2 is equal,
+	// bit 3 is unordered, bit 4 is less or greater. Bit 0 selects signaling.
+	template <typename F>
+	static bool fcmp_condition(uint32_t cond, F a, F b, la_instruction instr) {
+		switch (cond >> 1) {
+			case 0x9: case 0xB: case 0xD: case 0xE: case 0xF:
+				throw MachineException(ILLEGAL_OPCODE,
+					"FCMP: Unknown condition code", instr.whole);
+		}
+		return ((cond & 0x02) && a < b)
+			|| ((cond & 0x04) && a == b)
+			|| ((cond & 0x08) && (std::isnan(a) || std::isnan(b)))
+			|| ((cond & 0x10) && (a < b || a > b));
+	}
+
 	static void FCMP_COND_S(cpu_t& cpu, la_instruction instr) {
 		// Floating-point compare with condition (single precision)
 		// Format: fcmp.cond.s cc, fj, fk
@@ -906,46 +921,7 @@ struct InstrImpl {
 		float fj_val = vr_j.f[0];
 		float fk_val = vr_k.f[0];
 
-		bool is_unordered = std::isnan(fj_val) || std::isnan(fk_val);
-		bool result = false;
-
-		switch (cond) {
-			case 0x02: // CLT - (Quiet) Less Than (ordered)
-			case 0x03: // SLT - Signaling Less Than (ordered)
-				result = !is_unordered && (fj_val < fk_val);
-				break;
-			case 0x04: // CEQ - Equal (ordered)
-			case 0x05: // SEQ - Signaling Equal (ordered)
-				result = !is_unordered && (fj_val == fk_val);
-				break;
-			case 0x06: // CLE - (Quiet) Less or Equal (ordered)
-			case 0x07: // SLE - Signaling Less or Equal (ordered)
-				result = !is_unordered && (fj_val <= fk_val);
-				break;
-			case 0x8:  // CUN  - (Quiet) Incomparable
-			case 0x9:  // SUN  - Signaling Incomparable
-				result = is_unordered;
-				break;
-			case 0x0E: // CULE - (Quiet) Unordered or Less or Equal
-			case 0x0F: // SULE - Signaling Unordered or Less or Equal
-				result = is_unordered || (fj_val <= fk_val);
-				break;
-			case 0x14: // COR - (Quiet) Ordered
-				result = !is_unordered;
-				break;
-			case 0x18: // CUNE - (Quiet) Unordered or Not Equal
-			case 0x19: // SUNE - Signaling Unordered or Not Equal
-				result = is_unordered || (fj_val != fk_val);
-				break;
-			case 0xA: // CULT - Less than or incomparable
-			case 0xB: // SULT - Signaling Less than or incomparable
-				result = (fj_val < fk_val) || is_unordered;
-				break;
-			default:
-				// Unknown condition code - this should not happen in normal execution
-				throw MachineException(ILLEGAL_OPCODE,
-					"FCMP.COND.S: Unknown condition code", instr.whole);
-		}
+		const bool result = fcmp_condition(cond, fj_val, fk_val, instr);
 
 		cpu.registers().set_cf(cd, result ? 1 : 0);
 	}
@@ -963,46 +939,7 @@ struct InstrImpl {
 		double fj_val = vr_j.df[0];
 		double fk_val = vr_k.df[0];
 
-		bool is_unordered = std::isnan(fj_val) || std::isnan(fk_val);
-		bool result = false;
-
-		switch (cond) {
-			case 0x02: // CLT - (Quiet) Less Than (ordered)
-			case 0x03: // SLT - Signaling Less Than (ordered)
-				result = !is_unordered && (fj_val < fk_val);
-				break;
-			case 0x04: // CEQ - Equal (ordered)
-			case 0x05: // SEQ - Signaling Equal (ordered)
-				result = !is_unordered && (fj_val == fk_val);
-				break;
-			case 0x06: // CLE - (Quiet) Less or Equal (ordered)
-			case 0x07: // SLE - Signaling Less or Equal (ordered)
-				result = !is_unordered && (fj_val <= fk_val);
-				break;
-			case 0x8:  // CUN  - (Quiet) Incomparable
-			case 0x9:  // SUN  - Signaling Incomparable
-				result = is_unordered;
-				break;
-			case 0x0E: // CULE - (Quiet) Unordered or Less or Equal
-			case 0x0F: // SULE - Signaling Unordered or Less or Equal
-				result = is_unordered || (fj_val <= fk_val);
-				break;
-			case 0x14: // COR - (Quiet) Ordered
-				result = !is_unordered;
-				break;
-			case 0x18: // CUNE - (Quiet) Unordered or Not Equal
-			case 0x19: // SUNE - Signaling Unordered or Not Equal
-				result = is_unordered || (fj_val != fk_val);
-				break;
-			case 0xA: // CULT - Less than or incomparable
-			case 0xB: // SULT - Signaling Less than or incomparable
-				result = (fj_val < fk_val) || is_unordered;
-				break;
-			default:
-				// Unknown condition code - this should not happen in normal execution
-				throw MachineException(ILLEGAL_OPCODE,
-					"FCMP.COND.D: Unknown condition code", instr.whole);
-		}
+		const bool result = fcmp_condition(cond, fj_val, fk_val, instr);
 
 		cpu.registers().set_cf(cd, result ? 1 : 0);
 	}
@@ -1023,58 +960,7 @@ struct InstrImpl {
 		for (int i = 0; i < 2; i++) {
 			double val1 = src1.df[i];
 			double val2 = src2.df[i];
-			switch (cond) {
-				case 0x02: // CLT - (Quiet) Less Than (ordered)
-				case 0x03: // SLT - Signaling Less Than (ordered)
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = 0;
-					} else {
-						dst.du[i] = (val1 < val2) ? UINT64_MAX : 0;
-					}
-					break;
-				case 0x04: // CEQ - Equal (ordered)
-				case 0x05: // SEQ - Signaling Equal (ordered)
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = 0;
-					} else {
-						dst.du[i] = (val1 == val2) ? UINT64_MAX : 0;
-					}
-					break;
-				case 0x06: // CLE - (Quiet) Less or Equal (ordered)
-				case 0x07: // SLE - Signaling Less or Equal (ordered)
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = 0;
-					} else {
-						dst.du[i] = (val1 <= val2) ? UINT64_MAX : 0;
-					}
-					break;
-				case 0x0E: // CULE - (Quiet) Unordered or Less or Equal
-				case 0x0F: // SULE - Signaling Unordered or Less or Equal
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = UINT64_MAX;
-					} else {
-						dst.du[i] = (val1 <= val2) ? UINT64_MAX : 0;
-					}
-					break;
-				case 0x14: // COR - (Quiet) Ordered
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = 0;
-					} else {
-						dst.du[i] = UINT64_MAX;
-					}
-					break;
-				case 0x18: // CUNE - (Quiet) Unordered or Not Equal
-				case 0x19: // SUNE - Signaling Unordered or Not Equal
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = UINT64_MAX;
-					} else {
-						dst.du[i] = (val1 != val2) ? UINT64_MAX : 0;
-					}
-					break;
-				default:
-					throw MachineException(ILLEGAL_OPCODE,
-						"VFCMP.COND.D: Unsupported condition code", instr.whole);
-			}
+			dst.du[i] = fcmp_condition(cond, val1, val2, instr) ? UINT64_MAX : 0;
 		}
 		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
 		dst.du[2] = 0;
@@ -2182,58 +2068,7 @@ struct InstrImpl {
 		for (int i = 0; i < 4; i++) {
 			double val1 = src1.df[i];
 			double val2 = src2.df[i];
-			switch (cond) {
-				case 0x02: // CLT - (Quiet) Less Than (ordered)
-				case 0x03: // SLT - Signaling Less Than (ordered)
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = 0;
-					} else {
-						dst.du[i] = (val1 < val2) ? UINT64_MAX : 0;
-					}
-					break;
-				case 0x04: // CEQ - Equal (ordered)
-				case 0x05: // SEQ - Signaling Equal (ordered)
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = 0;
-					} else {
-						dst.du[i] = (val1 == val2) ? UINT64_MAX : 0;
-					}
-					break;
-				case 0x06: // CLE - (Quiet) Less or Equal (ordered)
-				case 0x07: // SLE - Signaling Less or Equal (ordered)
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = 0;
-					} else {
-						dst.du[i] = (val1 <= val2) ? UINT64_MAX : 0;
-					}
-					break;
-				case 0x0E: // CULE - (Quiet) Unordered or Less or Equal
-				case 0x0F: // SULE - Signaling Unordered or Less or Equal
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = UINT64_MAX;
-					} else {
-						dst.du[i] = (val1 <= val2) ? UINT64_MAX : 0;
-					}
-					break;
-				case 0x14: // COR - (Quiet) Ordered
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = 0;
-					} else {
-						dst.du[i] = UINT64_MAX;
-					}
-					break;
-				case 0x18: // CUNE - (Quiet) Unordered or Not Equal
-				case 0x19: // SUNE - Signaling Unordered or Not Equal
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = UINT64_MAX;
-					} else {
-						dst.du[i] = (val1 != val2) ? UINT64_MAX : 0;
-					}
-					break;
-				default:
-					dst.du[i] = 0;
-					break;
-			}
+			dst.du[i] = fcmp_condition(cond, val1, val2, instr) ? UINT64_MAX : 0;
 		}
 	}
 
-- 
2.43.0


From 880f0a8345c5063f596a970e78f4cd28cad7247e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 12/71] fix: fclass: report the class bits the architecture
 defines

---
 lib/libloong/la_instr_impl.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index a15acb2..1947d5f 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -1029,15 +1029,15 @@ struct InstrImpl {
 		// FCLASS returns a 10-bit mask indicating the class
 		uint32_t result = 0;
 		if (fpclass == FP_NAN) {
-			if (std::isnan(val)) result = is_neg ? 0x001 : 0x200; // sNaN or qNaN
+			result = (vr_j.wu[0] & 0x00400000u) ? 0x002 : 0x001; // qNaN or sNaN
 		} else if (fpclass == FP_INFINITE) {
-			result = is_neg ? 0x002 : 0x100;
+			result = is_neg ? 0x004 : 0x040;
 		} else if (fpclass == FP_ZERO) {
-			result = is_neg ? 0x004 : 0x080;
+			result = is_neg ? 0x020 : 0x200;
 		} else if (fpclass == FP_SUBNORMAL) {
-			result = is_neg ? 0x008 : 0x040;
+			result = is_neg ? 0x010 : 0x100;
 		} else if (fpclass == FP_NORMAL) {
-			result = is_neg ? 0x010 : 0x020;
+			result = is_neg ? 0x008 : 0x080;
 		}
 		vr_d.wu[0] = result;
 	}
@@ -1057,15 +1057,15 @@ struct InstrImpl {
 		// FCLASS returns a 10-bit mask indicating the class
 		uint64_t result = 0;
 		if (fpclass == FP_NAN) {
-			if (std::isnan(val)) result = is_neg ? 0x001 : 0x200; // sNaN or qNaN
+			result = (vr_j.du[0] & 0x0008000000000000ull) ? 0x002 : 0x001; // qNaN or sNaN
 		} else if (fpclass == FP_INFINITE) {
-			result = is_neg ? 0x002 : 0x100;
+			result = is_neg ? 0x004 : 0x040;
 		} else if (fpclass == FP_ZERO) {
-			result = is_neg ? 0x004 : 0x080;
+			result = is_neg ? 0x020 : 0x200;
 		} else if (fpclass == FP_SUBNORMAL) {
-			result = is_neg ? 0x008 : 0x040;
+			result = is_neg ? 0x010 : 0x100;
 		} else if (fpclass == FP_NORMAL) {
-			result = is_neg ? 0x010 : 0x020;
+			result = is_neg ? 0x008 : 0x080;
 		}
 		vr_d.du[0] = result;
 	}
-- 
2.43.0


From 03ddcc951b943989b060c7ca796d47bff71f47c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 13/71] fix: float to integer conversions saturate and turn NaN
 into zero

---
 lib/libloong/la_instr_impl.hpp | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 1947d5f..d0df74b 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -2,6 +2,7 @@
 #include "cpu.hpp"
 #include "la_instr.hpp"
 #include <cmath>
+#include <limits>
 
 namespace loongarch {
 
@@ -1134,6 +1135,19 @@ struct InstrImpl {
 		vr_d.df[0] = static_cast<double>(vr_j.f[0]);
 	}
 
+	// Convert to integer, rounding towards zero: saturates, and NaN becomes zero
+	template <typename I, typename F>
+	static I ftint_truncate(F val) {
+		constexpr F limit = -static_cast<F>(std::numeric_limits<I>::min());
+		if (std::isnan(val))
+			return 0;
+		if (val >= limit)
+			return std::numeric_limits<I>::max();
+		if (val < -limit)
+			return std::numeric_limits<I>::min();
+		return static_cast<I>(val);
+	}
+
 	static void FTINTRZ_W_S(cpu_t& cpu, la_instruction instr) {
 		// Convert single to 32-bit integer with truncation (round towards zero)
 		uint32_t fd = instr.whole & 0x1F;
@@ -1142,7 +1156,7 @@ struct InstrImpl {
 		const auto& vr_j = cpu.registers().getvr(fj);
 		auto& vr_d = cpu.registers().getvr(fd);
 		// Truncate towards zero (trunc)
-		int32_t int_val = static_cast<int32_t>(std::trunc(vr_j.f[0]));
+		int32_t int_val = ftint_truncate<int32_t>(vr_j.f[0]);
 		vr_d.w[0] = int_val;
 	}
 
@@ -1154,7 +1168,7 @@ struct InstrImpl {
 		const auto& vr_j = cpu.registers().getvr(fj);
 		auto& vr_d = cpu.registers().getvr(fd);
 		// Truncate towards zero (trunc)
-		int32_t int_val = static_cast<int32_t>(std::trunc(vr_j.df[0]));
+		int32_t int_val = ftint_truncate<int32_t>(vr_j.df[0]);
 		vr_d.w[0] = int_val;
 	}
 
@@ -1166,7 +1180,7 @@ struct InstrImpl {
 		const auto& vr_j = cpu.registers().getvr(fj);
 		auto& vr_d = cpu.registers().getvr(fd);
 		// Truncate towards zero (trunc)
-		int64_t int_val = static_cast<int64_t>(std::trunc(vr_j.f[0]));
+		int64_t int_val = ftint_truncate<int64_t>(vr_j.f[0]);
 		vr_d.d[0] = int_val;
 	}
 
@@ -1178,7 +1192,7 @@ struct InstrImpl {
 		const auto& vr_j = cpu.registers().getvr(fj);
 		auto& vr_d = cpu.registers().getvr(fd);
 		// Truncate towards zero (trunc)
-		int64_t int_val = static_cast<int64_t>(std::trunc(vr_j.df[0]));
+		int64_t int_val = ftint_truncate<int64_t>(vr_j.df[0]);
 		vr_d.d[0] = int_val;
 	}
 
@@ -2675,10 +2689,10 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(vd);
 
 		// Convert each single-precision float to int32 with truncation towards zero
-		dst.w[0] = (int32_t)src.f[0];
-		dst.w[1] = (int32_t)src.f[1];
-		dst.w[2] = (int32_t)src.f[2];
-		dst.w[3] = (int32_t)src.f[3];
+		dst.w[0] = ftint_truncate<int32_t>(src.f[0]);
+		dst.w[1] = ftint_truncate<int32_t>(src.f[1]);
+		dst.w[2] = ftint_truncate<int32_t>(src.f[2]);
+		dst.w[3] = ftint_truncate<int32_t>(src.f[3]);
 		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
 		dst.du[2] = 0;
 		dst.du[3] = 0;
@@ -2693,8 +2707,8 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(vd);
 
 		// Convert each double-precision float to int64 with truncation towards zero
-		dst.d[0] = (int64_t)src.df[0];
-		dst.d[1] = (int64_t)src.df[1];
+		dst.d[0] = ftint_truncate<int64_t>(src.df[0]);
+		dst.d[1] = ftint_truncate<int64_t>(src.df[1]);
 		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
 		dst.du[2] = 0;
 		dst.du[3] = 0;
-- 
2.43.0


From cc6c30dd03e08fd505177f180c837c2a55e96ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 14/71] fix: vector horizontal widening adds: add odd elements
 of vj to even elements of vk

---
 lib/libloong/bytecode_impl.cpp |  6 +++---
 lib/libloong/la_instr_impl.hpp | 35 +++++++++++++++-------------------
 2 files changed, 18 insertions(+), 23 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index fd98f7a..e9b739e 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -628,9 +628,9 @@ INSTRUCTION(LA64_BC_VHADDW_D_W, la64_vhaddw_d_w)
 	const auto& src1 = REGISTERS().getvr(fi.rj);
 	const auto& src2 = REGISTERS().getvr(fi.rk);
 
-	// Add adjacent pairs: vj[0]+vj[1], vk[0]+vk[1]
-	const int64_t res1 = (int64_t)(int32_t)src1.w[0] + (int64_t)(int32_t)src1.w[1];
-	const int64_t res2 = (int64_t)(int32_t)src2.w[0] + (int64_t)(int32_t)src2.w[1];
+	// Add the odd words of vj to the even words of vk
+	const int64_t res1 = (int64_t)(int32_t)src1.w[1] + (int64_t)(int32_t)src2.w[0];
+	const int64_t res2 = (int64_t)(int32_t)src1.w[3] + (int64_t)(int32_t)src2.w[2];
 	dst.d[0] = res1;
 	dst.d[1] = res2;
 	// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index d0df74b..2ed8855 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -1964,14 +1964,13 @@ struct InstrImpl {
 
 	static void VHADDW_D_W(cpu_t& cpu, la_instruction instr) {
 		// VHADDW.D.W: Vector horizontal add with widening (word to doubleword)
-		// Adds adjacent pairs of 32-bit signed words and produces 64-bit results
+		// Adds the odd words of vj to the even words of vk and produces 64-bit results
 		const auto& src1 = cpu.registers().getvr(instr.r3.rj);
 		const auto& src2 = cpu.registers().getvr(instr.r3.rk);
 		auto& dst = cpu.registers().getvr(instr.r3.rd);
 
-		// Add adjacent pairs: vj[0]+vj[1], vk[0]+vk[1]
-		const int64_t res1 = (int64_t)src1.w[0] + (int64_t)src1.w[1];
-		const int64_t res2 = (int64_t)src2.w[0] + (int64_t)src2.w[1];
+		const int64_t res1 = (int64_t)src1.w[1] + (int64_t)src2.w[0];
+		const int64_t res2 = (int64_t)src1.w[3] + (int64_t)src2.w[2];
 		dst.d[0] = res1;
 		dst.d[1] = res2;
 		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
@@ -1981,22 +1980,19 @@ struct InstrImpl {
 
 	static void XVHADDW_D_W(cpu_t& cpu, la_instruction instr) {
 		// XVHADDW.D.W: LASX vector horizontal add with widening (word to doubleword, 256-bit)
-		// Adds adjacent pairs of 32-bit signed words from xj and produces 64-bit results
-		// Takes all 8 words from xj, produces 4 doublewords
+		// Adds the odd words of xj to the even words of xk and produces 64-bit results
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
-		//uint32_t xk = (instr.whole >> 10) & 0x1F;
+		uint32_t xk = (instr.whole >> 10) & 0x1F;
 
 		const auto& src_j = cpu.registers().getvr(xj);
-		//const auto& src_k = cpu.registers().getvr(xk);
+		const auto& src_k = cpu.registers().getvr(xk);
 
 		// Read all inputs first to handle register aliasing
-		// Takes all 8 words from xj: pairs (0,1), (2,3), (4,5), (6,7) → 4 doublewords
-		// xk is unused (or maybe used for other operand in 3-register form)
-		int64_t r0 = (int64_t)src_j.w[0] + (int64_t)src_j.w[1];
-		int64_t r1 = (int64_t)src_j.w[2] + (int64_t)src_j.w[3];
-		int64_t r2 = (int64_t)src_j.w[4] + (int64_t)src_j.w[5];
-		int64_t r3 = (int64_t)src_j.w[6] + (int64_t)src_j.w[7];
+		int64_t r0 = (int64_t)src_j.w[1] + (int64_t)src_k.w[0];
+		int64_t r1 = (int64_t)src_j.w[3] + (int64_t)src_k.w[2];
+		int64_t r2 = (int64_t)src_j.w[5] + (int64_t)src_k.w[4];
+		int64_t r3 = (int64_t)src_j.w[7] + (int64_t)src_k.w[6];
 
 		auto& dst = cpu.registers().getvr(xd);
 		dst.d[0] = r0;
@@ -2088,18 +2084,17 @@ struct InstrImpl {
 
 	static void XVHADDW_Q_D(cpu_t& cpu, la_instruction instr) {
 		// XVHADDW.Q.D: LASX vector horizontal add with widening (doubleword to quadword, 256-bit)
-		// Adds adjacent pairs of 64-bit signed doublewords and produces 128-bit results
+		// Adds the odd doublewords of xj to the even doublewords of xk and produces 128-bit results
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
-		//uint32_t xk = (instr.whole >> 10) & 0x1F;
+		uint32_t xk = (instr.whole >> 10) & 0x1F;
 
 		const auto& src1 = cpu.registers().getvr(xj);
-		//const auto& src2 = cpu.registers().getvr(xk);
+		const auto& src2 = cpu.registers().getvr(xk);
 
 		// Read all inputs first to handle register aliasing
-		// Takes all 4 doublewords from xj: pairs (0,1), (2,3) → 2 quadwords
-		__int128 q0 = (__int128)src1.d[0] + (__int128)src1.d[1];
-		__int128 q1 = (__int128)src1.d[2] + (__int128)src1.d[3];
+		__int128 q0 = (__int128)src1.d[1] + (__int128)src2.d[0];
+		__int128 q1 = (__int128)src1.d[3] + (__int128)src2.d[2];
 
 		// Store quadwords as pairs of doublewords
 		auto& dst = cpu.registers().getvr(xd);
-- 
2.43.0


From fbb7719e05dee89df9fc5a42243c3a0fcc16088f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 15/71] fix: xvilvl.d, xvpickev.w, xvreplve.d and xvmsknz.b
 work on each 128-bit half

---
 lib/libloong/la_instr_impl.hpp | 64 ++++++++++++++++------------------
 1 file changed, 31 insertions(+), 33 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 2ed8855..994452b 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -3449,7 +3449,7 @@ struct InstrImpl {
 
 	static void XVMSKNZ_B(cpu_t& cpu, la_instruction instr) {
 		// XVMSKNZ.B xd, xj
-		// Create a 32-bit mask where each bit indicates if corresponding byte is non-zero
+		// Create a 16-bit mask per 128-bit half where each bit indicates if corresponding byte is non-zero
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 
@@ -3466,9 +3466,9 @@ struct InstrImpl {
 			}
 		}
 
-		dst.du[0] = mask;
+		dst.du[0] = mask & 0xFFFF;
 		dst.du[1] = 0;
-		dst.du[2] = 0;
+		dst.du[2] = mask >> 16;
 		dst.du[3] = 0;
 	}
 
@@ -3691,24 +3691,25 @@ struct InstrImpl {
 
 	static void XVREPLVE_D(cpu_t& cpu, la_instruction instr) {
 		// XVREPLVE.D: LASX vector replicate element from register (double precision)
-		// Replicates element selected by rj to all elements in xd from vector xk
-		// Format: xd[i] = xk[rj % 4] for all i
+		// Replicates the element selected by rk within each 128-bit half of xj
+		// Format: xd[i] = xj[(i & 2) + rk % 2]
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
 
-		const auto& src = cpu.registers().getvr(xk);
+		const auto& src = cpu.registers().getvr(xj);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Get the element index from register rj (modulo 4 for double elements)
-		uint32_t idx = cpu.reg(xj) & 0x3;
+		// Get the element index from register rk (modulo 2 for double elements)
+		uint32_t idx = cpu.reg(xk) & 0x1;
 
-		// Replicate the selected element to all 4 positions
-		uint64_t value = src.du[idx];
-		dst.du[0] = value;
-		dst.du[1] = value;
-		dst.du[2] = value;
-		dst.du[3] = value;
+		// Replicate the selected element within each half
+		const uint64_t lo = src.du[idx];
+		const uint64_t hi = src.du[2 + idx];
+		dst.du[0] = lo;
+		dst.du[1] = lo;
+		dst.du[2] = hi;
+		dst.du[3] = hi;
 	}
 
 	static void XVFMADD_S(cpu_t& cpu, la_instruction instr) {
@@ -3897,7 +3898,7 @@ struct InstrImpl {
 
 	static void XVILVL_D(cpu_t& cpu, la_instruction instr) {
 		// XVILVL.D: LASX vector interleave low double-word (256-bit)
-		// Interleaves the low 128-bit double-words from two 256-bit vectors
+		// Interleaves the low double-words of each 128-bit half of two vectors
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3906,12 +3907,13 @@ struct InstrImpl {
 		const auto& src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Interleave: dst[0] = src_k[0], dst[1] = src_j[0], dst[2] = src_k[1], dst[3] = src_j[1]
-		// For LASX (256-bit), we interleave the low 2 double-words (128-bit) from each source
-		dst.du[0] = src_k.du[0];
-		dst.du[1] = src_j.du[0];
-		dst.du[2] = src_k.du[1];
-		dst.du[3] = src_j.du[1];
+		// Read all inputs first to handle register aliasing
+		const uint64_t r0 = src_k.du[0], r1 = src_j.du[0];
+		const uint64_t r2 = src_k.du[2], r3 = src_j.du[2];
+		dst.du[0] = r0;
+		dst.du[1] = r1;
+		dst.du[2] = r2;
+		dst.du[3] = r3;
 	}
 
 	static void XVILVH_D(cpu_t& cpu, la_instruction instr) {
@@ -4019,9 +4021,8 @@ struct InstrImpl {
 
 	static void XVPICKEV_W(cpu_t& cpu, la_instruction instr) {
 		// XVPICKEV.W: LASX vector pick even word (256-bit)
-		// Picks even-indexed words from both sources
-		// dst[0] = xj[0], dst[1] = xj[2], dst[2] = xj[4], dst[3] = xj[6]
-		// dst[4] = xk[0], dst[5] = xk[2], dst[6] = xk[4], dst[7] = xk[6]
+		// Picks even-indexed words from each 128-bit half of both sources
+		// Low half: xk[0], xk[2], xj[0], xj[2], high half: xk[4], xk[6], xj[4], xj[6]
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -4030,15 +4031,12 @@ struct InstrImpl {
 		const auto& src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Pick even words (indices 0, 2, 4, 6) from both sources
-		dst.w[0] = src_j.w[0];
-		dst.w[1] = src_j.w[2];
-		dst.w[2] = src_j.w[4];
-		dst.w[3] = src_j.w[6];
-		dst.w[4] = src_k.w[0];
-		dst.w[5] = src_k.w[2];
-		dst.w[6] = src_k.w[4];
-		dst.w[7] = src_k.w[6];
+		// Read all inputs first to handle register aliasing
+		const uint32_t words[8] = {
+			src_k.wu[0], src_k.wu[2], src_j.wu[0], src_j.wu[2],
+			src_k.wu[4], src_k.wu[6], src_j.wu[4], src_j.wu[6]
+		};
+		for (int i = 0; i < 8; i++) dst.wu[i] = words[i];
 	}
 
 	static void XVPICKOD_D(cpu_t& cpu, la_instruction instr) {
-- 
2.43.0


From 337f450f11cf3519125c09ba97e31546ddd83a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 16/71] fix: vpickev.w with aliased registers, vfrstpi.b
 semantics

---
 lib/libloong/la_instr_impl.hpp | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 994452b..22b7597 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -2294,10 +2294,13 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(vd);
 
 		// Pick even words: dst = [vk[0], vk[2], vj[0], vj[2]]
-		dst.wu[0] = src_k.wu[0];
-		dst.wu[1] = src_k.wu[2];
-		dst.wu[2] = src_j.wu[0];
-		dst.wu[3] = src_j.wu[2];
+		// Read all inputs first to handle register aliasing
+		const uint32_t w0 = src_k.wu[0], w1 = src_k.wu[2];
+		const uint32_t w2 = src_j.wu[0], w3 = src_j.wu[2];
+		dst.wu[0] = w0;
+		dst.wu[1] = w1;
+		dst.wu[2] = w2;
+		dst.wu[3] = w3;
 		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
 		dst.wu[4] = 0;
 		dst.wu[5] = 0;
@@ -2845,8 +2848,8 @@ struct InstrImpl {
 
 	static void VFRSTPI_B(cpu_t& cpu, la_instruction instr) {
 		// VFRSTPI.B vd, vj, ui5
-		// Find first set position in vector (starting from ui5)
-		// Sets vd[0] to the position of first non-zero byte starting from position ui5
+		// Finds the first negative byte of vj and writes its position
+		// (16 if there is none) to byte ui5 % 16 of vd
 		uint32_t vd = instr.whole & 0x1F;
 		uint32_t vj = (instr.whole >> 5) & 0x1F;
 		uint32_t ui5 = (instr.whole >> 10) & 0x1F;
@@ -2854,21 +2857,16 @@ struct InstrImpl {
 		const auto& src = cpu.registers().getvr(vj);
 		auto& dst = cpu.registers().getvr(vd);
 
-		// Find first non-zero byte starting from ui5
 		uint8_t pos = 16; // Default: not found
-		for (int i = ui5; i < 16; i++) {
-			uint8_t byte = src.bu[i];
-			if (byte != 0) {
+		for (int i = 0; i < 16; i++) {
+			if (src.b[i] < 0) {
 				pos = i;
 				break;
 			}
 		}
 
-		// Store result in first byte of vd, clear rest
-		dst.du[0] = pos;
-		dst.du[1] = 0;
+		dst.bu[ui5 & 0xF] = pos;
 	}
-
 	static void BCNEZ(cpu_t& cpu, la_instruction instr) {
 		// BCNEZ: Branch if condition flag is not equal to zero
 		// Format: 0x48xxxxxx
-- 
2.43.0


From 583e38fc250545aecbca36699cbc8d715a25b625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:29 +0000
Subject: [PATCH 17/71] fix: decode every instruction word exactly as encoded,
 per-half LASX pack/pick/interleave

---
 lib/libloong/la64.cpp          | 290 +++++++++++++++------------------
 lib/libloong/la_instr_impl.hpp |  75 +++++----
 2 files changed, 167 insertions(+), 198 deletions(-)

diff --git a/lib/libloong/la64.cpp b/lib/libloong/la64.cpp
index 291f6fa..899962d 100644
--- a/lib/libloong/la64.cpp
+++ b/lib/libloong/la64.cpp
@@ -437,6 +437,13 @@ namespace loongarch
 	INSTRUCTION(FLDX_S);
 	INSTRUCTION(FSTX_S);
 
+	// The floating-point compare conditions that the architecture defines
+	static constexpr bool is_fcmp_condition(uint32_t cond) noexcept
+	{
+		return cond < 0x10 || cond == 0x10 || cond == 0x11 || cond == 0x14
+			|| cond == 0x15 || cond == 0x18 || cond == 0x19;
+	}
+
 	// Decode function
 	const CPU::instruction_t& CPU::decode(format_t instr)
 	{
@@ -531,14 +538,13 @@ namespace loongarch
 			// Shift immediate instructions (use bits[31:16])
 			{
 				uint32_t op16 = (instr.whole >> 16) & 0xFFFF;
-				if (op16 == 0x0040) return DECODED_INSTR(SLLI_W);
+				if (op17 == 0x00408000) return DECODED_INSTR(SLLI_W);
 				if (op16 == 0x0041) return DECODED_INSTR(SLLI_D);
-				if (op16 == 0x0044) return DECODED_INSTR(SRLI_W);
+				if (op17 == 0x00448000) return DECODED_INSTR(SRLI_W);
 				if (op16 == 0x0045) return DECODED_INSTR(SRLI_D);
-				if (op16 == 0x0048) return DECODED_INSTR(SRAI_W);
+				if (op17 == 0x00488000) return DECODED_INSTR(SRAI_W);
 				if (op16 == 0x0049) return DECODED_INSTR(SRAI_D);
-				// ROTRI.D uses bits[31:16] for opcode (16-bit opcode = 0x0024)
-				if (op16 == 0x0024) return DECODED_INSTR(ROTRI_D);
+				if (op16 == 0x004D) return DECODED_INSTR(ROTRI_D);
 			}
 
 			// ROTRI.W: bits[31:15] = 0x00099 (format DJUk5)
@@ -548,9 +554,9 @@ namespace loongarch
 				if (op15 == 0x00099) return DECODED_INSTR(ROTRI_W);
 			}
 
-			// ALSL.W and ALSL.D use bits [31:18] with sa2 in bits [16:15]
-			if ((instr.whole & 0xFFFC0000) == Opcode::ALSL_W) return DECODED_INSTR(ALSL_W);
-			if ((instr.whole & 0xFFFC0000) == Opcode::ALSL_D) return DECODED_INSTR(ALSL_D);
+			// ALSL.W and ALSL.D use bits [31:17] with sa2 in bits [16:15]
+			if ((instr.whole & 0xFFFE0000) == Opcode::ALSL_W) return DECODED_INSTR(ALSL_W);
+			if ((instr.whole & 0xFFFE0000) == Opcode::ALSL_D) return DECODED_INSTR(ALSL_D);
 
 			// Immediate instructions (op22 match)
 			if (op22 == (Opcode::ADDI_W & 0xFFC00000)) return DECODED_INSTR(ADDI_W);
@@ -600,15 +606,15 @@ namespace loongarch
 				// MOVGR2FR.D: bits[31:10] = 0x452A
 				if (op22_val == 0x452A) return DECODED_INSTR(MOVGR2FR_D);
 				// MOVFCSR2GR: bits[31:10] = 0x4532
-				if (op22_val == 0x4532) return DECODED_INSTR(MOVFCSR2GR);
+				if ((instr.whole & 0xFFFFFF80) == 0x0114C800) return DECODED_INSTR(MOVFCSR2GR);
 				// MOVFR2CF: bits[31:10] = 0x4534
-				if (op22_val == 0x4534) return DECODED_INSTR(MOVFR2CF);
+				if ((instr.whole & 0xFFFFFC18) == 0x0114D000) return DECODED_INSTR(MOVFR2CF);
 				// MOVCF2FR: bits[31:10] = 0x4535
-				if (op22_val == 0x4535) return DECODED_INSTR(MOVCF2FR);
+				if ((instr.whole & 0xFFFFFF00) == 0x0114D400) return DECODED_INSTR(MOVCF2FR);
 				// MOVGR2CF: bits[31:10] = 0x4536
-				if (op22_val == 0x4536) return DECODED_INSTR(MOVGR2CF);
+				if ((instr.whole & 0xFFFFFC18) == 0x0114D800) return DECODED_INSTR(MOVGR2CF);
 				// MOVCF2GR: bits[31:10] = 0x4537
-				if (op22_val == 0x4537) return DECODED_INSTR(MOVCF2GR);
+				if ((instr.whole & 0xFFFFFF00) == 0x0114DC00) return DECODED_INSTR(MOVCF2GR);
 				// FABS.D: bits[31:10] = 0x4502
 				if (op22_val == 0x4502) return DECODED_INSTR(FABS_D);
 				// FABS.S: bits[31:10] = 0x4501
@@ -644,14 +650,6 @@ namespace loongarch
 				// FTINTRZ.L.D: bits[31:10] = 0x46AA (truncate double to int64)
 				if (op22_val == 0x46AA) return DECODED_INSTR(FTINTRZ_L_D);
 			}
-			// FCMP.COR.D: bits[31:22] = 0x0C (opcode), bits[19:15] = 0x14 (COR condition)
-			{
-				uint32_t op10 = (instr.whole >> 22) & 0x3FF;
-				if (op10 == 0x00C) {
-					uint32_t cond = (instr.whole >> 15) & 0x1F;
-					if (cond == 0x14) return DECODED_INSTR(FCMP_COND_D);
-				}
-			}
 			// BSTRINS.D and BSTRPICK.D: bits [31:22] (op10)
 			{
 				uint32_t op10 = (instr.whole >> 22) & 0x3FF;
@@ -730,28 +728,15 @@ namespace loongarch
 		// FSEL: FP conditional select - bits[31:18] = 0x0340
 		if (((instr.whole >> 18) & 0x3FFF) == 0x0340) return DECODED_INSTR(FSEL);
 
-		// FCMP instructions: bits[31:22] = 0x030, bit 21 determines S vs D, bits[19:15] = condition code
-		{
-			uint32_t op10 = (instr.whole >> 22) & 0x3FF;
-			if (op10 == 0x030) {
-				// Bit 21: 0 = single precision (.s), 1 = double precision (.d)
-				bool is_double = (instr.whole >> 21) & 1;
-				return is_double ? DECODED_INSTR(FCMP_COND_D) : DECODED_INSTR(FCMP_COND_S);
-			}
-		}
-		// VFCMP instructions: bits[31:21] = 0x063, bits[20:15] = condition code
+		// FCMP, VFCMP and XVFCMP: bits[31:20] = opcode, bits[19:15] = condition code
+		if (is_fcmp_condition((instr.whole >> 15) & 0x1F))
 		{
-			uint32_t op11 = (instr.whole >> 21) & 0x7FF;
-			if (op11 == 0x063) {
-				return DECODED_INSTR(VFCMP_COND_D);
-			}
-		}
-		// XVFCMP instructions: bits[31:21] = 0x065, bits[20:15] = condition code (LASX)
-		{
-			uint32_t op11 = (instr.whole >> 21) & 0x7FF;
-			if (op11 == 0x065) {
-				return DECODED_INSTR(XVFCMP_COND_D);
-			}
+			const uint32_t op12 = instr.whole >> 20;
+			// The scalar compares write a condition flag (3 bits)
+			if (op12 == 0x0C1 && (instr.whole & 0x18) == 0) return DECODED_INSTR(FCMP_COND_S);
+			if (op12 == 0x0C2 && (instr.whole & 0x18) == 0) return DECODED_INSTR(FCMP_COND_D);
+			if (op12 == 0x0C6) return DECODED_INSTR(VFCMP_COND_D);
+			if (op12 == 0x0CA) return DECODED_INSTR(XVFCMP_COND_D);
 		}
 			break;
 
@@ -867,27 +852,27 @@ namespace loongarch
 			if ((instr.whole & 0xFFFF8000) == 0x38240000) return DECODED_INSTR(LDX_HU);
 			if ((instr.whole & 0xFFFF8000) == 0x38280000) return DECODED_INSTR(LDX_WU);
 
-			// STX instructions: bits [31:18] identify the operation
-			if ((instr.whole & 0xFFFC0000) == Opcode::STX_B) return DECODED_INSTR(STX_B);
-			if ((instr.whole & 0xFFFC0000) == Opcode::STX_H) return DECODED_INSTR(STX_H);
-			if ((instr.whole & 0xFFFC0000) == Opcode::STX_W) return DECODED_INSTR(STX_W);
-			if ((instr.whole & 0xFFFC0000) == Opcode::STX_D) return DECODED_INSTR(STX_D);
+			// STX instructions: bits [31:15] identify the operation
+			if (op17 == Opcode::STX_B) return DECODED_INSTR(STX_B);
+			if (op17 == Opcode::STX_H) return DECODED_INSTR(STX_H);
+			if (op17 == Opcode::STX_W) return DECODED_INSTR(STX_W);
+			if (op17 == Opcode::STX_D) return DECODED_INSTR(STX_D);
 			// FLDX_D: Floating-point indexed load (double)
-			if ((instr.whole & 0xFFFC0000) == 0x38340000) return DECODED_INSTR(FLDX_D);
+			if (op17 == 0x38340000) return DECODED_INSTR(FLDX_D);
 			// FLDX_S: Floating-point indexed load (single) - 0x38300000
-			if ((instr.whole & 0xFFFC0000) == 0x38300000) return DECODED_INSTR(FLDX_S);
+			if (op17 == 0x38300000) return DECODED_INSTR(FLDX_S);
 			// FSTX_D: Floating-point indexed store
-			if ((instr.whole & 0xFFFC0000) == Opcode::FSTX_D) return DECODED_INSTR(FSTX_D);
+			if (op17 == Opcode::FSTX_D) return DECODED_INSTR(FSTX_D);
 			// FSTX_S: Floating-point indexed store (single) - 0x38380000
-			if ((instr.whole & 0xFFFC0000) == 0x38380000) return DECODED_INSTR(FSTX_S);
+			if (op17 == 0x38380000) return DECODED_INSTR(FSTX_S);
 			// VLDX: Vector indexed load (LSX 128-bit)
-			if ((instr.whole & 0xFFFC0000) == 0x38400000) return DECODED_INSTR(VLDX);
+			if (op17 == 0x38400000) return DECODED_INSTR(VLDX);
 			// VSTX: Vector indexed store (LSX 128-bit)
-			if ((instr.whole & 0xFFFC0000) == 0x38440000) return DECODED_INSTR(VSTX);
+			if (op17 == 0x38440000) return DECODED_INSTR(VSTX);
 			// XVLDX: Vector indexed load (LASX 256-bit)
-			if ((instr.whole & 0xFFFC0000) == 0x38480000) return DECODED_INSTR(XVLDX);
+			if (op17 == 0x38480000) return DECODED_INSTR(XVLDX);
 			// XVSTX: Vector indexed store (LASX 256-bit)
-			if ((instr.whole & 0xFFFC0000) == 0x384C0000) return DECODED_INSTR(XVSTX);
+			if (op17 == 0x384C0000) return DECODED_INSTR(XVSTX);
 
 			// Atomic instructions: bits [31:20] = 0x386
 			// Empirical encoding: bits[19:16] encode both operation and ordering
@@ -902,28 +887,21 @@ namespace loongarch
 				uint32_t op_ord = (instr.whole >> 16) & 0xF;
 				bool is_64bit = ((instr.whole >> 15) & 1);
 
-				// Decode by bits[19:16] value
-				// Based on empirical observation:
-				// AMSWAP: 0 (no ord), 9 (_db)
-				// AMADD: 1 (no ord), 10 (_db)
-				// Assuming pattern continues: AMAND: 2, AMOR: 3, etc.
+				// Decode by bits[19:16] value: AMSWAP, AMADD, AMAND, AMOR, AMXOR
+				// (0-4), and the same operations with a barrier (9-13)
 				switch (op_ord) {
 					case 0: case 9: // AMSWAP
 						return is_64bit ? DECODED_INSTR(AMSWAP_D) : DECODED_INSTR(AMSWAP_W);
 					case 1: case 10: // AMADD
 						return is_64bit ? DECODED_INSTR(AMADD_D) : DECODED_INSTR(AMADD_W);
-					case 2: case 11: // AMAND (guessed)
+					case 2: case 11: // AMAND
 						return is_64bit ? DECODED_INSTR(AMAND_D) : DECODED_INSTR(AMAND_W);
-					case 3: case 12: // AMOR (guessed)
+					case 3: case 12: // AMOR
 						return is_64bit ? DECODED_INSTR(AMOR_D) : DECODED_INSTR(AMOR_W);
-					// TODO: Verify AMXOR, AMMAX, AMMIN encodings when encountered
+					case 4: case 13: // AMXOR
+						return is_64bit ? DECODED_INSTR(AMXOR_D) : DECODED_INSTR(AMXOR_W);
 				}
 			}
-			// AMXOR: bits [31:20] = 0x387
-			if ((instr.whole & 0xFFF00000) == 0x38700000) {
-				bool is_64bit = ((instr.whole >> 15) & 1);
-				return is_64bit ? DECODED_INSTR(AMXOR_D) : DECODED_INSTR(AMXOR_W);
-			}
 			break;
 		case 0x0B: // VLD / VST / XVLD / XVST instructions (op6 = 0x0B for 0x2Cxxxxxx)
 			// Example VLD: 2c0041a2
@@ -953,24 +931,20 @@ namespace loongarch
 				// VORI.B: Vector OR immediate (byte) - bits[31:18] = 0x1CF5
 				if ((instr.whole >> 18) == 0x1CF5) return DECODED_INSTR(VORI_B);
 				// VSLLI: Vector Shift Left Logical Immediate - bits[31:15] identify size
-				// VBITREVI.D: Vector Bit Reverse Immediate (double) - bits[31:15] = 0xE660
-				// VPCNT: Vector Population Count - bits[31:15] = 0xE538, bits[14:10] select size
+				// VBITREVI.D: Vector Bit Reverse Immediate (double) - bits[31:16] = 0x7319
+				// VPCNT: Vector Population Count - bits[31:10] identify size
 				uint32_t bits15 = instr.whole >> 15;
-				if (bits15 == 0xE658) {
-					// vslli.b and vslli.h both have bits[31:15] = 0xe658, differentiate by bit 14
-					uint32_t bit14 = (instr.whole >> 14) & 1;
-					if (bit14 == 0) return DECODED_INSTR(VSLLI_B);
-					else return DECODED_INSTR(VSLLI_H);
-				}
+				if ((instr.whole >> 13) == 0x39961) return DECODED_INSTR(VSLLI_B);
+				if ((instr.whole >> 14) == 0x1CCB1) return DECODED_INSTR(VSLLI_H);
 				if (bits15 == 0xE659) return DECODED_INSTR(VSLLI_W);
-				if (bits15 == 0xE65A) return DECODED_INSTR(VSLLI_D);
-				if (bits15 == 0xE660) return DECODED_INSTR(VBITREVI_D);
-				if (bits15 == 0xE538) {
-					uint32_t size = (instr.whole >> 10) & 0x3;
-					if (size == 0) return DECODED_INSTR(VPCNT_B);
-					if (size == 1) return DECODED_INSTR(VPCNT_H);
-					if (size == 2) return DECODED_INSTR(VPCNT_W);
-					if (size == 3) return DECODED_INSTR(VPCNT_D);
+				if (top16 == 0x732D) return DECODED_INSTR(VSLLI_D);
+				if (top16 == 0x7319) return DECODED_INSTR(VBITREVI_D);
+				if (top16 == 0x729C) {
+					uint32_t subop = (instr.whole >> 10) & 0x3F;
+					if (subop == 0x08) return DECODED_INSTR(VPCNT_B);
+					if (subop == 0x09) return DECODED_INSTR(VPCNT_H);
+					if (subop == 0x0A) return DECODED_INSTR(VPCNT_W);
+					if (subop == 0x0B) return DECODED_INSTR(VPCNT_D);
 				}
 				// VMAX/VMIN instructions - bits[31:15] identify variants
 				// Signed: 0xE0E0-E0E3 (b/h/w/d), Unsigned: 0xE0E8-E0EB (bu/hu/wu/du)
@@ -1018,8 +992,8 @@ namespace loongarch
 					return DECODED_INSTR(VILVL_D);
 				}
 				// VILVH.D: Vector Interleave High Double-word
-				// bits[31:15] = 0xE23F
-				if ((instr.whole >> 15) == 0xE23F) {
+				// bits[31:15] = 0xE23B
+				if ((instr.whole >> 15) == 0xE23B) {
 					return DECODED_INSTR(VILVH_D);
 				}
 				// VPICKEV.W: Vector Pick Even Word
@@ -1028,33 +1002,33 @@ namespace loongarch
 					return DECODED_INSTR(VPICKEV_W);
 				}
 				// VPICKVE2GR instructions: signed (0x72EF) and unsigned (0x72F3)
-				// bits[15:12] determine size: 0x8=B, 0xC=H, 0xE=W, 0xF=D
+				// .b: bits[15:14]=10, .h: bits[15:13]=110, .w: bits[15:12]=1110, .d: bits[15:11]=11110
 				if (top16 == 0x72EF) {
-					uint32_t subop = (instr.whole >> 12) & 0xF;
-					if (subop == 0x8) return DECODED_INSTR(VPICKVE2GR_B);
-					if (subop == 0xC) return DECODED_INSTR(VPICKVE2GR_H);
-					if (subop == 0xE) return DECODED_INSTR(VPICKVE2GR_W);
-					if (subop == 0xF) return DECODED_INSTR(VPICKVE2GR_D);
+					uint32_t subop = (instr.whole >> 11) & 0x1F;
+					if ((subop >> 3) == 0x2) return DECODED_INSTR(VPICKVE2GR_B);
+					if ((subop >> 2) == 0x6) return DECODED_INSTR(VPICKVE2GR_H);
+					if ((subop >> 1) == 0xE) return DECODED_INSTR(VPICKVE2GR_W);
+					if (subop == 0x1E) return DECODED_INSTR(VPICKVE2GR_D);
 				}
 				if (top16 == 0x72F3) {
-					uint32_t subop = (instr.whole >> 12) & 0xF;
-					if (subop == 0x8) return DECODED_INSTR(VPICKVE2GR_BU);
-					if (subop == 0xC) return DECODED_INSTR(VPICKVE2GR_HU);
-					if (subop == 0xE) return DECODED_INSTR(VPICKVE2GR_WU);
-					if (subop == 0xF) return DECODED_INSTR(VPICKVE2GR_DU);
-				}
-				// VREPLVEI.D: 0x72F7xxxx (Vector Replicate Vector Element Immediate - double)
-				if (top16 == 0x72F7) {
+					uint32_t subop = (instr.whole >> 11) & 0x1F;
+					if ((subop >> 3) == 0x2) return DECODED_INSTR(VPICKVE2GR_BU);
+					if ((subop >> 2) == 0x6) return DECODED_INSTR(VPICKVE2GR_HU);
+					if ((subop >> 1) == 0xE) return DECODED_INSTR(VPICKVE2GR_WU);
+					if (subop == 0x1E) return DECODED_INSTR(VPICKVE2GR_DU);
+				}
+				// VREPLVEI.D: bits[31:11] (Vector Replicate Vector Element Immediate - double)
+				if ((instr.whole & 0xFFFFF800) == 0x72F7F000) {
 					return DECODED_INSTR(VREPLVEI_D);
 				}
 				if (top16 == 0x729C) {
 					uint32_t subop = (instr.whole >> 10) & 0x3F;
-					if (subop == 0x28) return DECODED_INSTR(VSETANYEQZ_B);
 					if (subop == 0x18) return DECODED_INSTR(VMSKNZ_B);
-				}
-				if (top16 == 0x729D) {
-					uint32_t subop = (instr.whole >> 10) & 0x3F;
-					if (subop == 0x18) return DECODED_INSTR(VSETALLNEZ_B);
+					// These write a condition flag (3 bits)
+					if ((instr.whole & 0x18) == 0) {
+						if (subop == 0x28) return DECODED_INSTR(VSETANYEQZ_B);
+						if (subop == 0x2C) return DECODED_INSTR(VSETALLNEZ_B);
+					}
 				}
 				// VREPLGR2VR: 0x729F0xxx
 				// .B (subop=0x00), .H (subop=0x01), .W (subop=0x02), .D (subop=0x03)
@@ -1198,15 +1172,9 @@ namespace loongarch
 				if ((instr.whole >> 15) == 0xE534) {
 					return DECODED_INSTR(VFRSTPI_B);
 				}
-				// VFTINTRZ.W.S / VFTINTRZ.L.D: bits[31:15] = 0xE53C
-				if ((instr.whole >> 15) == 0xE53C) {
-					// Differentiate by bit 10
-					if ((instr.whole >> 10) & 1) {
-						return DECODED_INSTR(VFTINTRZ_L_D);
-					} else {
-						return DECODED_INSTR(VFTINTRZ_W_S);
-					}
-				}
+				// VFTINTRZ.W.S / VFTINTRZ.L.D: bits[31:10]
+				if ((instr.whole & 0xFFFFFC00) == 0x729E4800) return DECODED_INSTR(VFTINTRZ_W_S);
+				if ((instr.whole & 0xFFFFFC00) == 0x729E4C00) return DECODED_INSTR(VFTINTRZ_L_D);
 				// VXOR.V: bits[31:15] = 0xE24E
 				if ((instr.whole >> 15) == 0xE24E) {
 					return DECODED_INSTR(VXOR_V);
@@ -1236,25 +1204,25 @@ namespace loongarch
 
 				// XVMSKNZ.B: 0x769C6xxx (bits[31:16] = 0x769C, bits[15:10] = 0x18)
 				// XVSETANYEQZ.B: 0x769CAxx (bits[31:16] = 0x769C, bits[15:10] = 0x28)
-				// XVSETEQZ.V: 0x769CBxxx (bits[31:16] = 0x769C, bits[15:10] = 0x2C)
+				// XVSETEQZ.V: 0x769C98xx (bits[31:16] = 0x769C, bits[15:10] = 0x26)
 				if (top16 == 0x769C) {
 					uint32_t subop = (instr.whole >> 10) & 0x3F;
 					if (subop == 0x18) return DECODED_INSTR(XVMSKNZ_B);
-					if (subop == 0x28) return DECODED_INSTR(XVSETANYEQZ_B);
-					if (subop == 0x2C) return DECODED_INSTR(XVSETEQZ_V);
+					// These write a condition flag (3 bits)
+					if ((instr.whole & 0x18) == 0) {
+						if (subop == 0x28) return DECODED_INSTR(XVSETANYEQZ_B);
+						if (subop == 0x26) return DECODED_INSTR(XVSETEQZ_V);
+					}
 				}
 				// XVREPLGR2VR.B: 0x769F0xxx (bits[31:16] = 0x769F, bits[15:10] = 0x00)
 				if (top16 == 0x769F) {
 					uint32_t subop = (instr.whole >> 10) & 0x3F;
 					if (subop == 0x00) return DECODED_INSTR(XVREPLGR2VR_B);
 				}
-				// XVPICKVE.W: 0x7703Dxxx (bits[31:16] = 0x7703, bits[15:10] = 0x34)
-				if (top16 == 0x7703) {
-					uint32_t subop = (instr.whole >> 10) & 0x3F;
-					if (subop == 0x34) return DECODED_INSTR(XVPICKVE_W);
-				}
-				// XVSEQ.B: bits[31:15] = 0xEE00
-				if ((instr.whole >> 15) == 0xEE00) {
+				// XVPICKVE.W: bits[31:13] = 0x3B81E, 3-bit element index
+				if ((instr.whole & 0xFFFFE000) == 0x7703C000) return DECODED_INSTR(XVPICKVE_W);
+				// XVSEQ.B: bits[31:15] = 0xE800
+				if ((instr.whole >> 15) == 0xE800) {
 					return DECODED_INSTR(XVSEQ_B);
 				}
 				// XVXOR.V: bits[31:15] = 0xEA4E
@@ -1281,17 +1249,17 @@ namespace loongarch
 				if ((instr.whole >> 15) == 0xE8AB) {
 					return DECODED_INSTR(XVHADDW_Q_D);
 				}
+				// XVMAX.BU: bits[31:15] = 0xE8E8
+				if ((instr.whole >> 15) == 0xE8E8) {
+					return DECODED_INSTR(XVMAX_BU);
+				}
 				// XVMIN.BU: bits[31:15] = 0xE8EC
 				if ((instr.whole >> 15) == 0xE8EC) {
 					return DECODED_INSTR(XVMIN_BU);
 				}
-				// XVMAX.BU: bits[31:15] = 0xE8ED
-				if ((instr.whole >> 15) == 0xE8ED) {
-					return DECODED_INSTR(XVMAX_BU);
-				}
-				// XVPICKVE2GR.W: bits[31:18] = 0x1DBB (0x76EFxxxx)
+				// XVPICKVE2GR.W: bits[31:13], 3-bit element index
 				// Pick word element from LASX vector to general register
-				if ((instr.whole >> 18) == 0x1DBB) {
+				if ((instr.whole & 0xFFFFE000) == 0x76EFC000) {
 					return DECODED_INSTR(XVPICKVE2GR_W);
 				}
 				// XVPERMI.Q: LASX permute quadword - bits[31:18] = 0x1DFB
@@ -1311,48 +1279,44 @@ namespace loongarch
 				// XVFSUB.D: LASX vector floating-point subtract (double) - bits[31:15] = 0xEA66
 				// Opcode: 0x75330000 >> 15 = 0xEA66
 				if ((instr.whole >> 15) == 0xEA66) return DECODED_INSTR(XVFSUB_D);
-				// XVBITREVI.D: LASX vector bit reverse immediate (double) - bits[31:15] = 0xEE32
-				// Opcode: 0x77190000 >> 15 = 0xEE32
-				if ((instr.whole >> 15) == 0xEE32) return DECODED_INSTR(XVBITREVI_D);
+				// XVBITREVI.D: LASX vector bit reverse immediate (double) - bits[31:16] = 0x7719
+				if (top16 == 0x7719) return DECODED_INSTR(XVBITREVI_D);
 				// XVREPLVE.D: LASX vector replicate element (double) - bits[31:15] = 0xEA47
 				// Opcode: 0x75238000 >> 15 = 0xEA47
 				if ((instr.whole >> 15) == 0xEA47) return DECODED_INSTR(XVREPLVE_D);
-				// XVORI.B: LASX vector OR immediate byte - bits[31:15] = 0xEFA8
-				// Opcode: 0x77d40000 >> 15 = 0xEFA8
-				if ((instr.whole >> 15) == 0xEFA8) return DECODED_INSTR(XVORI_B);
-				// XVXORI.B: LASX vector XOR immediate byte - bits[31:15] = 0xEFB0
-				// Opcode: 0x77d80000 >> 15 = 0xEFB0
-				if ((instr.whole >> 15) == 0xEFB0) return DECODED_INSTR(XVXORI_B);
+				// XVORI.B: LASX vector OR immediate byte - bits[31:18] = 0x1DF5
+				// Opcode: 0x77d40000 >> 18 = 0x1DF5
+				if ((instr.whole >> 18) == 0x1DF5) return DECODED_INSTR(XVORI_B);
+				// XVXORI.B: LASX vector XOR immediate byte - bits[31:18] = 0x1DF6
+				// Opcode: 0x77d80000 >> 18 = 0x1DF6
+				if ((instr.whole >> 18) == 0x1DF6) return DECODED_INSTR(XVXORI_B);
 				// XVILVL.D: LASX vector interleave low double-word - bits[31:15] = 0xEA37
 				// Opcode: 0x751b8000 >> 15 = 0xEA37
 				if ((instr.whole >> 15) == 0xEA37) return DECODED_INSTR(XVILVL_D);
-				// XVILVH.D: LASX vector interleave high double-word - bits[31:15] = 0xEA3F
-				// Opcode: 0x751f8000 >> 15 = 0xEA3F
-				if ((instr.whole >> 15) == 0xEA3F) return DECODED_INSTR(XVILVH_D);
-				// XVPERMI.D: LASX vector permute double-word - bits[31:18] = 0x1dc1
-				// Opcode: 0x7707e000 >> 18 = 0x1dc1
-				if ((instr.whole >> 18) == 0x1dc1) return DECODED_INSTR(XVPERMI_D);
-				// XVPACKEV.D: LASX vector pack even double-word - bits[31:15] = 0xea66
-				// Opcode: 0x75330000 >> 15 = 0xea66
-				if ((instr.whole >> 15) == 0xea66) return DECODED_INSTR(XVPACKEV_D);
-				// XVPACKOD.D: LASX vector pack odd double-word - bits[31:15] = 0xee33
-				// Opcode: 0x77198000 >> 15 = 0xee33
-				if ((instr.whole >> 15) == 0xee33) return DECODED_INSTR(XVPACKOD_D);
-				// XVPICKEV.D: LASX vector pick even double-word - bits[31:15] = 0xee07
-				// Opcode: 0x7703c000 >> 15 = 0xee07
-				if ((instr.whole >> 15) == 0xee07) return DECODED_INSTR(XVPICKEV_D);
+				// XVILVH.D: LASX vector interleave high double-word - bits[31:15] = 0xEA3B
+				// Opcode: 0x751d8000 >> 15 = 0xEA3B
+				if ((instr.whole >> 15) == 0xEA3B) return DECODED_INSTR(XVILVH_D);
+				// XVPERMI.D: LASX vector permute double-word - bits[31:18] = 0x1dfa
+				// Opcode: 0x77e80000 >> 18 = 0x1dfa
+				if ((instr.whole >> 18) == 0x1dfa) return DECODED_INSTR(XVPERMI_D);
+				// XVPACKEV.D: LASX vector pack even double-word - bits[31:15] = 0xea2f
+				// Opcode: 0x75178000 >> 15 = 0xea2f
+				if ((instr.whole >> 15) == 0xea2f) return DECODED_INSTR(XVPACKEV_D);
+				// XVPACKOD.D: LASX vector pack odd double-word - bits[31:15] = 0xea33
+				// Opcode: 0x75198000 >> 15 = 0xea33
+				if ((instr.whole >> 15) == 0xea33) return DECODED_INSTR(XVPACKOD_D);
+				// XVPICKEV.D: LASX vector pick even double-word - bits[31:15] = 0xea3f
+				// Opcode: 0x751f8000 >> 15 = 0xea3f
+				if ((instr.whole >> 15) == 0xea3f) return DECODED_INSTR(XVPICKEV_D);
 				// XVPICKEV.W: LASX vector pick even word - bits[31:15] = 0xea3e
 				// Opcode: 0x751f0000 >> 15 = 0xea3e
 				if ((instr.whole >> 15) == 0xea3e) return DECODED_INSTR(XVPICKEV_W);
-				// XVPICKOD.D: LASX vector pick odd double-word - bits[31:15] = 0xee0f
-				// Opcode: 0x77078000 >> 15 = 0xee0f
-				if ((instr.whole >> 15) == 0xee0f) return DECODED_INSTR(XVPICKOD_D);
-				// XVLDI: LASX load immediate - bits[31:23] = 0xEF
-				// Opcode: 0x77e00000 >> 23 = 0xEF (format: XdSj13 with 13-bit immediate)
-				// Note: Checked last as catch-all for 0x77exxxxx / 0x77fxxxxx after specific instructions
-				if ((instr.whole >> 23) == 0xEF) {
-					return DECODED_INSTR(XVLDI);
-				}
+				// XVPICKOD.D: LASX vector pick odd double-word - bits[31:15] = 0xea43
+				// Opcode: 0x75218000 >> 15 = 0xea43
+				if ((instr.whole >> 15) == 0xea43) return DECODED_INSTR(XVPICKOD_D);
+				// XVLDI: LASX load immediate - bits[31:18] = 0x1DF8
+				// Opcode: 0x77e00000 (format: XdSj13 with 13-bit immediate)
+				if ((instr.whole >> 18) == 0x1DF8) return DECODED_INSTR(XVLDI);
 			}
 			break;
 		}
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 22b7597..4751f93 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -3916,7 +3916,7 @@ struct InstrImpl {
 
 	static void XVILVH_D(cpu_t& cpu, la_instruction instr) {
 		// XVILVH.D: LASX vector interleave high double-word (256-bit)
-		// Interleaves the high 128-bit double-words from two 256-bit vectors
+		// Interleaves the high double-words of each 128-bit half of two vectors
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3925,12 +3925,13 @@ struct InstrImpl {
 		const auto& src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Interleave: dst[0] = src_k[2], dst[1] = src_j[2], dst[2] = src_k[3], dst[3] = src_j[3]
-		// For LASX (256-bit), we interleave the high 2 double-words (128-bit) from each source
-		dst.du[0] = src_k.du[2];
-		dst.du[1] = src_j.du[2];
-		dst.du[2] = src_k.du[3];
-		dst.du[3] = src_j.du[3];
+		// Read all inputs first to handle register aliasing
+		const uint64_t r0 = src_k.du[1], r1 = src_j.du[1];
+		const uint64_t r2 = src_k.du[3], r3 = src_j.du[3];
+		dst.du[0] = r0;
+		dst.du[1] = r1;
+		dst.du[2] = r2;
+		dst.du[3] = r3;
 	}
 
 	static void XVPERMI_D(cpu_t& cpu, la_instruction instr) {
@@ -3962,8 +3963,7 @@ struct InstrImpl {
 
 	static void XVPACKEV_D(cpu_t& cpu, la_instruction instr) {
 		// XVPACKEV.D: LASX vector pack even double-word (256-bit)
-		// Packs even-numbered elements (0, 2) from each source
-		// dst[0] = xj[0], dst[1] = xk[0], dst[2] = xj[2], dst[3] = xk[2]
+		// Packs the even elements of each 128-bit half: dst = xk[0], xj[0], xk[2], xj[2]
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3972,17 +3972,18 @@ struct InstrImpl {
 		const auto& src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Pack even elements (0 and 2) from both sources
-		dst.du[0] = src_j.du[0];
-		dst.du[1] = src_k.du[0];
-		dst.du[2] = src_j.du[2];
-		dst.du[3] = src_k.du[2];
+		// Read all inputs first to handle register aliasing
+		const uint64_t r0 = src_k.du[0], r1 = src_j.du[0];
+		const uint64_t r2 = src_k.du[2], r3 = src_j.du[2];
+		dst.du[0] = r0;
+		dst.du[1] = r1;
+		dst.du[2] = r2;
+		dst.du[3] = r3;
 	}
 
 	static void XVPACKOD_D(cpu_t& cpu, la_instruction instr) {
 		// XVPACKOD.D: LASX vector pack odd double-word (256-bit)
-		// Packs odd-numbered elements (1, 3) from each source
-		// dst[0] = xj[1], dst[1] = xk[1], dst[2] = xj[3], dst[3] = xk[3]
+		// Packs the odd elements of each 128-bit half: dst = xk[1], xj[1], xk[3], xj[3]
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3991,17 +3992,18 @@ struct InstrImpl {
 		const auto& src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Pack odd elements (1 and 3) from both sources
-		dst.du[0] = src_j.du[1];
-		dst.du[1] = src_k.du[1];
-		dst.du[2] = src_j.du[3];
-		dst.du[3] = src_k.du[3];
+		// Read all inputs first to handle register aliasing
+		const uint64_t r0 = src_k.du[1], r1 = src_j.du[1];
+		const uint64_t r2 = src_k.du[3], r3 = src_j.du[3];
+		dst.du[0] = r0;
+		dst.du[1] = r1;
+		dst.du[2] = r2;
+		dst.du[3] = r3;
 	}
 
 	static void XVPICKEV_D(cpu_t& cpu, la_instruction instr) {
 		// XVPICKEV.D: LASX vector pick even double-word (256-bit)
-		// Picks even elements from both sources in a different pattern than PACKEV
-		// dst[0] = xj[0], dst[1] = xj[2], dst[2] = xk[0], dst[3] = xk[2]
+		// Picks the even elements of each 128-bit half: dst = xk[0], xj[0], xk[2], xj[2]
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -4010,11 +4012,13 @@ struct InstrImpl {
 		const auto& src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Pick even elements (0 and 2) from both sources
-		dst.du[0] = src_j.du[0];
-		dst.du[1] = src_j.du[2];
-		dst.du[2] = src_k.du[0];
-		dst.du[3] = src_k.du[2];
+		// Read all inputs first to handle register aliasing
+		const uint64_t r0 = src_k.du[0], r1 = src_j.du[0];
+		const uint64_t r2 = src_k.du[2], r3 = src_j.du[2];
+		dst.du[0] = r0;
+		dst.du[1] = r1;
+		dst.du[2] = r2;
+		dst.du[3] = r3;
 	}
 
 	static void XVPICKEV_W(cpu_t& cpu, la_instruction instr) {
@@ -4039,8 +4043,7 @@ struct InstrImpl {
 
 	static void XVPICKOD_D(cpu_t& cpu, la_instruction instr) {
 		// XVPICKOD.D: LASX vector pick odd double-word (256-bit)
-		// Picks odd elements from both sources
-		// dst[0] = xj[1], dst[1] = xj[3], dst[2] = xk[1], dst[3] = xk[3]
+		// Picks the odd elements of each 128-bit half: dst = xk[1], xj[1], xk[3], xj[3]
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -4049,11 +4052,13 @@ struct InstrImpl {
 		const auto& src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Pick odd elements (1 and 3) from both sources
-		dst.du[0] = src_j.du[1];
-		dst.du[1] = src_j.du[3];
-		dst.du[2] = src_k.du[1];
-		dst.du[3] = src_k.du[3];
+		// Read all inputs first to handle register aliasing
+		const uint64_t r0 = src_k.du[1], r1 = src_j.du[1];
+		const uint64_t r2 = src_k.du[3], r3 = src_j.du[3];
+		dst.du[0] = r0;
+		dst.du[1] = r1;
+		dst.du[2] = r2;
+		dst.du[3] = r3;
 	}
 
 	static void XVLDI(cpu_t& cpu, la_instruction instr) {
-- 
2.43.0


From 3f24d55fd3351a82dfe7d98d7347085d55ec8535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:29 +0000
Subject: [PATCH 18/71] fix: unaligned 256-bit vector loads and stores must not
 crash the host

---
 lib/libloong/memory_inline.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/memory_inline.hpp b/lib/libloong/memory_inline.hpp
index b147ff9..ef9c1a1 100644
--- a/lib/libloong/memory_inline.hpp
+++ b/lib/libloong/memory_inline.hpp
@@ -20,7 +20,10 @@ inline T Memory::read(address_t addr) const
 		}
 	}
 
-	return *reinterpret_cast<const T*>(&m_arena[addr]);
+	// The guest address may have any alignment
+	T value;
+	std::memcpy(&value, &m_arena[addr], sizeof(T));
+	return value;
 }
 
 template <typename T, bool EnableSegReg>
@@ -38,7 +41,8 @@ inline void Memory::write(address_t addr, T value)
 		}
 	}
 
-	*reinterpret_cast<T*>(&m_arena[addr]) = value;
+	// The guest address may have any alignment
+	std::memcpy(&m_arena[addr], &value, sizeof(T));
 }
 
 template <typename T>
-- 
2.43.0


From 7364de7b626f2b1933eae7dff62d0dd3c0eefd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:05 +0000
Subject: [PATCH 19/71] fix: loads into the zero register still access memory,
 and stx.b of the zero register still stores

---
 lib/libloong/decoder_cache.cpp     | 15 +++++++++++++++
 lib/libloong/la_instr_impl.hpp     | 21 +++++++--------------
 lib/libloong/threaded_rewriter.cpp |  1 -
 3 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/lib/libloong/decoder_cache.cpp b/lib/libloong/decoder_cache.cpp
index 6f0b101..5261362 100644
--- a/lib/libloong/decoder_cache.cpp
+++ b/lib/libloong/decoder_cache.cpp
@@ -42,6 +42,21 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 	// Determine the bytecode for a given instruction using its ID
 	static uint8_t determine_bytecode(InstrId id, const uint32_t instr, const uint16_t handler_idx)
 	{
+		// A load into the zero register discards the value, but it must still
+		// access memory: the bytecodes write rd without checking for zero.
+		if ((instr & 0x1F) == 0) {
+			switch (id) {
+			case InstrId::LD_B: case InstrId::LD_H: case InstrId::LD_D:
+			case InstrId::LD_BU: case InstrId::LD_HU: case InstrId::LD_WU:
+			case InstrId::LDX_B: case InstrId::LDX_H: case InstrId::LDX_W: case InstrId::LDX_D:
+			case InstrId::LDX_BU: case InstrId::LDX_HU:
+			case InstrId::LDPTR_W: case InstrId::LDPTR_D:
+				return LA64_BC_FUNCTION + (handler_idx >> 8);
+			default:
+				break;
+			}
+		}
+
 		// Use switch on instruction ID enum instead of re-decoding
 		// This maps InstrId to bytecode, avoiding duplicate decoding logic
 		switch (id) {
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 4751f93..c4c6f5e 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -272,44 +272,37 @@ struct InstrImpl {
 
 	static void LD_B(cpu_t& cpu, la_instruction instr) {
 		auto addr = cpu.reg(instr.ri12.rj) + InstructionHelpers::sign_extend_12(instr.ri12.imm);
-		if (instr.ri12.rd != 0)
-			cpu.reg(instr.ri12.rd) = (int64_t)cpu.memory().template read<int8_t, true>(addr);
+		cpu.reg(instr.ri12.rd) = (int64_t)cpu.memory().template read<int8_t, true>(addr);
 	}
 
 	static void LD_H(cpu_t& cpu, la_instruction instr) {
 		auto addr = cpu.reg(instr.ri12.rj) + InstructionHelpers::sign_extend_12(instr.ri12.imm);
-		if (instr.ri12.rd != 0)
-			cpu.reg(instr.ri12.rd) = (int64_t)cpu.memory().template read<int16_t, true>(addr);
+		cpu.reg(instr.ri12.rd) = (int64_t)cpu.memory().template read<int16_t, true>(addr);
 	}
 
 	static void LD_W(cpu_t& cpu, la_instruction instr) {
 		auto addr = cpu.reg(instr.ri12.rj) + InstructionHelpers::sign_extend_12(instr.ri12.imm);
-		if (instr.ri12.rd != 0)
-			cpu.reg(instr.ri12.rd) = (int64_t)cpu.memory().template read<int32_t, true>(addr);
+		cpu.reg(instr.ri12.rd) = (int64_t)cpu.memory().template read<int32_t, true>(addr);
 	}
 
 	static void LD_D(cpu_t& cpu, la_instruction instr) {
 		auto addr = cpu.reg(instr.ri12.rj) + InstructionHelpers::sign_extend_12(instr.ri12.imm);
-		if (instr.ri12.rd != 0)
-			cpu.reg(instr.ri12.rd) = cpu.memory().template read<int64_t, true>(addr);
+		cpu.reg(instr.ri12.rd) = cpu.memory().template read<int64_t, true>(addr);
 	}
 
 	static void LD_BU(cpu_t& cpu, la_instruction instr) {
 		auto addr = cpu.reg(instr.ri12.rj) + InstructionHelpers::sign_extend_12(instr.ri12.imm);
-		if (instr.ri12.rd != 0)
-			cpu.reg(instr.ri12.rd) = (uint64_t)cpu.memory().template read<uint8_t, true>(addr);
+		cpu.reg(instr.ri12.rd) = (uint64_t)cpu.memory().template read<uint8_t, true>(addr);
 	}
 
 	static void LD_HU(cpu_t& cpu, la_instruction instr) {
 		auto addr = cpu.reg(instr.ri12.rj) + InstructionHelpers::sign_extend_12(instr.ri12.imm);
-		if (instr.ri12.rd != 0)
-			cpu.reg(instr.ri12.rd) = (uint64_t)cpu.memory().template read<uint16_t, true>(addr);
+		cpu.reg(instr.ri12.rd) = (uint64_t)cpu.memory().template read<uint16_t, true>(addr);
 	}
 
 	static void LD_WU(cpu_t& cpu, la_instruction instr) {
 		auto addr = cpu.reg(instr.ri12.rj) + InstructionHelpers::sign_extend_12(instr.ri12.imm);
-		if (instr.ri12.rd != 0)
-			cpu.reg(instr.ri12.rd) = (uint64_t)cpu.memory().template read<uint32_t, true>(addr);
+		cpu.reg(instr.ri12.rd) = (uint64_t)cpu.memory().template read<uint32_t, true>(addr);
 	}
 
 	static void PRELD(cpu_t&, la_instruction) {
diff --git a/lib/libloong/threaded_rewriter.cpp b/lib/libloong/threaded_rewriter.cpp
index 719387a..56b7360 100644
--- a/lib/libloong/threaded_rewriter.cpp
+++ b/lib/libloong/threaded_rewriter.cpp
@@ -698,7 +698,6 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.r3.rd;
 			fi.rj = original.r3.rj;
 			fi.rk = original.r3.rk;
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_EXT_W_H: {
-- 
2.43.0


From ecaa4498721764d2d24419fbe8fd58896c16cc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:04 +0000
Subject: [PATCH 20/71] fix: branches reach every encodable offset and other
 segments, misaligned jump targets fault

---
 lib/libloong/bytecode_impl.cpp                | 19 ++++++++++--------
 lib/libloong/la_instr_impl.hpp                | 14 +++++--------
 lib/libloong/tailcall_bytecode_array.hpp      |  1 +
 lib/libloong/tailcall_dispatch.cpp            | 11 ++++++++++
 lib/libloong/tailcall_inaccurate_dispatch.cpp | 11 ++++++++++
 lib/libloong/threaded_bytecode_array.hpp      |  1 +
 lib/libloong/threaded_bytecodes.hpp           | 20 +++++++++----------
 lib/libloong/threaded_dispatch.cpp            | 12 +++++++++++
 lib/libloong/threaded_inaccurate_dispatch.cpp | 12 +++++++++++
 lib/libloong/threaded_rewriter.cpp            | 20 +++++++++++--------
 10 files changed, 86 insertions(+), 35 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index e9b739e..ad63964 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -480,7 +480,7 @@ INSTRUCTION(LA64_BC_BEQ, la64_beq)
 {
 	auto fi = *(FasterLA64_RI16_Branch *)&DECODER().instr;
 	if (REG(fi.rj) == REG(fi.rd)) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -490,7 +490,7 @@ INSTRUCTION(LA64_BC_BNE, la64_bne)
 {
 	auto fi = *(FasterLA64_RI16_Branch *)&DECODER().instr;
 	if (REG(fi.rj) != REG(fi.rd)) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -500,7 +500,7 @@ INSTRUCTION(LA64_BC_BLT, la64_blt)
 {
 	auto fi = *(FasterLA64_RI16_Branch *)&DECODER().instr;
 	if ((saddress_t)REG(fi.rj) < (saddress_t)REG(fi.rd)) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -510,7 +510,7 @@ INSTRUCTION(LA64_BC_BGE, la64_bge)
 {
 	auto fi = *(FasterLA64_RI16_Branch *)&DECODER().instr;
 	if ((saddress_t)REG(fi.rj) >= (saddress_t)REG(fi.rd)) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -520,7 +520,7 @@ INSTRUCTION(LA64_BC_BLTU, la64_bltu)
 {
 	auto fi = *(FasterLA64_RI16_Branch *)&DECODER().instr;
 	if (REG(fi.rj) < REG(fi.rd)) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -530,7 +530,7 @@ INSTRUCTION(LA64_BC_BGEU, la64_bgeu)
 {
 	auto fi = *(FasterLA64_RI16_Branch *)&DECODER().instr;
 	if (REG(fi.rj) >= REG(fi.rd)) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -539,8 +539,11 @@ INSTRUCTION(LA64_BC_BGEU, la64_bgeu)
 INSTRUCTION(LA64_BC_JIRL, la64_jirl)
 {
 	auto fi = *(FasterLA64_RI16_Branch *)&DECODER().instr;
-	auto offset = (int32_t)fi.offset << 2;
-	auto target = REG(fi.rj) + offset;
+	auto target = REG(fi.rj) + fi.offset();
+	if (LA_UNLIKELY((target & 0x3) != 0)) {
+		REGISTERS().pc = pc;
+		CPU().trigger_exception(MISALIGNED_INSTRUCTION, target);
+	}
 
 	if (fi.rd != 0) {
 		REG(fi.rd) = pc + 4;
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index c4c6f5e..3a4aab7 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -518,6 +518,9 @@ struct InstrImpl {
 		auto base = cpu.reg(instr.ri16.rj);
 		auto offset = InstructionHelpers::sign_extend_16(instr.ri16.imm) << 2;
 		auto target = base + offset;
+		if (LA_UNLIKELY((target & 0x3) != 0)) {
+			cpu.trigger_exception(MISALIGNED_INSTRUCTION, target);
+		}
 
 		if (instr.ri16.rd != 0) {
 			cpu.reg(instr.ri16.rd) = next_pc;
@@ -2864,11 +2867,7 @@ struct InstrImpl {
 		// BCNEZ: Branch if condition flag is not equal to zero
 		// Format: 0x48xxxxxx
 		uint32_t cj = (instr.whole >> 5) & 0x7;
-		int32_t offset = ((instr.whole >> 10) & 0xFFFF) << 2;
-		// Sign extend
-		if (offset & 0x20000) {
-			offset |= 0xFFFC0000;
-		}
+		auto offset = InstructionHelpers::sign_extend_21(instr.ri21.offs_lo, instr.ri21.offs_hi) << 2;
 
 		if (cpu.registers().cf(cj) != 0) {
 			cpu.increment_pc(offset-4);
@@ -2878,10 +2877,7 @@ struct InstrImpl {
 	static void BCEQZ(cpu_t& cpu, la_instruction instr) {
 		// BCEQZ: Branch if condition flag equals zero
 		uint32_t cj = (instr.whole >> 5) & 0x7;
-		int32_t offset = ((instr.whole >> 10) & 0xFFFF) << 2;
-		if (offset & 0x20000) {
-			offset |= 0xFFFC0000;
-		}
+		auto offset = InstructionHelpers::sign_extend_21(instr.ri21.offs_lo, instr.ri21.offs_hi) << 2;
 
 		if (cpu.registers().cf(cj) == 0) {
 			cpu.increment_pc(offset-4);
diff --git a/lib/libloong/tailcall_bytecode_array.hpp b/lib/libloong/tailcall_bytecode_array.hpp
index 0909d7d..a2c450b 100644
--- a/lib/libloong/tailcall_bytecode_array.hpp
+++ b/lib/libloong/tailcall_bytecode_array.hpp
@@ -117,6 +117,7 @@
 [LA64_BC_SYSCALLIMM]= la64_syscall_imm,
 [LA64_BC_NOP]       = la64_nop,
 [LA64_BC_STOP]      = la64_stop,
+[LA64_BC_SLOWPATH]  = execute_slowpath,
 #ifdef LA_BINARY_TRANSLATION
 [LA64_BC_TRANSLATOR]= execute_translated_block,
 #endif
diff --git a/lib/libloong/tailcall_dispatch.cpp b/lib/libloong/tailcall_dispatch.cpp
index 15af969..4ae2729 100644
--- a/lib/libloong/tailcall_dispatch.cpp
+++ b/lib/libloong/tailcall_dispatch.cpp
@@ -148,6 +148,17 @@ namespace loongarch
 		NEXT_BLOCK(4);
 	}
 
+	INSTRUCTION(LA64_BC_SLOWPATH, execute_slowpath)
+	{
+		// Execute the original instruction with the PC and counters visible
+		cpu.registers().pc = RECONSTRUCT_PC();
+		counter.apply(MACHINE());
+		cpu.execute(la_instruction{d->instr});
+		counter.retrieve_counters(MACHINE());
+		pc = cpu.registers().pc + 4;
+		OVERFLOW_CHECKED_JUMP();
+	}
+
 	INSTRUCTION(LA64_BC_SYSCALLIMM, la64_syscall_imm)
 	{
 		VIEW_INSTR();
diff --git a/lib/libloong/tailcall_inaccurate_dispatch.cpp b/lib/libloong/tailcall_inaccurate_dispatch.cpp
index 0cfa43c..701ceb1 100644
--- a/lib/libloong/tailcall_inaccurate_dispatch.cpp
+++ b/lib/libloong/tailcall_inaccurate_dispatch.cpp
@@ -132,6 +132,17 @@ namespace loongarch
 		NEXT_BLOCK_UNCHECKED(4);
 	}
 
+	INSTRUCTION(LA64_BC_SLOWPATH, execute_slowpath)
+	{
+		// Execute the original instruction with the PC visible
+		cpu.registers().pc = RECONSTRUCT_PC();
+		cpu.execute(la_instruction{d->instr});
+		pc = cpu.registers().pc + 4;
+		if (LA_UNLIKELY(MACHINE().max_instructions() == 0))
+			return RETURN_VALUES();
+		UNCHECKED_JUMP();
+	}
+
 	INSTRUCTION(LA64_BC_SYSCALLIMM, la64_syscall_imm)
 	{
 		VIEW_INSTR();
diff --git a/lib/libloong/threaded_bytecode_array.hpp b/lib/libloong/threaded_bytecode_array.hpp
index 0340a6e..b974c16 100644
--- a/lib/libloong/threaded_bytecode_array.hpp
+++ b/lib/libloong/threaded_bytecode_array.hpp
@@ -118,6 +118,7 @@ static constexpr void *computed_opcode[] = {
 	[LA64_BC_SYSCALLIMM]= &&la64_syscall_imm,
 	[LA64_BC_NOP]       = &&la64_nop,
 	[LA64_BC_STOP]      = &&la64_stop,
+	[LA64_BC_SLOWPATH]  = &&execute_slowpath,
 #ifdef LA_BINARY_TRANSLATION
 	[LA64_BC_TRANSLATOR]= &&execute_translated_block,
 #endif
diff --git a/lib/libloong/threaded_bytecodes.hpp b/lib/libloong/threaded_bytecodes.hpp
index 7d1e6da..155b6a6 100644
--- a/lib/libloong/threaded_bytecodes.hpp
+++ b/lib/libloong/threaded_bytecodes.hpp
@@ -127,6 +127,7 @@ namespace loongarch
 		LA64_BC_SYSCALLIMM,        // System call with immediate number (most likely patched in)
 		LA64_BC_NOP,               // No operation (DBAR, etc)
 		LA64_BC_STOP,              // Stop execution marker
+		LA64_BC_SLOWPATH,          // Any instruction, ends the block (handler sees and may change PC)
 
 #ifdef LA_BINARY_TRANSLATION
 		LA64_BC_TRANSLATOR,        // Binary translated block entry point
@@ -249,6 +250,7 @@ namespace loongarch
 		case LA64_BC_SYSCALLIMM: return "SYSCALL+IMM";
 		case LA64_BC_NOP: return "NOP";
 		case LA64_BC_STOP: return "STOP";
+		case LA64_BC_SLOWPATH: return "SLOWPATH";
 #ifdef LA_BINARY_TRANSLATION
 		case LA64_BC_TRANSLATOR: return "TRANSLATOR";
 #endif
@@ -410,14 +412,13 @@ namespace loongarch
 	union FasterLA64_RI21_Branch {
 		uint32_t whole;
 		struct {
-			uint8_t rj;      // bits [4:0] - register to test (or condition flag for BC*)
-			uint8_t padding; // bits [12:5] - unused, available for future use
-			int16_t offset;  // bits [28:13] - pre-computed offset (sign-extended, already << 2)
+			uint32_t rj : 8;     // register to test (or condition flag for BC*)
+			int32_t offset : 24; // pre-computed offset (sign-extended, already << 2)
 		};
 		void set_offset(int32_t offs) {
 			// The offset has already been << 2 in the optimizer
-			// Store it as a 16-bit value (will be valid if within segment)
-			this->offset = (int16_t)offs;
+			// and the largest one uses 23 bits
+			this->offset = offs;
 		}
 	};
 
@@ -427,12 +428,11 @@ namespace loongarch
 		struct {
 			uint8_t rd;      // bits [4:0] - first register
 			uint8_t rj;      // bits [9:5] - second register
-			int16_t offset;  // bits [25:10] - pre-computed offset (sign-extended, already << 2)
+			int16_t imm;     // bits [25:10] - offset in instructions (sign-extended)
 		};
-		void set_offset(int32_t offs) {
-			// The offset has already been << 2 in the optimizer
-			// Store it as a 16-bit value (will be valid if within segment)
-			this->offset = (int16_t)offs;
+		// The largest offset needs 18 bits
+		int32_t offset() const {
+			return int32_t(this->imm) * 4;
 		}
 	};
 
diff --git a/lib/libloong/threaded_dispatch.cpp b/lib/libloong/threaded_dispatch.cpp
index e073e5f..deff748 100644
--- a/lib/libloong/threaded_dispatch.cpp
+++ b/lib/libloong/threaded_dispatch.cpp
@@ -91,6 +91,18 @@ INSTRUCTION(LA64_BC_SYSCALL, la64_syscall)
 	NEXT_BLOCK_UNCHECKED(4);
 }
 
+INSTRUCTION(LA64_BC_SLOWPATH, execute_slowpath)
+{
+	// Execute the original instruction with the PC and counters visible
+	REGISTERS().pc = RECONSTRUCT_PC();
+	MACHINE().set_max_instructions(max_counter);
+	CPU().execute(la_instruction{DECODER().instr});
+	max_counter = MACHINE().max_instructions();
+
+	pc = REGISTERS().pc + 4;
+	goto check_jump;
+}
+
 INSTRUCTION(LA64_BC_SYSCALLIMM, la64_syscall_imm)
 {
 	REGISTERS().pc = pc;
diff --git a/lib/libloong/threaded_inaccurate_dispatch.cpp b/lib/libloong/threaded_inaccurate_dispatch.cpp
index c7a7772..e4408d7 100644
--- a/lib/libloong/threaded_inaccurate_dispatch.cpp
+++ b/lib/libloong/threaded_inaccurate_dispatch.cpp
@@ -88,6 +88,18 @@ INSTRUCTION(LA64_BC_SYSCALL, la64_syscall)
 	NEXT_BLOCK_UNCHECKED(4);
 }
 
+INSTRUCTION(LA64_BC_SLOWPATH, execute_slowpath)
+{
+	// Execute the original instruction with the PC and counters visible
+	REGISTERS().pc = RECONSTRUCT_PC();
+	MACHINE().set_max_instructions(max_counter);
+	CPU().execute(la_instruction{DECODER().instr});
+	max_counter = MACHINE().max_instructions();
+
+	pc = REGISTERS().pc + 4;
+	goto check_jump;
+}
+
 INSTRUCTION(LA64_BC_SYSCALLIMM, la64_syscall_imm)
 {
 	REGISTERS().pc = pc;
diff --git a/lib/libloong/threaded_rewriter.cpp b/lib/libloong/threaded_rewriter.cpp
index 56b7360..ae51558 100644
--- a/lib/libloong/threaded_rewriter.cpp
+++ b/lib/libloong/threaded_rewriter.cpp
@@ -33,12 +33,13 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 		case LA64_BC_B:
 		case LA64_BC_BL: {
 			const auto offset = InstructionHelpers::sign_extend_26(original.i26.offs()) << 2;
-			// This is a local branch, so it better be within the segment
+			// Branches within the segment have a fast path
 			if (this->is_within(pc + offset)) {
 				// The offset is the optimized instruction
 				return (int32_t)offset;
 			} else {
-				bytecode = LA64_BC_INVALID;
+				// The target may be in another segment (or nowhere)
+				bytecode = LA64_BC_SLOWPATH;
 				return original.whole;
 			}
 		} break;
@@ -50,15 +51,16 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 		case LA64_BC_BGEU: {
 			// These use ri16 format: rd, rj, offs16
 			const auto offset = InstructionHelpers::sign_extend_16(original.ri16.imm) << 2;
-			// Validate branch target
+			// Branches within the segment have a fast path
 			if (this->is_within(pc + offset)) {
 				auto fi = *(FasterLA64_RI16_Branch *)&instruction_bits;
 				fi.rd = original.ri16.rd;
 				fi.rj = original.ri16.rj;
-				fi.set_offset(offset);
+				fi.imm = original.ri16.imm;
 				return fi.whole;
 			} else {
-				bytecode = LA64_BC_INVALID;
+				// The target may be in another segment (or nowhere)
+				bytecode = LA64_BC_SLOWPATH;
 				return original.whole;
 			}
 		} break;
@@ -766,7 +768,7 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			auto fi = *(FasterLA64_RI16_Branch *)&instruction_bits;
 			fi.rd = original.ri16.rd;
 			fi.rj = original.ri16.rj;
-			fi.offset = original.ri16.imm;
+			fi.imm = original.ri16.imm;
 			return fi.whole;
 		} break;
 		case LA64_BC_BEQZ:
@@ -780,7 +782,8 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 				fi.set_offset(offset);
 				return fi.whole;
 			} else {
-				bytecode = LA64_BC_INVALID;
+				// The target may be in another segment (or nowhere)
+				bytecode = LA64_BC_SLOWPATH;
 				return original.whole;
 			}
 		} break;
@@ -795,7 +798,8 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 				fi.set_offset(offset);
 				return fi.whole;
 			} else {
-				bytecode = LA64_BC_INVALID;
+				// The target may be in another segment (or nowhere)
+				bytecode = LA64_BC_SLOWPATH;
 				return original.whole;
 			}
 		} break;
-- 
2.43.0


From 5b955b15bef931253590a3a54a5f892e40423127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:04 +0000
Subject: [PATCH 21/71] fix: long blocks, BREAK, STOP and immediate system
 calls keep the exact PC and instruction count

---
 lib/libloong/decoder_cache.cpp | 28 ++++++++++++++++++++++------
 lib/libloong/decoder_cache.hpp |  2 +-
 lib/libloong/la_instr_impl.hpp |  8 +++++++-
 3 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/lib/libloong/decoder_cache.cpp b/lib/libloong/decoder_cache.cpp
index 5261362..cf9aa19 100644
--- a/lib/libloong/decoder_cache.cpp
+++ b/lib/libloong/decoder_cache.cpp
@@ -31,13 +31,23 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 			return true;
 		}
 
-		// System calls (exact match required)
-		if (instr == Opcode::SYSCALL) return true;
-		if (instr == Opcode::BREAK) return true;
-
 		return false;
 	}
 
+	// Check if a bytecode leaves the block: it needs the exact PC
+	static bool is_diverging_bytecode(uint8_t bytecode)
+	{
+		switch (bytecode) {
+		case LA64_BC_SYSCALL:
+		case LA64_BC_SYSCALLIMM:
+		case LA64_BC_STOP:
+		case LA64_BC_SLOWPATH:
+			return true;
+		default:
+			return false;
+		}
+	}
+
 	// Determine the bytecode for a given instruction
 	// Determine the bytecode for a given instruction using its ID
 	static uint8_t determine_bytecode(InstrId id, const uint32_t instr, const uint16_t handler_idx)
@@ -64,7 +74,7 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 		case InstrId::SYSCALL:
 			return LA64_BC_SYSCALL;
 		case InstrId::BREAK:
-			return LA64_BC_FUNCTION;
+			return LA64_BC_SLOWPATH;
 		case InstrId::NOP:
 			return LA64_BC_NOP;
 
@@ -256,13 +266,19 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 			const address_t pc = exec_begin + (i * sizeof(la_instruction));
 			cache[i].instr = segment->optimize_bytecode(cache[i].bytecode, pc, instr);
 
-			if (is_diverging_instruction(instr)) {
+			if (is_diverging_instruction(instr) || is_diverging_bytecode(cache[i].bytecode)) {
 				// Diverging instruction: block_bytes = 0
 				cache[i].block_bytes = 0;
 				accumulated_bytes = 0;
 			} else {
 				// Non-diverging: accumulate bytes to next diverge
 				accumulated_bytes += 4;
+				if (accumulated_bytes > UINT16_MAX) {
+					// The block is too long for the decoder cache: end it here
+					cache[i].bytecode = LA64_BC_SLOWPATH;
+					cache[i].instr = instr;
+					accumulated_bytes = 0;
+				}
 				cache[i].block_bytes = accumulated_bytes;
 			}
 		}
diff --git a/lib/libloong/decoder_cache.hpp b/lib/libloong/decoder_cache.hpp
index 9fab1cc..f370e07 100644
--- a/lib/libloong/decoder_cache.hpp
+++ b/lib/libloong/decoder_cache.hpp
@@ -16,7 +16,7 @@ namespace loongarch
 
 		// Calculate number of instructions in this block (LoongArch = 4 bytes per instruction)
 		// This includes the current (diverging) instruction: block instructions + 1
-		uint8_t instruction_count() const noexcept { return (block_bytes / 4) + 1; }
+		uint32_t instruction_count() const noexcept { return (block_bytes / 4) + 1; }
 
 		// Bytecode accessors for threaded dispatch
 		uint8_t get_bytecode() const noexcept { return bytecode; }
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 3a4aab7..7a92317 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -644,7 +644,13 @@ struct InstrImpl {
 	// === System Instructions ===
 
 	static void SYSCALL(cpu_t& cpu, la_instruction instr) {
-		(void)instr;
+		const uint32_t syscall_imm = instr.whole & 0x3FF;
+		if (syscall_imm != 0) {
+			// System call from immediate returns to the caller (see LA64_BC_SYSCALLIMM)
+			cpu.machine().system_call(syscall_imm);
+			cpu.registers().pc = cpu.reg(REG_RA) - 4;
+			return;
+		}
 		const int syscall_nr = static_cast<uint32_t>(cpu.reg(REG_A7));
 		cpu.machine().system_call(syscall_nr);
 	}
-- 
2.43.0


From 88857fe126631fc2a2b7867ab8ff02a186ccca28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:37 +0000
Subject: [PATCH 22/71] fix: an exception leaves the program counter and
 instruction counter of the faulting instruction

---
 lib/libloong/threaded_dispatch.cpp            | 28 ++++++++++++++++++-
 lib/libloong/threaded_inaccurate_dispatch.cpp | 23 ++++++++++++++-
 2 files changed, 49 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/threaded_dispatch.cpp b/lib/libloong/threaded_dispatch.cpp
index deff748..20021e2 100644
--- a/lib/libloong/threaded_dispatch.cpp
+++ b/lib/libloong/threaded_dispatch.cpp
@@ -47,11 +47,13 @@ namespace loongarch
 
 		// Offset the cache pointer so we can use cache[pc >> SHIFT] directly
 		DecoderData* exec_decoder = exec->pc_relative_decoder_cache();
-		DecoderData* decoder;
+		DecoderData* decoder = nullptr;
 
 		uint64_t counter = inscounter;
 		uint64_t max_counter = maxcounter;
 
+		try {
+
 		// We need an execute segment matching current PC
 		if (LA_UNLIKELY(!(pc >= current_begin && pc < current_end)))
 			goto new_execute_segment;
@@ -163,6 +165,7 @@ INSTRUCTION(LA64_BC_STOP, la64_stop)
 
 new_execute_segment:
 		m_regs.pc = pc;
+		decoder = nullptr;
 		{
 			auto result = next_execute_segment(pc);
 			exec = result.exec;
@@ -205,6 +208,29 @@ check_jump:
 			goto new_execute_segment;
 
 		goto continue_segment;
+
+		} catch (...) {
+			// The block was counted in full when it was entered, but only
+			// the instructions before the faulting one have completed
+			if (decoder != nullptr) {
+				switch (decoder->get_bytecode()) {
+#ifdef LA_BINARY_TRANSLATION
+				case LA64_BC_TRANSLATOR: // PC and counter already decided
+					break;
+#endif
+				case LA64_BC_SYSCALL:
+				case LA64_BC_SYSCALLIMM:
+				case LA64_BC_SLOWPATH: // PC already visible
+					counter -= 1;
+					break;
+				default:
+					m_regs.pc = pc - decoder->block_bytes;
+					counter -= decoder->instruction_count();
+				}
+			}
+			machine().set_instruction_counter(counter);
+			throw;
+		}
 	}
 
 } // loongarch
diff --git a/lib/libloong/threaded_inaccurate_dispatch.cpp b/lib/libloong/threaded_inaccurate_dispatch.cpp
index e4408d7..7341d8d 100644
--- a/lib/libloong/threaded_inaccurate_dispatch.cpp
+++ b/lib/libloong/threaded_inaccurate_dispatch.cpp
@@ -40,7 +40,7 @@ namespace loongarch
 
 		// Offset the cache pointer so we can use cache[pc >> SHIFT] directly
 		DecoderData* exec_decoder = exec->decoder_cache() - (current_begin >> DecoderCache::SHIFT);
-		DecoderData* decoder;
+		DecoderData* decoder = nullptr;
 
 		// Inaccurate mode doesn't track counter/max_counter but needs them for compatibility
 		uint64_t max_counter = UINT64_MAX;
@@ -51,6 +51,8 @@ namespace loongarch
 				(unsigned long)pc, (unsigned long)current_begin, (unsigned long)current_end);
 		}
 
+		try {
+
 		// We need an execute segment matching current PC
 		if (LA_UNLIKELY(!(pc >= current_begin && pc < current_end)))
 			goto new_execute_segment;
@@ -151,6 +153,7 @@ new_execute_segment:
 			printf("  [new_execute_segment] Fetching new segment for PC=0x%lx\n", (unsigned long)pc);
 		}
 		m_regs.pc = pc;
+		decoder = nullptr;
 		{
 			auto result = next_execute_segment(pc);
 			exec = result.exec;
@@ -194,6 +197,24 @@ check_jump:
 			goto new_execute_segment;
 
 		goto continue_segment;
+
+		} catch (...) {
+			// Make the PC of the faulting instruction visible
+			if (decoder != nullptr) {
+				switch (decoder->get_bytecode()) {
+#ifdef LA_BINARY_TRANSLATION
+				case LA64_BC_TRANSLATOR:
+#endif
+				case LA64_BC_SYSCALL:
+				case LA64_BC_SYSCALLIMM:
+				case LA64_BC_SLOWPATH: // PC already visible
+					break;
+				default:
+					m_regs.pc = pc - decoder->block_bytes;
+				}
+			}
+			throw;
+		}
 	}
 
 } // namespace loongarch
-- 
2.43.0


From 46f79ee4dd42f697aba58485764bf8fab1ce9288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:37 +0000
Subject: [PATCH 23/71] fix: a run cut off by its instruction limit reports it,
 so that timed calls throw

---
 lib/libloong/debug.cpp             | 2 +-
 lib/libloong/machine.hpp           | 2 +-
 lib/libloong/threaded_dispatch.cpp | 2 ++
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/debug.cpp b/lib/libloong/debug.cpp
index 4d708d4..cf38004 100644
--- a/lib/libloong/debug.cpp
+++ b/lib/libloong/debug.cpp
@@ -9,7 +9,7 @@ namespace loongarch
 	void DebugMachine::simulate(uint64_t max_instructions)
 	{
 		this->machine.set_max_instructions(max_instructions);
-		while (!this->machine.stopped()) {
+		while (!this->machine.stopped() && !this->machine.instruction_limit_reached()) {
 			if (this->verbose_instructions)
 				print_instruction();
 			this->machine.cpu.step_one();
diff --git a/lib/libloong/machine.hpp b/lib/libloong/machine.hpp
index 5ad2615..474f91e 100644
--- a/lib/libloong/machine.hpp
+++ b/lib/libloong/machine.hpp
@@ -55,7 +55,7 @@ namespace loongarch
 		bool simulate(uint64_t max_instructions = UINT64_MAX, uint64_t counter = 0);
 
 		void stop() noexcept { m_max_instructions = 0; }
-		bool stopped() const noexcept { return m_counter >= m_max_instructions; }
+		bool stopped() const noexcept { return m_max_instructions == 0; }
 		bool instruction_limit_reached() const noexcept { return m_counter >= m_max_instructions && m_max_instructions != 0; }
 
 		// Instruction counting
diff --git a/lib/libloong/threaded_dispatch.cpp b/lib/libloong/threaded_dispatch.cpp
index 20021e2..ff41c8f 100644
--- a/lib/libloong/threaded_dispatch.cpp
+++ b/lib/libloong/threaded_dispatch.cpp
@@ -148,6 +148,7 @@ INSTRUCTION(LA64_BC_STOP, la64_stop)
 {
 	REGISTERS().pc = pc + 4;
 	machine().set_instruction_counter(counter);
+	machine().stop();
 	return true;
 }
 
@@ -183,6 +184,7 @@ new_execute_segment:
 stop_execution:
 		m_regs.pc = pc;
 		machine().set_instruction_counter(counter);
+		machine().set_max_instructions(max_counter);
 		if (machine().has_current_exception()) {
 			const auto ex = machine().current_exception();
 			machine().clear_current_exception();
-- 
2.43.0


From 0f04337c29f8d432eef69b869f4f38daf7fc3e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:09 +0000
Subject: [PATCH 24/71] fix: single-stepping the stop instruction stops the
 machine

---
 lib/libloong/la_instr_impl.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 7a92317..25d0258 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -115,6 +115,9 @@ struct InstrImpl {
 	}
 
 	static void OR(cpu_t& cpu, la_instruction instr) {
+		// MOVE $zero, $zero is the special STOP instruction
+		if (instr.whole == 0x00150000)
+			cpu.machine().stop();
 		cpu.reg(instr.r3.rd) = cpu.reg(instr.r3.rj) | cpu.reg(instr.r3.rk);
 	}
 
-- 
2.43.0


From df45589acdaf5c345cd7d3c0ba2ab7192be2c85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 25/71] fix: 128-bit vector loads and adds clear the upper half
 in every execution mode

---
 lib/libloong/bytecode_impl.cpp | 20 ++++++++++++++++----
 lib/libloong/tr_emit.cpp       | 12 ++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index ad63964..9b2a3f5 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -560,8 +560,11 @@ INSTRUCTION(LA64_BC_VLD, la64_vld)
 {
 	auto fi = *(FasterLA64_RI12 *)&DECODER().instr;
 	const auto addr = REG(fi.rj) + fi.imm;
-	auto& vr = REGISTERS().getvr128low(fi.rd);
-	vr = MACHINE().memory.template read<remove_cvref_t<decltype(vr)>, true>(addr);
+	auto& vr = REGISTERS().getvr(fi.rd);
+	vr.lsx_low = MACHINE().memory.template read<remove_cvref_t<decltype(vr.lsx_low)>, true>(addr);
+	// LSX instructions zero-extend to 256 bits
+	vr.du[2] = 0;
+	vr.du[3] = 0;
 	NEXT_INSTR();
 }
 
@@ -580,8 +583,11 @@ INSTRUCTION(LA64_BC_VLDX, la64_vldx)
 {
 	auto fi = *(FasterLA64_R3 *)&DECODER().instr;
 	const auto addr = REG(fi.rj) + REG(fi.rk);
-	auto& vr = REGISTERS().getvr128low(fi.rd);
-	vr = MACHINE().memory.template read<remove_cvref_t<decltype(vr)>, true>(addr);
+	auto& vr = REGISTERS().getvr(fi.rd);
+	vr.lsx_low = MACHINE().memory.template read<remove_cvref_t<decltype(vr.lsx_low)>, true>(addr);
+	// LSX instructions zero-extend to 256 bits
+	vr.du[2] = 0;
+	vr.du[3] = 0;
 	NEXT_INSTR();
 }
 
@@ -605,6 +611,9 @@ INSTRUCTION(LA64_BC_VFADD_D, la64_vfadd_d)
 	// VFADD.D operates on 2 double-precision elements
 	vrd.df[0] = vrj.df[0] + vrk.df[0];
 	vrd.df[1] = vrj.df[1] + vrk.df[1];
+	// LSX instructions zero-extend to 256 bits
+	vrd.du[2] = 0;
+	vrd.du[3] = 0;
 	NEXT_INSTR();
 }
 
@@ -620,6 +629,9 @@ INSTRUCTION(LA64_BC_VFMADD_D, la64_vfmadd_d)
 
 	dst.df[0] = std::fma(src_j.df[0], src_k.df[0], src_a.df[0]);
 	dst.df[1] = std::fma(src_j.df[1], src_k.df[1], src_a.df[1]);
+	// LSX instructions zero-extend to 256 bits
+	dst.du[2] = 0;
+	dst.du[3] = 0;
 	NEXT_INSTR();
 }
 
diff --git a/lib/libloong/tr_emit.cpp b/lib/libloong/tr_emit.cpp
index 538ece7..1e79caf 100644
--- a/lib/libloong/tr_emit.cpp
+++ b/lib/libloong/tr_emit.cpp
@@ -1871,7 +1871,8 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			std::string ptr1 = emit.arena_offset(addr + " + 8");
 			emit.add_code("  { lasx_reg* vr_ptr = &cpu->vr[" + std::to_string(instr.ri12.rd) + "];");
 			emit.add_code("    vr_ptr->du[0] = *(uint64_t*)" + ptr0 + ";");
-			emit.add_code("    vr_ptr->du[1] = *(uint64_t*)" + ptr1 + "; }");
+			emit.add_code("    vr_ptr->du[1] = *(uint64_t*)" + ptr1 + ";");
+			emit.add_code("    vr_ptr->du[2] = 0; vr_ptr->du[3] = 0; }");
 			break;
 		}
 		case InstrId::VST: {
@@ -1894,7 +1895,8 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			std::string ptr1 = emit.arena_offset(addr + " + 8");
 			emit.add_code("  { lasx_reg* vr_ptr = &cpu->vr[" + std::to_string(instr.r3.rd) + "];");
 			emit.add_code("    vr_ptr->du[0] = *(uint64_t*)" + ptr0 + ";");
-			emit.add_code("    vr_ptr->du[1] = *(uint64_t*)" + ptr1 + "; }");
+			emit.add_code("    vr_ptr->du[1] = *(uint64_t*)" + ptr1 + ";");
+			emit.add_code("    vr_ptr->du[2] = 0; vr_ptr->du[3] = 0; }");
 			break;
 		}
 		case InstrId::VSTX: {
@@ -1915,7 +1917,8 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			emit.add_code("    const lasx_reg* vj_ptr = &cpu->vr[" + std::to_string(instr.r4.rj) + "];");
 			emit.add_code("    const lasx_reg* vk_ptr = &cpu->vr[" + std::to_string(instr.r4.rk) + "];");
 			emit.add_code("    vd_ptr->df[0] = vj_ptr->df[0] + vk_ptr->df[0];");
-			emit.add_code("    vd_ptr->df[1] = vj_ptr->df[1] + vk_ptr->df[1]; }");
+			emit.add_code("    vd_ptr->df[1] = vj_ptr->df[1] + vk_ptr->df[1];");
+			emit.add_code("    vd_ptr->du[2] = 0; vd_ptr->du[3] = 0; }");
 			break;
 		}
 		case InstrId::VFMADD_D: {
@@ -1925,7 +1928,8 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			emit.add_code("    const lasx_reg* vk_ptr = &cpu->vr[" + std::to_string(instr.r4.rk) + "];");
 			emit.add_code("    const lasx_reg* va_ptr = &cpu->vr[" + std::to_string(instr.r4.ra) + "];");
 			emit.add_code("    vd_ptr->df[0] = api.fmaf64(vj_ptr->df[0], vk_ptr->df[0], va_ptr->df[0]);");
-			emit.add_code("    vd_ptr->df[1] = api.fmaf64(vj_ptr->df[1], vk_ptr->df[1], va_ptr->df[1]); }");
+			emit.add_code("    vd_ptr->df[1] = api.fmaf64(vj_ptr->df[1], vk_ptr->df[1], va_ptr->df[1]);");
+			emit.add_code("    vd_ptr->du[2] = 0; vd_ptr->du[3] = 0; }");
 			break;
 		}
 
-- 
2.43.0


From 266fb30444eeddfd8493fc50856945c55cf1c57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 26/71] fix: system calls see the current instruction counter

---
 lib/libloong/threaded_dispatch.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/libloong/threaded_dispatch.cpp b/lib/libloong/threaded_dispatch.cpp
index ff41c8f..2341733 100644
--- a/lib/libloong/threaded_dispatch.cpp
+++ b/lib/libloong/threaded_dispatch.cpp
@@ -79,6 +79,7 @@ continue_segment:
 INSTRUCTION(LA64_BC_SYSCALL, la64_syscall)
 {
 	REGISTERS().pc = pc;
+	MACHINE().set_instruction_counter(counter);
 	MACHINE().set_max_instructions(max_counter);
 	MACHINE().system_call(REG(REG_A7));
 	// Restore counters
@@ -97,6 +98,7 @@ INSTRUCTION(LA64_BC_SLOWPATH, execute_slowpath)
 {
 	// Execute the original instruction with the PC and counters visible
 	REGISTERS().pc = RECONSTRUCT_PC();
+	MACHINE().set_instruction_counter(counter);
 	MACHINE().set_max_instructions(max_counter);
 	CPU().execute(la_instruction{DECODER().instr});
 	max_counter = MACHINE().max_instructions();
@@ -108,6 +110,7 @@ INSTRUCTION(LA64_BC_SLOWPATH, execute_slowpath)
 INSTRUCTION(LA64_BC_SYSCALLIMM, la64_syscall_imm)
 {
 	REGISTERS().pc = pc;
+	MACHINE().set_instruction_counter(counter);
 	MACHINE().set_max_instructions(max_counter);
 	// Execute syscall from verified immediate
 	MACHINE().system_call(DECODER().instr);
-- 
2.43.0


From 187d273780bc4e0509426543ffbb99d45dabfd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:07 +0000
Subject: [PATCH 27/71] fix: bulk memory operations check the whole range they
 touch

---
 lib/libloong/memory.cpp        |  5 ++---
 lib/libloong/memory.hpp        |  7 +++++++
 lib/libloong/memory_inline.hpp |  4 ++--
 lib/libloong/memory_rw.cpp     | 12 ++++++------
 4 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index dd289d8..a888741 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -262,9 +262,8 @@ void Memory::process_rela_section(size_t offset, size_t size, const MachineOptio
 
 size_t Memory::strlen(address_t addr, size_t maxlen) const
 {
-	const address_t end_addr = std::min(addr + maxlen, m_arena_size);
-	if (end_addr <= addr) return 0;
-	const address_t size = end_addr - addr;
+	// The string ends at the latest at the end of the arena
+	const size_t size = (addr < m_arena_size) ? std::min(maxlen, m_arena_size - addr) : maxlen;
 	const char* ptr = memarray<char>(addr, size);
 	return ::strnlen(ptr, size);
 }
diff --git a/lib/libloong/memory.hpp b/lib/libloong/memory.hpp
index 8216215..023810c 100644
--- a/lib/libloong/memory.hpp
+++ b/lib/libloong/memory.hpp
@@ -151,6 +151,13 @@ namespace loongarch
 		inline bool is_writable(address_t addr, size_t size = sizeof(address_t)) const noexcept {
 			return addr - m_data_start < m_arena_end_sub_data;
 		}
+		// Check that every byte of a range is accessible
+		inline bool is_readable_range(address_t addr, size_t len) const noexcept {
+			return addr >= m_rodata_start && addr <= m_arena_size && len <= m_arena_size - addr;
+		}
+		inline bool is_writable_range(address_t addr, size_t len) const noexcept {
+			return addr >= m_data_start && addr <= m_arena_size && len <= m_arena_size - addr;
+		}
 		[[noreturn]] LA_COLD_PATH() static void protection_fault(address_t addr, const char* message);
 	};
 
diff --git a/lib/libloong/memory_inline.hpp b/lib/libloong/memory_inline.hpp
index ef9c1a1..b52d810 100644
--- a/lib/libloong/memory_inline.hpp
+++ b/lib/libloong/memory_inline.hpp
@@ -48,7 +48,7 @@ inline void Memory::write(address_t addr, T value)
 template <typename T>
 inline const T* Memory::memarray(address_t addr, size_t count) const
 {
-	if (LA_UNLIKELY(!is_readable(addr, count * sizeof(T)))) {
+	if (LA_UNLIKELY(count > SIZE_MAX / sizeof(T) || !is_readable_range(addr, count * sizeof(T)))) {
 		throw MachineException(PROTECTION_FAULT, "Read from unmapped memory", addr);
 	}
 
@@ -58,7 +58,7 @@ inline const T* Memory::memarray(address_t addr, size_t count) const
 template <typename T>
 inline T* Memory::writable_memarray(address_t addr, size_t count)
 {
-	if (LA_UNLIKELY(!is_writable(addr, count * sizeof(T)))) {
+	if (LA_UNLIKELY(count > SIZE_MAX / sizeof(T) || !is_writable_range(addr, count * sizeof(T)))) {
 		throw MachineException(PROTECTION_FAULT, "Write to read-only memory", addr);
 	}
 
diff --git a/lib/libloong/memory_rw.cpp b/lib/libloong/memory_rw.cpp
index aff9036..d808c46 100644
--- a/lib/libloong/memory_rw.cpp
+++ b/lib/libloong/memory_rw.cpp
@@ -15,7 +15,7 @@ namespace loongarch
 			if (LA_UNLIKELY(dest + len >= LA_MASKED_MEMORY_SIZE)) {
 				throw MachineException(PROTECTION_FAULT, "Write to out-of-bounds memory", dest);
 			}
-		} else if (LA_UNLIKELY(!is_writable(dest, len))) {
+		} else if (LA_UNLIKELY(!is_writable_range(dest, len))) {
 			throw MachineException(PROTECTION_FAULT, "Write to read-only memory", dest);
 		}
 
@@ -33,7 +33,7 @@ namespace loongarch
 			if (LA_UNLIKELY(src + len >= LA_MASKED_MEMORY_SIZE)) {
 				throw MachineException(PROTECTION_FAULT, "Read from out-of-bounds memory", src);
 			}
-		} else if (LA_UNLIKELY(src < m_rodata_start || src + len >= m_arena_size)) {
+		} else if (LA_UNLIKELY(!is_readable_range(src, len))) {
 			throw MachineException(PROTECTION_FAULT, "Read from unmapped memory", src);
 		}
 
@@ -42,7 +42,7 @@ namespace loongarch
 
 	void Memory::memset(address_t dest, uint8_t value, size_t len)
 	{
-		if (LA_UNLIKELY(!is_writable(dest, len))) {
+		if (LA_UNLIKELY(!is_writable_range(dest, len))) {
 			throw MachineException(PROTECTION_FAULT, "Write to read-only memory", dest);
 		}
 
@@ -51,10 +51,10 @@ namespace loongarch
 
 	int Memory::memcmp(address_t addr1, address_t addr2, size_t len) const
 	{
-		if (LA_UNLIKELY(addr1 < m_rodata_start || addr1 + len >= m_arena_size)) {
+		if (LA_UNLIKELY(!is_readable_range(addr1, len))) {
 			throw MachineException(PROTECTION_FAULT, "Read from unmapped memory", addr1);
 		}
-		if (LA_UNLIKELY(addr2 < m_rodata_start || addr2 + len >= m_arena_size)) {
+		if (LA_UNLIKELY(!is_readable_range(addr2, len))) {
 			throw MachineException(PROTECTION_FAULT, "Read from unmapped memory", addr2);
 		}
 
@@ -68,7 +68,7 @@ namespace loongarch
 
 	void Memory::copy_into_arena_unsafe(address_t dest, const void* src, size_t len)
 	{
-		if (LA_UNLIKELY(dest + len >= m_arena_size)) {
+		if (LA_UNLIKELY(dest > m_arena_size || len > m_arena_size - dest)) {
 			throw MachineException(PROTECTION_FAULT, "Write to out-of-bounds memory", dest);
 		}
 		std::memcpy(&m_arena[dest], src, len);
-- 
2.43.0


From 97659ab6dd995b1451c665c9eebcf90c4955582e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:23 +0000
Subject: [PATCH 28/71] fix: CRC-32C on LoongArch hosts uses the Castagnoli
 instructions

---
 lib/libloong/util/crc32c.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/libloong/util/crc32c.cpp b/lib/libloong/util/crc32c.cpp
index 9fd8d07..3d5f2e6 100644
--- a/lib/libloong/util/crc32c.cpp
+++ b/lib/libloong/util/crc32c.cpp
@@ -87,33 +87,33 @@ static uint32_t crc32c_hw_arm(uint32_t crc, const uint8_t* buf, size_t len)
 
 #elif defined(__loongarch64)
 // LoongArch64 CRC32 implementation
-// LoongArch has dedicated CRC32 instructions: crc.w.b.w, crc.w.h.w, crc.w.w.w, crc.w.d.w
+// LoongArch has dedicated CRC32 instructions: crcc.w.b.w, crcc.w.h.w, crcc.w.w.w, crcc.w.d.w
 
 static inline uint32_t __loongarch_crc32c_b(uint32_t crc, uint8_t val)
 {
 	uint32_t result;
-	asm volatile("crc.w.b.w %0, %1, %2" : "=r"(result) : "r"(val), "r"(crc));
+	asm volatile("crcc.w.b.w %0, %1, %2" : "=r"(result) : "r"(val), "r"(crc));
 	return result;
 }
 
 static inline uint32_t __loongarch_crc32c_h(uint32_t crc, uint16_t val)
 {
 	uint32_t result;
-	asm volatile("crc.w.h.w %0, %1, %2" : "=r"(result) : "r"(val), "r"(crc));
+	asm volatile("crcc.w.h.w %0, %1, %2" : "=r"(result) : "r"(val), "r"(crc));
 	return result;
 }
 
 static inline uint32_t __loongarch_crc32c_w(uint32_t crc, uint32_t val)
 {
 	uint32_t result;
-	asm volatile("crc.w.w.w %0, %1, %2" : "=r"(result) : "r"(val), "r"(crc));
+	asm volatile("crcc.w.w.w %0, %1, %2" : "=r"(result) : "r"(val), "r"(crc));
 	return result;
 }
 
 static inline uint32_t __loongarch_crc32c_d(uint32_t crc, uint64_t val)
 {
 	uint32_t result;
-	asm volatile("crc.w.d.w %0, %1, %2" : "=r"(result) : "r"(val), "r"(crc));
+	asm volatile("crcc.w.d.w %0, %1, %2" : "=r"(result) : "r"(val), "r"(crc));
 	return result;
 }
 
-- 
2.43.0


From 909d06df959064c3d1119943e4e2a6bcb01c662f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:13 +0000
Subject: [PATCH 29/71] fix: guest calls pass surplus and 32-bit arguments as
 the calling convention requires

---
 lib/libloong/machine_vmcall.hpp | 68 +++++++++++++++++++++++----------
 1 file changed, 47 insertions(+), 21 deletions(-)

diff --git a/lib/libloong/machine_vmcall.hpp b/lib/libloong/machine_vmcall.hpp
index 68185a1..a106326 100644
--- a/lib/libloong/machine_vmcall.hpp
+++ b/lib/libloong/machine_vmcall.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include "machine.hpp"
 #include "guest_datatypes.hpp"
+#include <array>
 #include <string>
 #include <vector>
 #include <type_traits>
@@ -28,20 +29,28 @@ namespace loongarch
 		return stack_push(sp, &value, sizeof(T));
 	}
 
-	// Setup call arguments according to LoongArch calling convention
+	// Setup call arguments according to LoongArch calling convention,
+	// using the stack below the given stack pointer
 	template <typename... Args> constexpr
-	inline void setup_call(Machine& machine, address_t exit_addr, Args&&... args)
+	inline void setup_call(Machine& machine, address_t exit_addr, address_t sp, Args&&... args)
 	{		auto& cpu = machine.cpu;
 
 		// Set return address to exit function
 		cpu.reg(REG_RA) = exit_addr;
 
-		// Reset stack pointer to initial position
-		address_t sp = machine.memory.stack_address();
-
 		// Initialize argument registers
 		int iarg = REG_A0; // Integer argument registers: A0-A7
 		int farg = 0;      // Floating-point argument registers: FA0-FA7
+		// Arguments that no longer fit in registers are passed on the stack
+		std::array<address_t, sizeof...(Args)> stack_args {};
+		size_t stack_count = 0;
+
+		auto push_int = [&] (address_t value) {
+			if (iarg <= REG_A7)
+				cpu.reg(iarg++) = value;
+			else
+				stack_args[stack_count++] = value;
+		};
 
 		// Process each argument
 		// Note: We avoid complex operations in the fold expression to keep it constexpr-friendly
@@ -50,42 +59,56 @@ namespace loongarch
 
 			if constexpr (std::is_same_v<T, std::string>) {
 				// std::string: Push zero-terminated string onto stack, pass pointer as integer
-				cpu.reg(iarg++) = machine.stack_push(sp, args.c_str(), args.length() + 1);
+				push_int(machine.stack_push(sp, args.c_str(), args.length() + 1));
 			}
 			else if constexpr (std::is_same_v<T, const char*> || std::is_same_v<T, char*>) {
 				// C-string: Push zero-terminated string onto stack, pass pointer as integer
-				cpu.reg(iarg++) = machine.stack_push(sp, args, std::strlen(args) + 1);
+				push_int(machine.stack_push(sp, args, std::strlen(args) + 1));
 			}
 			else if constexpr (std::is_same_v<T, GuestStdString>) {
 				// GuestStdString: Adjust SSO pointer and push onto stack
 				args.move(sp - sizeof(T)); // SSO-adjustment
-				cpu.reg(iarg++) = machine.stack_push(sp, &args, sizeof(T));
+				push_int(machine.stack_push(sp, &args, sizeof(T)));
 			}
 			else if constexpr (is_scoped_guest_object<T>::value) {
 				// ScopedArenaObject: Pass the guest address directly
-				cpu.reg(iarg++) = args.address();
+				push_int(args.address());
 			}
 			else if constexpr (std::is_integral_v<T>) {
-				// Integer types go to integer registers (A0-A7)
-				cpu.reg(iarg++) = static_cast<address_t>(args);
+				// Integer types go to integer registers (A0-A7), and
+				// 32-bit values are always sign-extended
+				if constexpr (sizeof(T) == 4)
+					push_int(static_cast<int32_t>(args));
+				else
+					push_int(static_cast<address_t>(args));
 			}
 			else if constexpr (std::is_floating_point_v<T>) {
-				// Floating-point types go to FP registers (FA0-FA7)
-				if constexpr (sizeof(T) == 4) {
-					cpu.registers().getfl32(farg++) = static_cast<float>(args);
-				} else if constexpr (sizeof(T) == 8) {
-					cpu.registers().getfl64(farg++) = static_cast<double>(args);
+				// Floating-point types go to FP registers (FA0-FA7),
+				// and then to what remains of the integer registers
+				if constexpr (sizeof(T) == 4 || sizeof(T) == 8) {
+					if (farg >= 8) {
+						address_t bits = 0;
+						std::memcpy(&bits, &args, sizeof(T));
+						push_int(bits);
+					} else if constexpr (sizeof(T) == 4) {
+						cpu.registers().getfl32(farg++) = static_cast<float>(args);
+					} else {
+						cpu.registers().getfl64(farg++) = static_cast<double>(args);
+					}
 				}
 			}
 			else if constexpr (std::is_enum_v<T>) {
 				// Enums are treated as their underlying integer type
 				using UnderlyingType = std::underlying_type_t<T>;
-				cpu.reg(iarg++) = static_cast<address_t>(static_cast<UnderlyingType>(args));
+				if constexpr (sizeof(T) == 4)
+					push_int(static_cast<int32_t>(static_cast<UnderlyingType>(args)));
+				else
+					push_int(static_cast<address_t>(static_cast<UnderlyingType>(args)));
 			}
 			else if constexpr (std::is_standard_layout_v<T> && std::is_trivially_copyable_v<T>) {
 				// Standard layout structs: Push onto stack, pass pointer as integer
 				const address_t struct_addr = machine.stack_push(sp, args);
-				cpu.reg(iarg++) = struct_addr;
+				push_int(struct_addr);
 			}
 			else {
 				static_assert(sizeof(T) == 0, "Unsupported argument type for vmcall. Use integers, floats, enums, strings, or standard-layout structs.");
@@ -94,6 +117,9 @@ namespace loongarch
 
 		// Align stack pointer to 16-byte boundary
 		sp &= ~address_t(0xF);
+		if (stack_count > 0) {
+			machine.stack_push(sp, stack_args.data(), stack_count * sizeof(address_t));
+		}
 		cpu.reg(REG_SP) = sp;
 	}
 
@@ -105,7 +131,7 @@ namespace loongarch
 		const address_t exit_addr = memory.exit_address();
 
 		// Setup the call with arguments
-		setup_call(*this, exit_addr, std::forward<Args>(args)...);
+		setup_call(*this, exit_addr, memory.stack_address(), std::forward<Args>(args)...);
 
 		// Set PC to the function address
 		cpu.registers().pc = func_addr;
@@ -161,7 +187,7 @@ namespace loongarch
 		const address_t exit_addr = memory.exit_address();
 
 		// Setup the call with arguments
-		setup_call(*this, exit_addr, std::forward<Args>(args)...);
+		setup_call(*this, exit_addr, memory.stack_address(), std::forward<Args>(args)...);
 
 		// Set PC to the function address
 		cpu.registers().pc = func_addr;
@@ -191,7 +217,7 @@ namespace loongarch
 		cpu.reg(REG_SP) -= 16;
 
 		// Setup the call
-		setup_call(*this, exit_addr, std::forward<Args>(args)...);
+		setup_call(*this, exit_addr, this->memory.stack_address(), std::forward<Args>(args)...);
 		cpu.registers().pc = func_addr;
 
 		// Execute with instruction limit
-- 
2.43.0


From d3ce9644c275af619dbee3a28536003b93570b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:13 +0000
Subject: [PATCH 30/71] fix: preempted calls keep the stack, registers and
 limit of the interrupted execution

---
 lib/libloong/machine_vmcall.hpp | 62 ++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 20 deletions(-)

diff --git a/lib/libloong/machine_vmcall.hpp b/lib/libloong/machine_vmcall.hpp
index a106326..a7b391b 100644
--- a/lib/libloong/machine_vmcall.hpp
+++ b/lib/libloong/machine_vmcall.hpp
@@ -207,38 +207,60 @@ namespace loongarch
 		// Use the exit address set via memory.set_exit_address()
 		const address_t exit_addr = memory.exit_address();
 
-		// Optionally save CPU registers
+		// Optionally save everything the interrupted execution needs
 		Registers saved_regs;
 		if constexpr (StoreRegs) {
 			saved_regs = cpu.registers();
 		}
+		const uint64_t saved_counter = this->m_counter;
+		const uint64_t saved_max = this->m_max_instructions;
+		const address_t saved_sp = cpu.reg(REG_SP);
+		auto restore = [&] {
+			if constexpr (StoreRegs) {
+				cpu.registers() = saved_regs;
+				// The interrupted execution continues with its own limit
+				if (saved_max != 0) {
+					this->m_counter = saved_counter;
+					this->m_max_instructions = saved_max;
+				}
+			} else {
+				cpu.reg(REG_SP) = saved_sp;
+			}
+		};
 
-		// Allocate 16 bytes on stack for execution context
-		cpu.reg(REG_SP) -= 16;
-
-		// Setup the call
-		setup_call(*this, exit_addr, this->memory.stack_address(), std::forward<Args>(args)...);
-		cpu.registers().pc = func_addr;
-
-		// Execute with instruction limit
-		this->simulate(max_instr, 0);
-
-		// Restore registers if needed
-		if constexpr (StoreRegs) {
-			// Keep return value in A0
-			const address_t retval = cpu.reg(REG_A0);
-			cpu.registers() = saved_regs;
-			cpu.reg(REG_A0) = retval;
+		try {
+			// Setup the call below the stack of the interrupted execution,
+			// leaving 16 bytes for execution context
+			setup_call(*this, exit_addr, (saved_sp - 16) & ~address_t(0xF), std::forward<Args>(args)...);
+			cpu.registers().pc = func_addr;
+
+			// Execute with instruction limit
+			this->simulate(max_instr, 0);
+		} catch (...) {
+			restore();
+			throw;
 		}
 
-		if constexpr (Throw) {
-			if (this->instruction_limit_reached()) {
+		const address_t retval = cpu.reg(REG_A0);
+		if (this->instruction_limit_reached()) {
+			if constexpr (Throw) {
+				restore();
 				throw MachineException(MACHINE_TIMEOUT,
 					"preempt: Instruction limit reached", func_addr);
+			} else if constexpr (StoreRegs) {
+				if (saved_max != 0)
+					restore();
+				else // The limit remains visible to the caller
+					cpu.registers() = saved_regs;
 			}
+			// Otherwise, the call can be resumed
+		} else {
+			restore();
 		}
 
-		return cpu.reg(REG_A0);
+		// Keep return value in A0
+		cpu.reg(REG_A0) = retval;
+		return retval;
 	}
 
 	// preempt: Call by symbol name with instruction limit
-- 
2.43.0


From b419513798608f5de9e98c12595cd5e6cd16155e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:36 +0000
Subject: [PATCH 31/71] fix: a budget of zero instructions is reported as used
 up

---
 lib/libloong/threaded_dispatch.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/libloong/threaded_dispatch.cpp b/lib/libloong/threaded_dispatch.cpp
index 2341733..7a8d53d 100644
--- a/lib/libloong/threaded_dispatch.cpp
+++ b/lib/libloong/threaded_dispatch.cpp
@@ -50,7 +50,9 @@ namespace loongarch
 		DecoderData* decoder = nullptr;
 
 		uint64_t counter = inscounter;
-		uint64_t max_counter = maxcounter;
+		// A limit of zero is a request to stop, which must not be confused with
+		// a budget that is already used up
+		uint64_t max_counter = (maxcounter != 0) ? maxcounter : 1;
 
 		try {
 
-- 
2.43.0


From e985369e257c06c0fb4cdfec57e3be6d45dbb358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:22 +0000
Subject: [PATCH 32/71] fix: ori with zero registers is not the stop
 instruction

---
 lib/libloong/decoder_cache.cpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/lib/libloong/decoder_cache.cpp b/lib/libloong/decoder_cache.cpp
index cf9aa19..da4e0c4 100644
--- a/lib/libloong/decoder_cache.cpp
+++ b/lib/libloong/decoder_cache.cpp
@@ -89,14 +89,7 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 				return LA64_BC_OR;
 			}
 		case InstrId::ORI:
-			// MOVE is ORI with imm==0
-			{
-				const uint32_t imm = instr & 0xFFF;
-				if (imm == 0) {
-					return LA64_BC_MOVE;
-				}
-				return LA64_BC_ORI;
-			}
+			return LA64_BC_ORI;
 
 		case InstrId::LD_D: return LA64_BC_LD_D;
 		case InstrId::ST_D: return LA64_BC_ST_D;
-- 
2.43.0


From c127091df4fabbe953f5ce380ba787ea23476746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:10 +0000
Subject: [PATCH 33/71] fix: futex waits are woken by matching wakes, at 64-bit
 addresses, and deadlocks do not run blocked threads

---
 lib/libloong/linux/syscalls_threads.cpp | 12 ++++++++++--
 lib/libloong/posix/threads.cpp          | 11 ++++++-----
 lib/libloong/posix/threads.hpp          | 10 +++++-----
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/lib/libloong/linux/syscalls_threads.cpp b/lib/libloong/linux/syscalls_threads.cpp
index 641a639..ccd34f4 100644
--- a/lib/libloong/linux/syscalls_threads.cpp
+++ b/lib/libloong/linux/syscalls_threads.cpp
@@ -43,15 +43,19 @@ namespace loongarch
 		if ((futex_op & 0xF) == FUTEX_WAIT || (futex_op & 0xF) == FUTEX_WAIT_BITSET)
 		{
 			const bool is_bitset = (futex_op & 0xF) == FUTEX_WAIT_BITSET;
+			if (is_bitset && val3 == 0) {
+				machine.set_result(-LA_EINVAL);
+				return;
+			}
 			if (machine.memory.read<uint32_t>(addr) == static_cast<uint32_t>(val)) {
 				thprint(machine,
 					"FUTEX: Waiting (blocked)... uaddr=0x%llx val=%d, bitset=%d\n",
 					static_cast<unsigned long long>(addr), val, is_bitset);
-				if (machine.threads().block(0, addr, is_bitset ? val3 : 0x0)) {
+				if (machine.threads().block(0, addr, is_bitset ? val3 : ~0x0)) {
 					return;
 				}
 				// Deadlock - unlock and continue
-				machine.memory.write<address_t>(addr, 0);
+				machine.memory.write<uint32_t>(addr, 0);
 				machine.set_result(0);
 				return;
 			}
@@ -63,6 +67,10 @@ namespace loongarch
 			return;
 		} else if ((futex_op & 0xF) == FUTEX_WAKE || (futex_op & 0xF) == FUTEX_WAKE_BITSET) {
 			const bool is_bitset = (futex_op & 0xF) == FUTEX_WAKE_BITSET;
+			if (is_bitset && val3 == 0) {
+				machine.set_result(-LA_EINVAL);
+				return;
+			}
 			thprint(machine,
 				"FUTEX: Waking %d others on 0x%llx, bitset=%d\n", val,
 				static_cast<unsigned long long>(addr), is_bitset);
diff --git a/lib/libloong/posix/threads.cpp b/lib/libloong/posix/threads.cpp
index 7ac53cf..ca9b6be 100644
--- a/lib/libloong/posix/threads.cpp
+++ b/lib/libloong/posix/threads.cpp
@@ -108,7 +108,7 @@ void Thread::suspend(address_t return_value)
 	this->stored_regs.get(REG_A0) = return_value;
 }
 
-void Thread::block(uint32_t reason, uint32_t extra)
+void Thread::block(address_t reason, uint32_t extra)
 {
 	// copy all regs
 	this->stored_regs = threading.machine.cpu.registers();
@@ -118,7 +118,7 @@ void Thread::block(uint32_t reason, uint32_t extra)
 	threading.m_blocked.push_back(this);
 }
 
-void Thread::block_return(address_t return_value, uint32_t reason, uint32_t extra)
+void Thread::block_return(address_t return_value, address_t reason, uint32_t extra)
 {
 	this->block(reason, extra);
 	// set the block reason as the next return value
@@ -177,10 +177,11 @@ bool MultiThreading::suspend_and_yield(long result)
 	return false;
 }
 
-bool MultiThreading::block(address_t retval, uint32_t reason, uint32_t extra)
+bool MultiThreading::block(address_t retval, address_t reason, uint32_t extra)
 {
 	// Block current thread and yield to next
-	if (!m_suspended.empty() || m_threads.size() > 1) {
+	// When no other thread can run, nothing would ever wake this one up
+	if (!m_suspended.empty()) {
 		auto* current = get_thread();
 		current->block_return(retval, reason, extra);
 		wakeup_next();
@@ -200,7 +201,7 @@ void MultiThreading::unblock(int tid)
 	}
 }
 
-size_t MultiThreading::wakeup_blocked(size_t max, uint32_t reason, uint32_t mask)
+size_t MultiThreading::wakeup_blocked(size_t max, address_t reason, uint32_t mask)
 {
 	size_t awakened = 0;
 	for (auto it = m_blocked.begin(); it != m_blocked.end() && awakened < max; ) {
diff --git a/lib/libloong/posix/threads.hpp b/lib/libloong/posix/threads.hpp
index 90985fa..40ad4be 100644
--- a/lib/libloong/posix/threads.hpp
+++ b/lib/libloong/posix/threads.hpp
@@ -28,7 +28,7 @@ namespace loongarch
 		// Address zeroed when exiting
 		address_t clear_tid = 0;
 		// The current or last blocked word
-		uint32_t block_word = 0;
+		address_t block_word = 0;
 		uint32_t block_extra = 0;
 
 		Thread(MultiThreading&, int tid, address_t tls,
@@ -37,8 +37,8 @@ namespace loongarch
 		bool exit(); // Returns false when we *cannot* continue
 		void suspend();
 		void suspend(address_t return_value);
-		void block(uint32_t reason, uint32_t extra = 0);
-		void block_return(address_t return_value, uint32_t reason, uint32_t extra);
+		void block(address_t reason, uint32_t extra = 0);
+		void block_return(address_t return_value, address_t reason, uint32_t extra);
 		void activate();
 		void resume();
 	};
@@ -55,9 +55,9 @@ namespace loongarch
 		bool      yield_to(int tid, bool store_retval = false, address_t retval = 0);
 		void      erase_thread(int tid);
 		void      wakeup_next();
-		bool      block(address_t retval, uint32_t reason, uint32_t extra = 0);
+		bool      block(address_t retval, address_t reason, uint32_t extra = 0);
 		void      unblock(int tid);
-		size_t    wakeup_blocked(size_t max, uint32_t reason, uint32_t mask = ~0U);
+		size_t    wakeup_blocked(size_t max, address_t reason, uint32_t mask = ~0U);
 		/* A suspended thread can at any time be resumed. */
 		auto&     suspended_threads() { return m_suspended; }
 		/* A blocked thread can only be resumed by unblocking it. */
-- 
2.43.0


From c8a7be0aa2474d23a27f852c95f214a1bad9eef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:10 +0000
Subject: [PATCH 34/71] fix: yielding without another thread to run still
 returns its result

---
 lib/libloong/posix/threads.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/libloong/posix/threads.cpp b/lib/libloong/posix/threads.cpp
index ca9b6be..a766455 100644
--- a/lib/libloong/posix/threads.cpp
+++ b/lib/libloong/posix/threads.cpp
@@ -174,6 +174,8 @@ bool MultiThreading::suspend_and_yield(long result)
 		wakeup_next();
 		return true;
 	}
+	// No other thread to run: continue with the result
+	machine.set_result(result);
 	return false;
 }
 
-- 
2.43.0


From fadf2a3d309f54c90c2a3891e1d13981d2e06a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:10 +0000
Subject: [PATCH 35/71] fix: exiting and killed threads are forgotten
 everywhere, wake their joiner and clear only their own word

---
 lib/libloong/linux/syscalls_threads.cpp | 18 +++++++++++---
 lib/libloong/posix/threads.cpp          | 32 +++++++++++++++----------
 2 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/lib/libloong/linux/syscalls_threads.cpp b/lib/libloong/linux/syscalls_threads.cpp
index ccd34f4..dfb9523 100644
--- a/lib/libloong/linux/syscalls_threads.cpp
+++ b/lib/libloong/linux/syscalls_threads.cpp
@@ -6,6 +6,7 @@
 namespace loongarch
 {
 	// Error numbers
+	static constexpr int64_t LA_ESRCH = 3;
 	static constexpr int64_t LA_EINVAL = 22;
 	static constexpr int64_t LA_EAGAIN = 11;
 	static constexpr int64_t LA_ENOSPC = 28;
@@ -114,7 +115,7 @@ namespace loongarch
 		// set_tid_address
 		this->install_syscall_handler(96,
 		[](Machine& machine) {
-			const int clear_tid = machine.sysarg<address_t>(0);
+			const auto clear_tid = machine.sysarg<address_t>(0);
 			// With initialized threads
 			if (machine.has_threads()) {
 				machine.threads().get_thread()->clear_tid = clear_tid;
@@ -155,10 +156,18 @@ namespace loongarch
 				">>> tgkill on tid=%d signal=%d\n", tid, sig);
 			auto* thread = machine.threads().get_thread(tid);
 			if (thread != nullptr) {
+				if (sig == 0) {
+					machine.set_result(0);
+					return;
+				}
 				// If the signal is unhandled, exit the thread
-				if (sig != 0 && machine.sigaction(sig).is_unset()) {
-					if (!thread->exit())
+				if (machine.sigaction(sig).is_unset()) {
+					const bool exiting_myself = (machine.threads().get_thread() == thread);
+					if (!thread->exit()) {
+						if (!exiting_myself)
+							machine.set_result(0);
 						return;
+					}
 				} else {
 					// Jump to signal handler and change to altstack, if set
 					machine.signals().enter(machine, sig);
@@ -169,6 +178,9 @@ namespace loongarch
 						static_cast<unsigned long long>(machine.cpu.reg(REG_SP)));
 					return;
 				}
+			} else {
+				machine.set_result(-LA_ESRCH);
+				return;
 			}
 			machine.stop();
 		});
diff --git a/lib/libloong/posix/threads.cpp b/lib/libloong/posix/threads.cpp
index a766455..975759b 100644
--- a/lib/libloong/posix/threads.cpp
+++ b/lib/libloong/posix/threads.cpp
@@ -31,15 +31,13 @@ Thread* MultiThreading::get_thread(int tid)
 void MultiThreading::wakeup_next()
 {
 	// resume a waiting thread
-	if (!m_suspended.empty()) {
-		auto* next = m_suspended.front();
-		m_suspended.erase(m_suspended.begin());
-		// resume next thread
-		next->resume();
-	} else {
-		auto* next = get_thread(0);
-		next->resume();
-	}
+	if (m_suspended.empty())
+		throw MachineException(GUEST_ABORT, "Deadlock: no thread can be resumed");
+
+	auto* next = m_suspended.front();
+	m_suspended.erase(m_suspended.begin());
+	// resume next thread
+	next->resume();
 }
 
 Thread::Thread(
@@ -74,13 +72,18 @@ bool Thread::exit()
 	// Copy of reference to thread manager and thread ID
 	auto& thr = this->threading;
 	const int tid = this->tid;
-	// CLONE_CHILD_CLEARTID: set userspace TID value to zero
+	// CLONE_CHILD_CLEARTID: set userspace TID value to zero and wake one waiter
 	if (this->clear_tid) {
-		threading.machine.memory.write<address_t>(this->clear_tid, 0);
+		threading.machine.memory.write<uint32_t>(this->clear_tid, 0);
+		threading.wakeup_blocked(1, this->clear_tid);
 	}
 	// Delete this thread (except main thread)
 	if (tid != 0) {
-		threading.erase_thread(tid);
+		// The remaining threads are all blocked: nothing can ever run again
+		if (exiting_myself && thr.m_suspended.empty())
+			throw MachineException(GUEST_ABORT, "Deadlock: all threads are blocked", tid);
+
+		thr.erase_thread(tid);
 
 		// Resume next thread in suspended list
 		// Exiting main thread is a "process exit", so we don't wakeup_next
@@ -162,6 +165,11 @@ Thread* MultiThreading::create(
 
 void MultiThreading::erase_thread(int tid)
 {
+	auto* thread = get_thread(tid);
+	if (thread == nullptr) return;
+	// The thread must not be resumed or woken up anymore
+	m_suspended.erase(std::remove(m_suspended.begin(), m_suspended.end(), thread), m_suspended.end());
+	m_blocked.erase(std::remove(m_blocked.begin(), m_blocked.end(), thread), m_blocked.end());
 	m_threads.erase(tid);
 }
 
-- 
2.43.0


From 713a0f1c0f40be2baca7c18f77a25c99a650cf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:10 +0000
Subject: [PATCH 36/71] fix: yielding to a thread takes it out of the suspended
 list and never runs a blocked one

---
 lib/libloong/posix/threads.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/libloong/posix/threads.cpp b/lib/libloong/posix/threads.cpp
index 975759b..5d8d8b2 100644
--- a/lib/libloong/posix/threads.cpp
+++ b/lib/libloong/posix/threads.cpp
@@ -239,6 +239,9 @@ bool MultiThreading::yield_to(int tid, bool store_retval, address_t retval)
 {
 	auto* thread = get_thread(tid);
 	if (thread == nullptr) return false;
+	// A blocked thread can only be resumed by unblocking it
+	if (std::find(m_blocked.begin(), m_blocked.end(), thread) != m_blocked.end())
+		return false;
 
 	auto* current = get_thread();
 	if (store_retval)
@@ -246,6 +249,7 @@ bool MultiThreading::yield_to(int tid, bool store_retval, address_t retval)
 	else
 		current->suspend();
 
+	m_suspended.erase(std::remove(m_suspended.begin(), m_suspended.end(), thread), m_suspended.end());
 	thread->resume();
 	return true;
 }
-- 
2.43.0


From 318b9705de7c1b506e08897d603c3e2707702b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:10 +0000
Subject: [PATCH 37/71] fix: a clone that fails leaves no thread behind, and
 only uses the arguments its flags select

---
 lib/libloong/linux/syscalls_threads.cpp | 14 +++++---------
 lib/libloong/posix/threads.cpp          | 12 ++++++------
 2 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/lib/libloong/linux/syscalls_threads.cpp b/lib/libloong/linux/syscalls_threads.cpp
index dfb9523..4a562a2 100644
--- a/lib/libloong/linux/syscalls_threads.cpp
+++ b/lib/libloong/linux/syscalls_threads.cpp
@@ -11,6 +11,9 @@ namespace loongarch
 	static constexpr int64_t LA_EAGAIN = 11;
 	static constexpr int64_t LA_ENOSPC = 28;
 
+	// Clone flags
+	static constexpr uint32_t LA_CLONE_SETTLS = 0x00080000;
+
 	// Syscall numbers (LoongArch Linux ABI)
 	enum LA_ThreadSyscalls {
 		LA_SYS_futex_time64 = 422,
@@ -225,7 +228,7 @@ namespace loongarch
 			const auto  ptid = machine.sysarg<address_t>(2);
 			const auto  ctid = machine.sysarg<address_t>(3);
 			auto         tls = machine.sysarg<address_t>(4);
-			if (tls == 0x0) {
+			if (tls == 0x0 || (flags & LA_CLONE_SETTLS) == 0) {
 				tls = machine.cpu.reg(REG_TP);
 			}
 			auto* parent = machine.threads().get_thread();
@@ -246,7 +249,6 @@ namespace loongarch
 		this->install_syscall_handler(435,
 		[](Machine& machine) {
 			/* int clone3(struct clone3_args*, size_t len) */
-			static constexpr uint32_t SETTLS = 0x00080000;
 			struct clone3_args {
 				address_t flags;
 				address_t pidfd;
@@ -271,7 +273,7 @@ namespace loongarch
 			const auto  ptid = args.parent_tid;
 			const auto  ctid = args.child_tid;
 			auto tls = args.tls;
-			if ((args.flags & SETTLS) == 0) {
+			if ((args.flags & LA_CLONE_SETTLS) == 0) {
 				tls = machine.cpu.reg(REG_TP);
 			}
 
@@ -282,12 +284,6 @@ namespace loongarch
 					stack, flags, parent->tid, ctid, ptid, tls);
 			auto* thread = machine.threads().create(flags, ctid, ptid, stack, tls, 0, 0);
 
-			if (args.set_tid_count > 0) {
-				address_t set_tid = 0;
-				machine.memory.copy_from_guest(&set_tid, args.set_tid_array, sizeof(set_tid));
-				thread->clear_tid = set_tid;
-			}
-
 			// store return value for parent: child TID
 			parent->suspend(thread->tid);
 			// activate and return 0 for the child
diff --git a/lib/libloong/posix/threads.cpp b/lib/libloong/posix/threads.cpp
index 5d8d8b2..1951e73 100644
--- a/lib/libloong/posix/threads.cpp
+++ b/lib/libloong/posix/threads.cpp
@@ -146,16 +146,16 @@ Thread* MultiThreading::create(
 		throw MachineException(INVALID_PROGRAM, "Too many threads", this->m_max_threads);
 
 	const int tid = ++this->m_thread_counter;
-	auto it = m_threads.try_emplace(tid, *this, tid, tls, stack, stkbase, stksize);
-	auto* thread = &it.first->second;
-
-	// flag for write child TID
+	// flag for write child TID (NB: can throw)
 	if (flags & CHILD_SETTID) {
-		machine.memory.write<uint32_t>(ctid, thread->tid);
+		machine.memory.write<uint32_t>(ctid, tid);
 	}
 	if (flags & PARENT_SETTID) {
-		machine.memory.write<uint32_t>(ptid, thread->tid);
+		machine.memory.write<uint32_t>(ptid, tid);
 	}
+
+	auto it = m_threads.try_emplace(tid, *this, tid, tls, stack, stkbase, stksize);
+	auto* thread = &it.first->second;
 	if (flags & CHILD_CLEARTID) {
 		thread->clear_tid = ctid;
 	}
-- 
2.43.0


From 43415696aa9d453b946ca06b4688a0de146124fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:03 +0000
Subject: [PATCH 38/71] fix: memory mappings stay inside guest memory, above
 the stack, and start out zeroed

mmap_allocate() never checked the end of guest memory (and wrapped for huge
sizes), mmap_deallocate() could move the mapping area down over the program
and stack, and the loader accepted break areas and stacks that do not fit.
---
 lib/libloong/elf_loader.cpp | 18 +++++++++++-------
 lib/libloong/memory.cpp     | 14 ++++++++++++++
 lib/libloong/memory.hpp     |  8 ++++++++
 3 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/lib/libloong/elf_loader.cpp b/lib/libloong/elf_loader.cpp
index 5fa7e69..395074a 100644
--- a/lib/libloong/elf_loader.cpp
+++ b/lib/libloong/elf_loader.cpp
@@ -155,16 +155,20 @@ void Memory::binary_loader(const MachineOptions& options)
 
 	// Initialize heap at end of loaded data
 	this->m_heap_address = max_addr;
-	// mmap starts at end of brk and grows upward
-	this->m_mmap_address = this->m_heap_address;
-	// Allocate BRK area (initially zero size)
-	this->m_brk_address = this->mmap_allocate(options.brk_size);
-	// Allocate stack from mmap region (grows downward from top)
+	// Reserve BRK area (initially zero size)
+	const auto page_align = [](address_t value) { return (value + 4095) & ~address_t(4095); };
+	const address_t stack_base = this->m_heap_address + page_align(options.brk_size);
+	this->m_brk_address = this->m_heap_address;
+	// Reserve the stack after it (grows downward from top)
 	// m_stack_address is the TOP of the stack (highest address)
-	const address_t stack_base = this->mmap_allocate(options.stack_size);
 	this->m_stack_address = stack_base + options.stack_size;
+	// mmap starts at end of the stack and grows upward
+	this->m_mmap_start = page_align(this->m_stack_address);
+	this->m_mmap_address = this->m_mmap_start;
 
-	if (this->m_heap_address >= options.memory_max) {
+	if (this->m_heap_address >= options.memory_max
+		|| options.brk_size > options.memory_max || options.stack_size > options.memory_max
+		|| this->m_mmap_address > options.memory_max) {
 		if (options.verbose_loader) {
 			fprintf(stderr, "Error: Not enough memory for stack and brk:\n");
 			fprintf(stderr, "  heap_begin: 0x%lx\n", (unsigned long)this->m_heap_address);
diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index a888741..772bc2a 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -283,15 +283,29 @@ std::string_view Memory::memview(address_t addr, size_t len) const
 
 address_t Memory::mmap_allocate(size_t size)
 {
+	if (size > this->mmap_available()) {
+		throw MachineException(OUT_OF_MEMORY, "Not enough memory for mmap", size);
+	}
 	size = (size + 4095) & ~size_t(4095); // Align to page size
 	const address_t result = this->m_mmap_address;
 	this->m_mmap_address += size;
+	// Memory that has been given out before must be cleared
+	if (result < this->m_mmap_highest) {
+		this->memset(result, 0, std::min(address_t(size), this->m_mmap_highest - result));
+	}
+	this->m_mmap_highest = std::max(this->m_mmap_highest, this->m_mmap_address);
 	return result;
 }
 
 void Memory::mmap_deallocate(address_t addr, size_t size)
 {
 	// Allow relaxation of mmap area by moving m_mmap_address back
+	// NB: Never below the beginning of the mmap area
+	if (addr < this->m_mmap_start || addr >= this->m_mmap_address
+		|| size > this->m_mmap_address - addr || (addr & 4095) != 0) {
+		return;
+	}
+	size = (size + 4095) & ~size_t(4095); // Align to page size
 	if (addr + size == this->m_mmap_address) {
 		this->m_mmap_address = addr;
 	}
diff --git a/lib/libloong/memory.hpp b/lib/libloong/memory.hpp
index 023810c..44f92fd 100644
--- a/lib/libloong/memory.hpp
+++ b/lib/libloong/memory.hpp
@@ -78,6 +78,12 @@ namespace loongarch
 		address_t brk_address() const noexcept { return m_brk_address; }
 		void set_brk_address(address_t addr) noexcept { m_brk_address = addr; }
 		address_t mmap_address() const noexcept { return m_mmap_address; }
+		/// @brief The beginning of the mmap area, above the program, heap and stack
+		address_t mmap_start() const noexcept { return m_mmap_start; }
+		/// @brief The number of bytes (whole pages) that mmap_allocate() can still provide
+		size_t mmap_available() const noexcept {
+			return (m_arena_size > m_mmap_address) ? (m_arena_size - m_mmap_address) & ~size_t(4095) : 0;
+		}
 
 		// Statistics
 		size_t memory_usage_counter() const noexcept { return m_arena_size; }
@@ -122,6 +128,8 @@ namespace loongarch
 		address_t m_heap_address = 0;
 		address_t m_brk_address = 0;
 		address_t m_mmap_address = 0;
+		address_t m_mmap_start = 0;    // Beginning of the mmap area
+		address_t m_mmap_highest = 0;  // Highest mmap address so far
 
 		// ELF header information for auxv
 		address_t m_elf_phdr_addr = 0;
-- 
2.43.0


From 3d83ee76b88d61963b7d3db47ecb7f468b964987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:03 +0000
Subject: [PATCH 39/71] fix: mmap, munmap and madvise return Linux errors and
 zeroed memory

---
 lib/libloong/linux/syscalls.cpp | 51 +++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index 1780252..ce243c3 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -12,6 +12,7 @@ namespace loongarch
 	static constexpr int64_t LA_ENOSYS = 38;
 	static constexpr int64_t LA_ENOENT = 2;
 	static constexpr int64_t LA_EBADF = 9;
+	static constexpr int64_t LA_ENOMEM = 12;
 	static constexpr int64_t LA_EINVAL = 22;
 	static constexpr int64_t LA_EAGAIN = 11;
 	static constexpr int64_t LA_ENOTTY = 25;
@@ -225,7 +226,14 @@ namespace loongarch
 	{
 		auto [addr, length, advice] =
 			machine.template sysargs<address_t, size_t, int>();
-		// Always succeed (advice is ignored)
+		static constexpr int LINUX_MADV_DONTNEED = 4;
+		// Always succeed (other advice is ignored)
+		if (advice == LINUX_MADV_DONTNEED && (addr & 4095) == 0
+			&& addr >= machine.memory.mmap_start() && addr < machine.memory.mmap_address()
+			&& length <= machine.memory.mmap_address() - addr) {
+			// The memory must read as zero afterwards
+			machine.memory.memset(addr, 0, (length + 4095) & ~size_t(4095));
+		}
 		machine.set_result(0);
 		sysprint(machine, "madvise(addr=0x%llx, len=%llu, advice=%d) = %d\n",
 			static_cast<uint64_t>(addr), static_cast<uint64_t>(length), advice,
@@ -592,28 +600,25 @@ namespace loongarch
 		auto [addr, length, prot, flags, fd, offset] =
 			machine.template sysargs<address_t, size_t, int, int, int, off_t>();
 
-		// Simple implementation: allocate memory from our heap
-		if (addr == 0) {
-			// Anonymous mapping - allocate new memory
-			auto new_addr = machine.memory.mmap_allocate(length);
-			machine.set_result(new_addr);
+		if (length == 0) {
+			machine.set_result(-LA_EINVAL);
 		} else if ((flags & 0x10) == 0x0) {
-			// no fixed flag - force into new allocation
-			auto new_addr = machine.memory.mmap_allocate(length);
-			machine.set_result(new_addr);
-		} else if (addr < machine.memory.mmap_address()) {
-			// It's within the mmap region - allow
+			// no fixed flag - force into new allocation (zeroed)
+			if (length <= machine.memory.mmap_available()) {
+				auto new_addr = machine.memory.mmap_allocate(length);
+				machine.set_result(new_addr);
+			} else {
+				machine.set_result(-LA_ENOMEM);
+			}
+		} else if ((addr & 4095) == 0 && addr >= machine.memory.mmap_start()
+			&& addr < machine.memory.mmap_address()
+			&& length <= machine.memory.mmap_address() - addr) {
+			// It's within the mmap region - replace with zeroed memory
+			machine.memory.memset(addr, 0, (length + 4095) & ~size_t(4095));
 			machine.set_result(addr);
 		} else {
 			// Fixed address mapping not supported for now
-			machine.set_result(-1);
-		}
-
-		// Anonymous mapping: zero out the memory
-		if (false && machine.template return_value<address_t>() != static_cast<address_t>(-1)) {
-			if (flags & 0x20) { // MAP_ANONYMOUS
-				machine.memory.memset(machine.template return_value<address_t>(), 0, length);
-			}
+			machine.set_result(-LA_ENOMEM);
 		}
 
 		sysprint(machine, "mmap(addr=0x%llx, len=%llu, prot=0x%x, flags=0x%x, fd=%d, offset=%llu) = 0x%llx\n",
@@ -626,8 +631,12 @@ namespace loongarch
 		const auto addr  = machine.cpu.reg(REG_A0);
 		const auto length = machine.cpu.reg(REG_A1);
 
-		machine.memory.mmap_deallocate(addr, length);
-		machine.set_result(0);
+		if (length == 0 || (addr & 4095) != 0 || addr + length < addr) {
+			machine.set_result(-LA_EINVAL);
+		} else {
+			machine.memory.mmap_deallocate(addr, length);
+			machine.set_result(0);
+		}
 		sysprint(machine, "munmap(addr=0x%llx, len=%llu) = %d\n",
 			static_cast<uint64_t>(addr), static_cast<uint64_t>(length),
 			machine.template return_value<int>());
-- 
2.43.0


From 12a4942d292855bad289f530ccc13fca5b1a5cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:18 +0000
Subject: [PATCH 40/71] fix: programs with several executable segments can
 execute all of them

---
 lib/libloong/elf_loader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/libloong/elf_loader.cpp b/lib/libloong/elf_loader.cpp
index 395074a..5ce5541 100644
--- a/lib/libloong/elf_loader.cpp
+++ b/lib/libloong/elf_loader.cpp
@@ -251,9 +251,10 @@ void Memory::binary_loader(const MachineOptions& options)
 					}
 				}
 
+				// The first executable segment is the main segment
 				create_execute_segment(options,
 					(const void*)(m_binary.data() + file_offset),
-					exec_vaddr, exec_size, true, false);
+					exec_vaddr, exec_size, m_main_exec_segment == nullptr, false);
 			}
 		}
 	}
-- 
2.43.0


From 2e83f825bd7d7ae50f34dc6891e0b4304c5cb3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:18 +0000
Subject: [PATCH 41/71] fix: section headers, symbol tables and segment sizes
 are verified without overflow

Offsets that wrap around, names without an end and segments larger in the file
than in memory made the loader read outside of the file.
---
 lib/libloong/elf_loader.cpp | 88 ++++++++++++++++---------------------
 lib/libloong/memory.cpp     | 24 +++++-----
 2 files changed, 47 insertions(+), 65 deletions(-)

diff --git a/lib/libloong/elf_loader.cpp b/lib/libloong/elf_loader.cpp
index 5ce5541..9fd7732 100644
--- a/lib/libloong/elf_loader.cpp
+++ b/lib/libloong/elf_loader.cpp
@@ -21,68 +21,53 @@ static TextSegmentBounds find_text_section(std::string_view binary, const Elf::H
 		return bounds;
 	}
 
+	// Everything in the section headers must be verified against the
+	// actual bounds of the underlying binary
+	const auto in_binary = [&binary] (address_t offset, address_t size) {
+		return offset <= binary.size() && size <= binary.size() - offset;
+	};
 	// Validate section header table
-	const address_t sh_table_end = ehdr->shoff + ehdr->shnum * sizeof(Elf::SectionHeader);
-	if (sh_table_end > binary.size() || sh_table_end < ehdr->shoff) {
+	if (!in_binary(ehdr->shoff, ehdr->shnum * sizeof(Elf::SectionHeader))) {
 		return bounds;
 	}
+	const auto* sections = reinterpret_cast<const Elf::SectionHeader*>(
+		binary.data() + ehdr->shoff);
 
 	// Get section string table
-	const auto* shstrtab = reinterpret_cast<const Elf::SectionHeader*>(
-		binary.data() + ehdr->shoff + ehdr->shstrndx * sizeof(Elf::SectionHeader));
-
-	if (shstrtab->offset + shstrtab->size >= binary.size()) {
+	const auto& shstrtab = sections[ehdr->shstrndx];
+	if (!in_binary(shstrtab.offset, shstrtab.size)) {
 		return bounds;
 	}
+	const std::string_view section_strings = binary.substr(shstrtab.offset, shstrtab.size);
 
-	const char* section_strings = reinterpret_cast<const char*>(binary.data() + shstrtab->offset);
+	const auto is_named = [&] (const Elf::SectionHeader& shdr, std::string_view name) {
+		// The name includes the null terminator
+		return shdr.name < section_strings.size()
+			&& section_strings.compare(shdr.name, name.size(), name) == 0;
+	};
+	using namespace std::string_view_literals;
 
 	// Find .text and .iplt sections
 	for (size_t i = 0; i < ehdr->shnum; i++) {
-		const auto* shdr = reinterpret_cast<const Elf::SectionHeader*>(
-			binary.data() + ehdr->shoff + i * sizeof(Elf::SectionHeader));
-
-		if (shdr->name < shstrtab->size) {
-			// Verify that the name fits within the string table
-			// in a secure way, by using the actual bounds of the
-			// underlying binary, and not the insecure ELF header.
-			const address_t name_offset = shstrtab->offset + shdr->name;
-			if (name_offset >= binary.size() || name_offset < shstrtab->offset) {
-				continue;
-			}
-			const address_t name_end = name_offset + 6; // ".text" + null terminator
-			if (name_end > binary.size() || name_end < name_offset) {
-				continue;
-			}
-			const char* name = section_strings + shdr->name;
-			if (strcmp(name, ".text") == 0 && shdr->size > 0) {
-				bounds.start = shdr->addr;
-				bounds.size = shdr->size;
+		const auto& shdr = sections[i];
+		if (shdr.size == 0) {
+			continue;
+		}
+		if (is_named(shdr, ".text\0"sv)) {
+			bounds.start = shdr.addr;
+			bounds.size = shdr.size;
+			bounds.found = true;
+			return bounds;
+		} else if (is_named(shdr, ".iplt\0"sv) && i + 1 < ehdr->shnum) {
+			// .iplt section comes before .text, check if next section is .text
+			const auto& next_shdr = sections[i + 1];
+			if (is_named(next_shdr, ".text\0"sv) && next_shdr.size > 0
+				&& next_shdr.addr >= shdr.addr
+				&& next_shdr.addr + next_shdr.size > next_shdr.addr) {
+				bounds.start = shdr.addr;
+				bounds.size = next_shdr.size + (next_shdr.addr - shdr.addr);
 				bounds.found = true;
 				return bounds;
-			} else if (strcmp(name, ".iplt") == 0 && shdr->size > 0) {
-				// .iplt section comes before .text, check if next section is .text
-				if (i + 1 < ehdr->shnum) {
-					const auto* next_shdr = reinterpret_cast<const Elf::SectionHeader*>(
-						binary.data() + ehdr->shoff + (i + 1) * sizeof(Elf::SectionHeader));
-					if (next_shdr->name < shstrtab->size) {
-						const address_t next_name_offset = shstrtab->offset + next_shdr->name;
-						if (next_name_offset >= binary.size() || next_name_offset < shstrtab->offset) {
-							continue;
-						}
-						const address_t next_name_end = next_name_offset + 6; // ".text" + null terminator
-						if (next_name_end > binary.size() || next_name_end < next_name_offset) {
-							continue;
-						}
-						const char* next_name = section_strings + next_shdr->name;
-						if (strcmp(next_name, ".text") == 0 && next_shdr->size > 0) {
-							bounds.start = shdr->addr;
-							bounds.size = next_shdr->size + (next_shdr->addr - shdr->addr);
-							bounds.found = true;
-							return bounds;
-						}
-					}
-				}
 			}
 		}
 	}
@@ -129,7 +114,7 @@ void Memory::binary_loader(const MachineOptions& options)
 		if (phdr->type == Elf::PT_LOAD) {
 			address_t start = phdr->vaddr;
 			address_t end = phdr->vaddr + phdr->memsz;
-			if (end > options.memory_max || end < start) {
+			if (end > options.memory_max || end < start || phdr->filesz > phdr->memsz) {
 				throw MachineException(INVALID_PROGRAM, "ELF segment invalid", phdr->vaddr);
 			}
 			min_addr = std::min(min_addr, start);
@@ -239,7 +224,8 @@ void Memory::binary_loader(const MachineOptions& options)
 					const address_t seg_end = phdr->vaddr + phdr->filesz;
 					const address_t text_end = text_bounds.start + text_bounds.size;
 
-					if (text_bounds.start >= seg_start && text_end <= seg_end) {
+					if (text_bounds.start >= seg_start && text_end <= seg_end
+						&& text_end >= text_bounds.start && (text_bounds.start & 3) == 0) {
 						exec_vaddr = text_bounds.start;
 						exec_size  = text_bounds.size & ~size_t(3); // Align to instruction boundary
 						file_offset = phdr->offset + (text_bounds.start - seg_start);
diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index 772bc2a..303f682 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -135,8 +135,8 @@ void Memory::free_arena()
 void Memory::parse_symbols(const Elf::Header* ehdr, const MachineOptions& options)
 {
 	// Validate section header table
-	const address_t sh_table_end = ehdr->shoff + ehdr->shnum * sizeof(Elf::SectionHeader);
-	if (sh_table_end > m_binary.size() || sh_table_end < ehdr->shoff) {
+	const address_t sh_table_size = ehdr->shnum * sizeof(Elf::SectionHeader);
+	if (ehdr->shoff > m_binary.size() || sh_table_size > m_binary.size() - ehdr->shoff) {
 		if (options.verbose_loader) {
 			fprintf(stderr, "Warning: Invalid section header table\n");
 		}
@@ -157,20 +157,12 @@ void Memory::parse_symbols(const Elf::Header* ehdr, const MachineOptions& option
 			symtab = shdr;
 			// String table is usually the linked section
 			if (shdr->link < ehdr->shnum) {
-				const address_t strtab_end = ehdr->shoff + shdr->link * sizeof(Elf::SectionHeader);
-				if (strtab_end > m_binary.size() || strtab_end < ehdr->shoff) {
-					throw MachineException(INVALID_PROGRAM, "Invalid string table section");
-				}
 				strtab = reinterpret_cast<const Elf::SectionHeader*>(
 					m_binary.data() + ehdr->shoff + shdr->link * sizeof(Elf::SectionHeader));
 			}
 		} else if (shdr->type == Elf::SHT_DYNSYM) {
 			dynsym = shdr;
 			if (shdr->link < ehdr->shnum) {
-				const address_t dynstr_end = ehdr->shoff + shdr->link * sizeof(Elf::SectionHeader);
-				if (dynstr_end > m_binary.size() || dynstr_end < ehdr->shoff) {
-					throw MachineException(INVALID_PROGRAM, "Invalid dynamic string table section");
-				}
 				dynstr = reinterpret_cast<const Elf::SectionHeader*>(
 					m_binary.data() + ehdr->shoff + shdr->link * sizeof(Elf::SectionHeader));
 			}
@@ -193,8 +185,10 @@ void Memory::parse_symbol_table(const Elf::SectionHeader* symtab,
                                     const MachineOptions& options)
 {
 	// Validate section offsets and sizes
-	if (symtab->offset + symtab->size > m_binary.size() ||
-	    strtab->offset + strtab->size > m_binary.size()) {
+	const auto is_outside_binary = [this] (const Elf::SectionHeader* section) {
+		return section->offset > m_binary.size() || section->size > m_binary.size() - section->offset;
+	};
+	if (is_outside_binary(symtab) || is_outside_binary(strtab)) {
 		if (options.verbose_loader) {
 			fprintf(stderr, "Warning: Invalid symbol or string table section\n");
 		}
@@ -211,9 +205,11 @@ void Memory::parse_symbol_table(const Elf::SectionHeader* symtab,
 		// Only add function symbols with non-zero addresses
 		uint8_t type = Elf::ST_TYPE(sym.info);
 		if ((type == Elf::STT_FUNC || type == Elf::STT_OBJECT) && sym.value != 0) {
-			if (sym.name + 1 < strtab->size && sym.name + 1 > sym.name) {
+			if (sym.name < strtab->size) {
 				const char* name = string_table + sym.name;
-				if (name[0] != '\0') {
+				// The name must end inside the string table
+				const size_t max_len = strtab->size - sym.name;
+				if (name[0] != '\0' && ::strnlen(name, max_len) < max_len) {
 					m_symbols.push_back({static_cast<address_t>(sym.value), static_cast<address_t>(sym.size), name});
 
 					if (false && options.verbose_loader) {
-- 
2.43.0


From 760768ef4f2b1aded1dbaf97c12d9fa79bf6f32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:18 +0000
Subject: [PATCH 42/71] fix: refused programs free the guest memory, and the
 host's custom arena stays the host's

The arena leaked when loading threw, a custom arena was unmapped with the
machine, and its previous contents showed up in zero-initialised memory.
---
 lib/libloong/elf_loader.cpp | 14 ++++++++++++++
 lib/libloong/memory.cpp     | 21 +++++++++++++++++----
 lib/libloong/memory.hpp     |  1 +
 3 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/lib/libloong/elf_loader.cpp b/lib/libloong/elf_loader.cpp
index 9fd7732..56dfccf 100644
--- a/lib/libloong/elf_loader.cpp
+++ b/lib/libloong/elf_loader.cpp
@@ -191,6 +191,20 @@ void Memory::binary_loader(const MachineOptions& options)
 	// Find .text section bounds to limit execute segment creation
 	const TextSegmentBounds text_bounds = find_text_section(m_binary, ehdr);
 
+	// A custom arena may have been used before: clear what the file does not provide
+	if (m_arena_is_custom) {
+		for (size_t i = 0; i < ehdr->phnum; i++) {
+			const auto* phdr = reinterpret_cast<const Elf::ProgramHeader*>(
+				m_binary.data() + ehdr->phoff + i * sizeof(Elf::ProgramHeader));
+			if (phdr->type == Elf::PT_LOAD && phdr->vaddr + phdr->memsz <= m_arena_size) {
+				std::memset(m_arena + phdr->vaddr, 0, phdr->memsz);
+			}
+		}
+		// The break area and new mappings also start out as zeroes
+		this->memset(m_heap_address, 0, stack_base - m_heap_address);
+		this->m_mmap_highest = m_arena_size;
+	}
+
 	// Load segments into memory
 	for (size_t i = 0; i < ehdr->phnum; i++) {
 		const auto* phdr = reinterpret_cast<const Elf::ProgramHeader*>(
diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index 303f682..0749bdc 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -21,7 +21,13 @@ Memory::Memory(Machine& machine,
 	  m_main_exec_segment(nullptr)
 {
 	if (!binary.empty()) {
-		binary_loader(options);
+		try {
+			binary_loader(options);
+		} catch (...) {
+			// The destructor does not run for a failed load
+			free_arena();
+			throw;
+		}
 	}
 }
 
@@ -43,9 +49,11 @@ Memory::~Memory()
 		// as the binary translator may be reading from it.
 		auto* arena_ptr = m_arena;
 		const auto arena_size = m_arena_size;
-		std::thread([seg = m_main_exec_segment, arena_ptr, arena_size]() {
+		const bool is_custom = m_arena_is_custom;
+		std::thread([seg = m_main_exec_segment, arena_ptr, arena_size, is_custom]() {
 			seg->wait_for_compilation_complete();
-			free_arena_internal(arena_ptr, arena_size);
+			if (!is_custom)
+				free_arena_internal(arena_ptr, arena_size);
 		}).detach();
 	} else {
 		free_arena();
@@ -110,6 +118,7 @@ void Memory::use_custom_arena(void* ptr, size_t size)
 	}
 	if (this->m_arena) free_arena();
 	this->m_arena = (uint8_t*)ptr;
+	this->m_arena_is_custom = true;
 	this->m_arena_size = size - LA_OVER_ALLOCATE_SIZE;
 	this->m_arena_end_sub_rodata = this->m_arena_size - this->m_rodata_start;
 	this->m_arena_end_sub_data = this->m_arena_size - this->m_data_start;
@@ -126,7 +135,11 @@ void Memory::free_arena_internal(uint8_t* arena, size_t size)
 }
 void Memory::free_arena()
 {
-	free_arena_internal(this->m_arena, this->m_arena_size);
+	// A custom arena belongs to the host
+	if (!this->m_arena_is_custom) {
+		free_arena_internal(this->m_arena, this->m_arena_size);
+	}
+	this->m_arena_is_custom = false;
 	this->m_arena = nullptr;
 	this->m_arena_size = 0;
 }
diff --git a/lib/libloong/memory.hpp b/lib/libloong/memory.hpp
index 44f92fd..4c8886e 100644
--- a/lib/libloong/memory.hpp
+++ b/lib/libloong/memory.hpp
@@ -107,6 +107,7 @@ namespace loongarch
 		// Single memory arena (mmap'd on POSIX, new[] otherwise)
 		uint8_t* m_arena = nullptr;
 		size_t m_arena_size = 0;
+		bool m_arena_is_custom = false; // The arena is owned by the host
 
 		// Memory region boundaries
 		address_t m_rodata_start = 0;  // Start of read-only data
-- 
2.43.0


From e8f052339d057b8fda857c0938130f77d5582093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:07 +0000
Subject: [PATCH 43/71] fix: AT_PHDR points to the mapped program headers, and
 AT_BASE is zero without an interpreter

---
 lib/libloong/elf_loader.cpp | 13 ++++++++++---
 lib/libloong/machine.cpp    |  3 +--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/lib/libloong/elf_loader.cpp b/lib/libloong/elf_loader.cpp
index 56dfccf..3c4a581 100644
--- a/lib/libloong/elf_loader.cpp
+++ b/lib/libloong/elf_loader.cpp
@@ -134,9 +134,16 @@ void Memory::binary_loader(const MachineOptions& options)
 	this->m_rodata_start = min_addr;
 	this->m_data_start = (first_writable != ~address_t(0)) ? first_writable : max_addr;
 
-	// Set phdr address - it's at base + phoff
-	// For statically linked binaries, phdr is at the file offset from the base
-	this->m_elf_phdr_addr = min_addr + ehdr->phoff;
+	// Set phdr address - it's in the segment that contains the program headers, if any
+	for (size_t i = 0; i < ehdr->phnum; i++) {
+		const Elf::ProgramHeader* phdr = reinterpret_cast<const Elf::ProgramHeader*>(
+			this->m_binary.data() + ehdr->phoff + i * sizeof(Elf::ProgramHeader));
+		if (phdr->type == Elf::PT_LOAD && ehdr->phoff >= phdr->offset
+			&& ehdr->phoff - phdr->offset < phdr->filesz) {
+			this->m_elf_phdr_addr = phdr->vaddr + (ehdr->phoff - phdr->offset);
+			break;
+		}
+	}
 
 	// Initialize heap at end of loaded data
 	this->m_heap_address = max_addr;
diff --git a/lib/libloong/machine.cpp b/lib/libloong/machine.cpp
index 477e3d5..b0f5740 100644
--- a/lib/libloong/machine.cpp
+++ b/lib/libloong/machine.cpp
@@ -101,9 +101,8 @@ namespace loongarch
 		memory.copy_to_guest(random_addr, random_data.data(), random_data.size());
 
 		// Build auxiliary vector (in reverse order since we push from high to low)
-		const address_t at_base = memory.start_address() & ~address_t(0xFFFFFFLL);
 		std::vector<std::pair<address_t, address_t>> auxv;
-		auxv.push_back({AT_BASE, at_base});
+		auxv.push_back({AT_BASE, 0});               // There is no program interpreter
 		auxv.push_back({AT_RANDOM, random_addr});
 		auxv.push_back({AT_CLKTCK, 100});           // Clock ticks per second
 		auxv.push_back({AT_HWCAP, 0});              // Hardware capabilities
-- 
2.43.0


From f9e95918c233df4f552adecab90830bfa5adc619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:07 +0000
Subject: [PATCH 44/71] fix: the initial stack pointer is 16-byte aligned, and
 arguments that do not fit are refused

Too many arguments were written below the stack into the heap and the program.
---
 lib/libloong/elf_loader.cpp |  1 +
 lib/libloong/machine.cpp    | 22 ++++++++++++++++++++++
 lib/libloong/memory.hpp     |  6 ++++++
 3 files changed, 29 insertions(+)

diff --git a/lib/libloong/elf_loader.cpp b/lib/libloong/elf_loader.cpp
index 3c4a581..48694ad 100644
--- a/lib/libloong/elf_loader.cpp
+++ b/lib/libloong/elf_loader.cpp
@@ -153,6 +153,7 @@ void Memory::binary_loader(const MachineOptions& options)
 	this->m_brk_address = this->m_heap_address;
 	// Reserve the stack after it (grows downward from top)
 	// m_stack_address is the TOP of the stack (highest address)
+	this->m_stack_base = stack_base;
 	this->m_stack_address = stack_base + options.stack_size;
 	// mmap starts at end of the stack and grows upward
 	this->m_mmap_start = page_align(this->m_stack_address);
diff --git a/lib/libloong/machine.cpp b/lib/libloong/machine.cpp
index b0f5740..390c1c5 100644
--- a/lib/libloong/machine.cpp
+++ b/lib/libloong/machine.cpp
@@ -73,6 +73,23 @@ namespace loongarch
 		address_t sp = cpu.reg(REG_SP);
 		sp &= ~address_t(15);
 
+		// Verify that everything fits on the stack, before writing anything
+		static constexpr size_t AUXV_ENTRIES = 14;
+		size_t strings_size = 0;
+		for (const auto& e : env)
+			strings_size += e.size() + 1;
+		for (const auto& arg : args)
+			strings_size += arg.size() + 1;
+		const size_t tables_size = AUXV_ENTRIES * 2 * sizeof(address_t)
+			+ (1 + args.size() + 1 + env.size() + 1) * sizeof(address_t);
+		// AT_RANDOM and alignment of the strings and the final stack pointer
+		const size_t available = sp - std::min(sp, memory.stack_base_for(sp));
+		const size_t needed = ((strings_size + 15) & ~size_t(15)) + 16 + ((tables_size + 15) & ~size_t(15));
+		if (needed > available) {
+			throw MachineException(OUT_OF_MEMORY,
+				"Not enough stack for program arguments", needed);
+		}
+
 		// Push environment variables
 		std::vector<address_t> env_ptrs;
 		for (const auto& e : env) {
@@ -117,6 +134,11 @@ namespace loongarch
 		auxv.push_back({AT_PHDR, memory.elf_phdr_addr()});
 		auxv.push_back({AT_NULL, 0});
 
+		// The final stack pointer, which points to argc, must be 16-byte aligned
+		if (tables_size & 15) {
+			sp -= 8;
+		}
+
 		// Push auxiliary vector (already in reverse order)
 		sp -= auxv.size() * 2 * sizeof(address_t);
 		memory.copy_to_guest(sp, auxv.data(), auxv.size() * 2 * sizeof(address_t));
diff --git a/lib/libloong/memory.hpp b/lib/libloong/memory.hpp
index 4c8886e..c14b008 100644
--- a/lib/libloong/memory.hpp
+++ b/lib/libloong/memory.hpp
@@ -59,6 +59,11 @@ namespace loongarch
 		const auto& binary() const noexcept { return m_binary; }
 		address_t start_address() const noexcept { return m_start_address; }
 		address_t stack_address() const noexcept { return m_stack_address; }
+		/// @brief The lowest address of the stack that contains the given stack pointer,
+		/// or zero when it is not on the stack that was reserved for the program
+		address_t stack_base_for(address_t sp) const noexcept {
+			return (sp >= m_stack_base && sp <= m_mmap_start) ? m_stack_base : 0;
+		}
 		void set_stack_address(address_t addr) noexcept { m_stack_address = addr; }
 		address_t exit_address() const noexcept { return m_exit_address; }
 		void set_exit_address(address_t addr) noexcept { m_exit_address = addr; }
@@ -125,6 +130,7 @@ namespace loongarch
 		// Memory layout
 		address_t m_start_address = 0;
 		address_t m_stack_address = 0;
+		address_t m_stack_base = 0;
 		address_t m_exit_address = 0;
 		address_t m_heap_address = 0;
 		address_t m_brk_address = 0;
-- 
2.43.0


From a6238ea82098de9a32d731199988ad6605f65957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:49 +0000
Subject: [PATCH 45/71] fix: signals sent to another thread run there, and to
 every thread by tkill

tgkill ran the handler on the calling thread and stopped the machine for
ignored signals; invalid numbers threw.
---
 lib/libloong/linux/syscalls_threads.cpp | 70 ++++++++++++++++---------
 1 file changed, 44 insertions(+), 26 deletions(-)

diff --git a/lib/libloong/linux/syscalls_threads.cpp b/lib/libloong/linux/syscalls_threads.cpp
index 4a562a2..10f84f1 100644
--- a/lib/libloong/linux/syscalls_threads.cpp
+++ b/lib/libloong/linux/syscalls_threads.cpp
@@ -150,42 +150,60 @@ namespace loongarch
 			machine.threads().suspend_and_yield();
 		});
 
-		// tgkill (update to work with threads)
-		this->install_syscall_handler(131,
-		[](Machine& machine) {
-			const int tid = machine.sysarg<int>(1);
-			const int sig = machine.sysarg<int>(2);
+		// tkill and tgkill (update to work with threads)
+		static constexpr auto send_signal = [](Machine& machine, int tid, int sig) {
 			thprint(machine,
 				">>> tgkill on tid=%d signal=%d\n", tid, sig);
+			if (sig != 0 && !Signals::is_valid(sig)) {
+				machine.set_result(-LA_EINVAL);
+				return;
+			}
 			auto* thread = machine.threads().get_thread(tid);
-			if (thread != nullptr) {
-				if (sig == 0) {
+			if (thread == nullptr) {
+				machine.set_result(-LA_ESRCH);
+				return;
+			}
+			if (sig == 0 || machine.sigaction(sig).is_ignored()) {
+				machine.set_result(0);
+				return;
+			}
+			const bool myself = (machine.threads().get_thread() == thread);
+			// If the signal is unhandled, exit the thread
+			if (machine.sigaction(sig).is_unset()) {
+				// Signals that are ignored by default
+				if (sig == 17 || sig == 18 || sig == 23 || sig == 28) {
 					machine.set_result(0);
 					return;
 				}
-				// If the signal is unhandled, exit the thread
-				if (machine.sigaction(sig).is_unset()) {
-					const bool exiting_myself = (machine.threads().get_thread() == thread);
-					if (!thread->exit()) {
-						if (!exiting_myself)
-							machine.set_result(0);
-						return;
-					}
-				} else {
-					// Jump to signal handler and change to altstack, if set
-					machine.signals().enter(machine, sig);
-					thprint(machine,
-						"<<< tgkill signal=%d jumping to 0x%llx (sp=0x%llx)\n",
-						sig,
-						static_cast<unsigned long long>(machine.sigaction(sig).handler),
-						static_cast<unsigned long long>(machine.cpu.reg(REG_SP)));
+				if (!thread->exit()) {
+					if (!myself)
+						machine.set_result(0);
 					return;
 				}
-			} else {
-				machine.set_result(-LA_ESRCH);
+				machine.stop();
 				return;
 			}
-			machine.stop();
+			machine.set_result(0);
+			if (!myself) {
+				// The handler runs in the other thread, interrupting its wait
+				machine.threads().unblock(tid);
+				machine.threads().yield_to(tid);
+			}
+			// Jump to signal handler and change to altstack, if set
+			machine.signals().enter(machine, sig);
+			thprint(machine,
+				"<<< tgkill signal=%d jumping to 0x%llx (sp=0x%llx)\n",
+				sig,
+				static_cast<unsigned long long>(machine.sigaction(sig).handler),
+				static_cast<unsigned long long>(machine.cpu.reg(REG_SP)));
+		};
+		this->install_syscall_handler(130,
+		[](Machine& machine) {
+			send_signal(machine, machine.sysarg<int>(0), machine.sysarg<int>(1));
+		});
+		this->install_syscall_handler(131,
+		[](Machine& machine) {
+			send_signal(machine, machine.sysarg<int>(1), machine.sysarg<int>(2));
 		});
 
 		// gettid
-- 
2.43.0


From cc877494729a82108a63032a690ad1ca172e6197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:49 +0000
Subject: [PATCH 46/71] fix: signal handlers receive the signal number, and
 actions and stacks follow Linux

The result of the system call overwrote the handler's argument, actions were
read with a restorer field that LoongArch does not have, SIG_IGN was taken for
SIG_DFL, flags and the upper half of masks were lost, signal 0 shared its action
with signal 1, and disabled or used alternate stacks were switched to.
---
 lib/libloong/linux/syscalls.cpp | 102 ++++++++++++++++++++------------
 lib/libloong/posix/signals.cpp  |  14 +++--
 lib/libloong/posix/signals.hpp  |  22 ++++++-
 3 files changed, 93 insertions(+), 45 deletions(-)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index ce243c3..ba945e5 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -10,6 +10,7 @@ namespace loongarch
 {
 	// Error numbers (prefixed to avoid conflicts with system macros)
 	static constexpr int64_t LA_ENOSYS = 38;
+	static constexpr int64_t LA_EPERM = 1;
 	static constexpr int64_t LA_ENOENT = 2;
 	static constexpr int64_t LA_EBADF = 9;
 	static constexpr int64_t LA_ENOMEM = 12;
@@ -358,14 +359,36 @@ namespace loongarch
 		const auto old_ss = machine.sysarg(1);
 
 		auto& stack = machine.signals().per_thread(machine.gettid()).stack;
-
-		// Return old stack if requested
-		if (old_ss != 0x0) {
-			machine.memory.copy_to_guest(old_ss, &stack, sizeof(stack));
-		}
+		const bool on_stack = stack.is_within(machine.cpu.reg(REG_SP));
+
+		// The old stack, as it was before any changes
+		SignalStack old_stack = stack;
+		if (!stack.is_enabled())
+			old_stack.ss_flags = SignalStack::SS_DISABLE;
+		else
+			old_stack.ss_flags = on_stack ? SignalStack::SS_ONSTACK : 0;
 		// Set new stack if provided
 		if (ss != 0x0) {
-			machine.memory.copy_from_guest(&stack, ss, sizeof(stack));
+			SignalStack new_stack;
+			machine.memory.copy_from_guest(&new_stack, ss, sizeof(new_stack));
+			if (on_stack) {
+				machine.set_result(-LA_EPERM);
+				return;
+			} else if (new_stack.ss_flags == SignalStack::SS_DISABLE) {
+				new_stack.ss_sp = 0;
+				new_stack.ss_size = 0;
+			} else if (new_stack.ss_flags != 0 && new_stack.ss_flags != SignalStack::SS_ONSTACK) {
+				machine.set_result(-LA_EINVAL);
+				return;
+			} else if (new_stack.ss_size < 2048) { // MINSIGSTKSZ
+				machine.set_result(-LA_ENOMEM);
+				return;
+			}
+			stack = new_stack;
+		}
+		// Return old stack if requested
+		if (old_ss != 0x0) {
+			machine.memory.copy_to_guest(old_ss, &old_stack, sizeof(old_stack));
 		}
 		machine.set_result(0);
 		sysprint(machine, "sigaltstack(ss=0x%llx, old_ss=0x%llx) = 0\n",
@@ -378,33 +401,38 @@ namespace loongarch
 		const auto action = machine.sysarg(1);
 		const auto old_action = machine.sysarg(2);
 
+		// SIGKILL and SIGSTOP cannot be changed
+		if (!Signals::is_valid(sig) || (action != 0x0 && (sig == 9 || sig == 19))) {
+			machine.set_result(-LA_EINVAL);
+			return;
+		}
 		auto& sigact = machine.sigaction(sig);
 
-		// Kernel sigaction structure (64-bit)
+		// Kernel sigaction structure (there is no sa_restorer on LoongArch)
 		struct kernel_sigaction {
 			address_t sa_handler;
 			address_t sa_flags;
-			address_t sa_restorer;
 			address_t sa_mask;
 		};
 
-		kernel_sigaction sa{};
-
-		// Return old action if requested
-		if (old_action != 0x0) {
-			sa.sa_handler = sigact.handler & ~address_t(0x3);
-			sa.sa_flags   = (sigact.altstack ? LINUX_SA_ONSTACK : 0x0);
-			sa.sa_restorer = 0;
-			sa.sa_mask    = sigact.mask;
-			machine.memory.copy_to_guest(old_action, &sa, sizeof(sa));
-		}
+		// The old action, as it was before any changes
+		kernel_sigaction old_sa{};
+		old_sa.sa_handler = sigact.is_unset() ? 0x0 : sigact.handler;
+		old_sa.sa_flags   = sigact.flags;
+		old_sa.sa_mask    = sigact.mask;
 		// Set new action if provided
 		if (action != 0x0) {
+			kernel_sigaction sa{};
 			machine.memory.copy_from_guest(&sa, action, sizeof(sa));
-			sigact.handler  = sa.sa_handler & ~address_t(0x3);
+			sigact.handler  = sa.sa_handler;
 			sigact.altstack = (sa.sa_flags & LINUX_SA_ONSTACK) != 0;
+			sigact.flags    = sa.sa_flags;
 			sigact.mask     = sa.sa_mask;
 		}
+		// Return old action if requested
+		if (old_action != 0x0) {
+			machine.memory.copy_to_guest(old_action, &old_sa, sizeof(old_sa));
+		}
 		machine.set_result(0);
 		sysprint(machine, "rt_sigaction(sig=%d, action=0x%llx, old_action=0x%llx) = 0\n",
 			sig, static_cast<uint64_t>(action), static_cast<uint64_t>(old_action));
@@ -418,6 +446,22 @@ namespace loongarch
 			machine.template return_value<int>());
 	}
 
+	// Send a signal to the calling thread
+	static void send_signal(Machine& machine, int sig)
+	{
+		if (sig != 0 && !Signals::is_valid(sig)) {
+			machine.set_result(-LA_EINVAL);
+			return;
+		}
+		machine.set_result(0);
+		// If the signal is zero, unset or ignored, ignore it
+		if (sig == 0 || machine.sigaction(sig).is_unset() || machine.sigaction(sig).is_ignored()) {
+			return;
+		}
+		// Jump to signal handler and change to altstack, if set
+		machine.signals().enter(machine, sig);
+	}
+
 	static void syscall_tkill(Machine& machine)
 	{
 		const int tid = machine.sysarg<int>(0);
@@ -425,15 +469,7 @@ namespace loongarch
 
 		sysprint(machine, "tkill(tid=%d, sig=%d)\n", tid, sig);
 
-		// If the signal is zero or unset, ignore it
-		if (sig == 0 || machine.sigaction(sig).is_unset()) {
-			machine.set_result(0);
-			return;
-		}
-
-		// Jump to signal handler and change to altstack, if set
-		machine.signals().enter(machine, sig);
-		machine.set_result(0);
+		send_signal(machine, sig);
 	}
 
 	static void syscall_tgkill(Machine& machine)
@@ -455,15 +491,7 @@ namespace loongarch
 
 		sysprint(machine, "tgkill(tgid=%d, tid=%d, sig=%d)\n", tgid, tid, sig);
 
-		// If the signal is zero or unset, ignore it
-		if (sig == 0 || machine.sigaction(sig).is_unset()) {
-			machine.set_result(0);
-			return;
-		}
-
-		// Jump to signal handler and change to altstack, if set
-		machine.signals().enter(machine, sig);
-		machine.set_result(0);
+		send_signal(machine, sig);
 	}
 
 	static void syscall_brk(Machine& machine)
diff --git a/lib/libloong/posix/signals.cpp b/lib/libloong/posix/signals.cpp
index fe59858..a46fdf0 100644
--- a/lib/libloong/posix/signals.cpp
+++ b/lib/libloong/posix/signals.cpp
@@ -6,10 +6,7 @@ namespace loongarch
 {
 	SignalAction& Signals::get(int sig)
 	{
-		if (sig == 0) {
-			return signals[0];
-		}
-		else if (sig < 1 || sig > 64) {
+		if (!is_valid(sig)) {
 			throw MachineException(INVALID_PROGRAM,
 				"Signal number out of range", sig);
 		}
@@ -27,9 +24,16 @@ namespace loongarch
 		// Switch to alternate stack if configured
 		if (sigact.altstack) {
 			auto& stack = per_thread(machine.gettid()).stack;
-			machine.cpu.reg(REG_SP) = stack.ss_sp + stack.ss_size;
+			if (stack.is_enabled() && !stack.is_within(machine.cpu.reg(REG_SP))) {
+				machine.cpu.reg(REG_SP) = (stack.ss_sp + stack.ss_size) & ~address_t(0xF);
+			}
 		}
 
+		// Handler arguments: signal number, and no siginfo or context
+		machine.cpu.reg(REG_A0) = sig;
+		machine.cpu.reg(REG_A1) = 0;
+		machine.cpu.reg(REG_A2) = 0;
+
 		// Jump to handler
 		machine.cpu.jump(sigact.handler-4);
 	}
diff --git a/lib/libloong/posix/signals.hpp b/lib/libloong/posix/signals.hpp
index c09902b..294510f 100644
--- a/lib/libloong/posix/signals.hpp
+++ b/lib/libloong/posix/signals.hpp
@@ -15,20 +15,34 @@ namespace loongarch
 		address_t ss_sp = 0x0;      // Stack pointer
 		int       ss_flags = 0x0;   // Flags (SS_ONSTACK, SS_DISABLE, etc.)
 		address_t ss_size = 0;      // Stack size
+
+		static constexpr int SS_ONSTACK = 1;
+		static constexpr int SS_DISABLE = 2;
+
+		bool is_enabled() const noexcept { return ss_size != 0; }
+		bool is_within(address_t sp) const noexcept {
+			return is_enabled() && sp > ss_sp && sp - ss_sp <= ss_size;
+		}
 	};
 
 	// Signal action configuration (per-signal)
 	struct SignalAction
 	{
-		static constexpr address_t SIG_UNSET = ~address_t(0x0);
+		static constexpr address_t SIG_UNSET = 0x0;
+		static constexpr address_t SIG_IGNORE = 0x1;
 
 		bool is_unset() const noexcept {
-			return handler == 0x0 || handler == SIG_UNSET;
+			return handler == SIG_UNSET;
+		}
+
+		bool is_ignored() const noexcept {
+			return handler == SIG_IGNORE;
 		}
 
 		address_t handler = SIG_UNSET;  // Handler address
 		bool altstack = false;          // Use alternate stack?
-		unsigned mask = 0x0;            // Signal mask
+		uint64_t flags = 0x0;           // Flags (SA_ONSTACK, SA_SIGINFO, etc.)
+		uint64_t mask = 0x0;            // Signal mask
 	};
 
 	// Signal return state (stores registers for return)
@@ -47,6 +61,8 @@ namespace loongarch
 	// Main signals manager
 	struct Signals
 	{
+		static bool is_valid(int sig) noexcept { return sig >= 1 && sig <= 64; }
+
 		SignalAction& get(int sig);
 		void enter(Machine& machine, int sig);
 
-- 
2.43.0


From 0df97595246f475e816e7133ca5e17565e656866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:42 +0000
Subject: [PATCH 47/71] fix: accelerated memory functions accept zero lengths
 anywhere and overlapping copies

---
 lib/libloong/machine_accelerate.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/libloong/machine_accelerate.cpp b/lib/libloong/machine_accelerate.cpp
index c55f0bb..ed2d970 100644
--- a/lib/libloong/machine_accelerate.cpp
+++ b/lib/libloong/machine_accelerate.cpp
@@ -69,7 +69,8 @@ void Machine::setup_accelerated_syscalls()
 		// Perform native memcpy
 		uint8_t* dest_ptr = machine.memory.template writable_memarray<uint8_t>(dest, n);
 		const uint8_t* src_ptr = machine.memory.template memarray<uint8_t>(src, n);
-		std::memcpy(dest_ptr, src_ptr, n);
+		// The guest may pass overlapping ranges
+		std::memmove(dest_ptr, src_ptr, n);
 
 		machine.set_result(dest);
 	});
@@ -79,6 +80,10 @@ void Machine::setup_accelerated_syscalls()
 		const address_t dest = machine.cpu.reg(REG_A0);
 		const int value      = machine.cpu.reg(REG_A1);
 		const size_t n       = machine.cpu.reg(REG_A2);
+		if (LA_UNLIKELY(n == 0)) {
+			machine.set_result(dest);
+			return;
+		}
 		// Perform native memset
 		uint8_t* dest_ptr = machine.memory.template writable_memarray<uint8_t>(dest, n);
 		std::memset(dest_ptr, value, n);
@@ -91,6 +96,10 @@ void Machine::setup_accelerated_syscalls()
 		const address_t ptr1 = machine.cpu.reg(REG_A0);
 		const address_t ptr2 = machine.cpu.reg(REG_A1);
 		const size_t n       = machine.cpu.reg(REG_A2);
+		if (LA_UNLIKELY(n == 0)) {
+			machine.set_result<int>(0);
+			return;
+		}
 		// Perform native memcmp
 		const uint8_t* p1 = machine.memory.template memarray<uint8_t>(ptr1, n);
 		const uint8_t* p2 = machine.memory.template memarray<uint8_t>(ptr2, n);
@@ -104,6 +113,10 @@ void Machine::setup_accelerated_syscalls()
 		const address_t dest = machine.cpu.reg(REG_A0);
 		const address_t src  = machine.cpu.reg(REG_A1);
 		const size_t n       = machine.cpu.reg(REG_A2);
+		if (LA_UNLIKELY(n == 0)) {
+			machine.set_result(dest);
+			return;
+		}
 		// Perform native memmove
 		uint8_t* dest_ptr = machine.memory.template writable_memarray<uint8_t>(dest, n);
 		const uint8_t* src_ptr = machine.memory.template memarray<uint8_t>(src, n);
-- 
2.43.0


From b10f15fc600271cb03aad62728c0bd93c87a865b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:18 +0000
Subject: [PATCH 48/71] fix: accelerated string functions stop at the byte they
 look for and fault at the end of memory

---
 lib/libloong/machine_accelerate.cpp | 71 ++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 27 deletions(-)

diff --git a/lib/libloong/machine_accelerate.cpp b/lib/libloong/machine_accelerate.cpp
index ed2d970..a23c54b 100644
--- a/lib/libloong/machine_accelerate.cpp
+++ b/lib/libloong/machine_accelerate.cpp
@@ -47,6 +47,40 @@ static inline void patch(Machine& machine, const std::vector<std::string> symbol
 	}
 }
 
+// The bytes that can be read from an address, at most maxlen. C string functions
+// stop at the byte they look for, and only fault when there is none in memory.
+static inline std::string_view readable_bytes(const Machine& machine, address_t addr, size_t maxlen)
+{
+	if (maxlen == 0)
+		return {};
+	const address_t end = machine.memory.arena_size();
+	return machine.memory.memview(addr, (addr < end) ? std::min(maxlen, size_t(end - addr)) : maxlen);
+}
+
+static inline size_t native_strnlen(const Machine& machine, address_t addr, size_t maxlen)
+{
+	const auto str = readable_bytes(machine, addr, maxlen);
+	const size_t len = ::strnlen(str.data(), str.size());
+	if (LA_UNLIKELY(len == str.size() && len < maxlen))
+		throw MachineException(PROTECTION_FAULT, "Unterminated string", addr);
+	return len;
+}
+
+static inline int native_strncmp(const Machine& machine, address_t addr1, address_t addr2, size_t maxlen)
+{
+	const auto str1 = readable_bytes(machine, addr1, maxlen);
+	const auto str2 = readable_bytes(machine, addr2, maxlen);
+	const size_t common = std::min(str1.size(), str2.size());
+	const size_t len = ::strnlen(str1.data(), common);
+	if (const int result = std::memcmp(str1.data(), str2.data(), len); result != 0)
+		return result;
+	if (len < common) // The end of the first string
+		return (str2[len] == 0) ? 0 : -1;
+	if (LA_UNLIKELY(common < maxlen))
+		throw MachineException(PROTECTION_FAULT, "Unterminated string", addr1);
+	return 0;
+}
+
 void Machine::setup_accelerated_syscalls()
 {
 	// Register accelerated syscalls here
@@ -131,12 +165,13 @@ void Machine::setup_accelerated_syscalls()
 		const int value     = machine.cpu.reg(REG_A1);
 		const size_t n      = machine.cpu.reg(REG_A2);
 		// Perform native memchr
-		const uint8_t* p = machine.memory.template memarray<uint8_t>(ptr, n);
-		const void* result = std::memchr(p, value, n);
+		const auto bytes = readable_bytes(machine, ptr, n);
+		const size_t offset = bytes.find(static_cast<char>(value));
 
-		if (result) {
-			const address_t offset = static_cast<const uint8_t*>(result) - p;
-			machine.set_result(ptr + offset);
+		if (offset != bytes.npos) {
+			machine.set_result<address_t>(ptr + offset);
+		} else if (bytes.size() < n) {
+			throw MachineException(PROTECTION_FAULT, "Read from unmapped memory", ptr);
 		} else {
 			machine.set_result<address_t>(0);
 		}
@@ -145,35 +180,21 @@ void Machine::setup_accelerated_syscalls()
 	install_syscall_handler(SYS_native_strlen,
 	[] (Machine& machine) {
 		const address_t str_addr = machine.cpu.reg(REG_A0);
-		machine.set_result(machine.memory.strlen(str_addr));
+		machine.set_result(native_strnlen(machine, str_addr, SIZE_MAX));
 	});
 
 	install_syscall_handler(SYS_native_strnlen,
 	[] (Machine& machine) {
 		const address_t str_addr = machine.cpu.reg(REG_A0);
 		const size_t maxlen      = machine.cpu.reg(REG_A1);
-		machine.set_result(machine.memory.strlen(str_addr, maxlen));
+		machine.set_result(native_strnlen(machine, str_addr, maxlen));
 	});
 
 	install_syscall_handler(SYS_native_strcmp,
 	[] (Machine& machine) {
 		const address_t str1_addr = machine.cpu.reg(REG_A0);
 		const address_t str2_addr = machine.cpu.reg(REG_A1);
-		const size_t len1 = machine.memory.strlen(str1_addr);
-		const size_t len2 = machine.memory.strlen(str2_addr);
-		const size_t cmp_len = std::min(len1, len2);
-		const char* s1 = machine.memory.template memarray<char>(str1_addr, cmp_len + 1);
-		const char* s2 = machine.memory.template memarray<char>(str2_addr, cmp_len + 1);
-		int result = std::memcmp(s1, s2, cmp_len);
-		if (result == 0) {
-			if (len1 < len2) {
-				result = -1;
-			} else if (len1 > len2) {
-				result = 1;
-			}
-		}
-
-		machine.set_result<int>(result);
+		machine.set_result<int>(native_strncmp(machine, str1_addr, str2_addr, SIZE_MAX));
 	});
 
 	install_syscall_handler(SYS_native_strncmp,
@@ -181,11 +202,7 @@ void Machine::setup_accelerated_syscalls()
 		const address_t str1_addr = machine.cpu.reg(REG_A0);
 		const address_t str2_addr = machine.cpu.reg(REG_A1);
 		const size_t n            = machine.cpu.reg(REG_A2);
-		const char* s1 = machine.memory.template memarray<char>(str1_addr, n);
-		const char* s2 = machine.memory.template memarray<char>(str2_addr, n);
-		const int result = std::memcmp(s1, s2, n);
-
-		machine.set_result<int>(result);
+		machine.set_result<int>(native_strncmp(machine, str1_addr, str2_addr, n));
 	});
 
 	// Iterate the symbol table and patch known functions
-- 
2.43.0


From 8fdf6a896a17fc62664af229b1b0774b5d9bfb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:39 +0000
Subject: [PATCH 49/71] fix: a machine without a program has no mmap area at
 address zero

---
 lib/libloong/memory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index 0749bdc..aa198d6 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -107,6 +107,8 @@ void Memory::allocate_custom_arena(size_t size, address_t rodata_start, address_
 	this->m_data_start = data_start;
 	this->m_arena_end_sub_rodata = this->m_arena_size - this->m_rodata_start;
 	this->m_arena_end_sub_data = this->m_arena_size - this->m_data_start;
+	// There is no program, and everything is managed by the host, so no mmap area
+	this->m_mmap_start = this->m_mmap_address = this->m_mmap_highest = this->m_arena_size;
 }
 void Memory::use_custom_arena(void* ptr, size_t size)
 {
-- 
2.43.0


From 41006d1727c9ef2c29cd80ebbd80e54851eef44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:39 +0000
Subject: [PATCH 50/71] fix: write and writev report bad descriptors and write
 every buffer

---
 lib/libloong/linux/syscalls.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index ba945e5..99e515d 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -94,7 +94,7 @@ namespace loongarch
 			machine.print(view, len);
 			machine.set_result(len);
 		} else {
-			machine.set_result(-1);
+			machine.set_result(-LA_EBADF);
 		}
 		sysprint(machine, "write(fd=%d, buf=0x%llx, count=%llu) = %d\n",
 			fd,
@@ -120,8 +120,8 @@ namespace loongarch
 				auto base = machine.memory.template read<address_t>(iovec_offset);
 				auto len = machine.memory.template read<address_t>(iovec_offset + sizeof(address_t));
 
-				// Sanity check on length
-				if (len > 0 && len < 1024 * 1024) {
+				// The range is verified by memarray
+				if (len > 0) {
 					const char* view = machine.memory.template memarray<char>(base, len);
 					machine.print(view, len);
 					total += len;
@@ -129,7 +129,7 @@ namespace loongarch
 			}
 			machine.set_result(total);
 		} else {
-			machine.set_result(-1);
+			machine.set_result(-LA_EBADF);
 		}
 		sysprint(machine, "writev(fd=%d, iov=0x%llx, iovcnt=%llu) = %d\n",
 			fd,
-- 
2.43.0


From f1495359447cc1bed56a597c5dfe24776ea63930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:39 +0000
Subject: [PATCH 51/71] fix: clock_gettime and nanosleep refuse invalid clocks
 and times

---
 lib/libloong/linux/syscalls.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index 99e515d..1609cf8 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -246,12 +246,16 @@ namespace loongarch
 	{
 		auto [clockid, tp] =
 			machine.template sysargs<int, address_t>();
-		if (tp != 0) {
-			struct timespec ts;
-			clock_gettime(clockid, &ts);
-			machine.memory.copy_to_guest(tp, &ts, sizeof(ts));
+		// Clocks of host processes and devices (negative numbers) are not available
+		struct timespec ts;
+		if (clockid < 0 || clock_gettime(clockid, &ts) != 0) {
+			machine.set_result(-LA_EINVAL);
+		} else {
+			if (tp != 0) {
+				machine.memory.copy_to_guest(tp, &ts, sizeof(ts));
+			}
+			machine.set_result(0);
 		}
-		machine.set_result(0);
 		sysprint(machine, "clock_gettime(clockid=%d, tp=0x%llx) = %d\n",
 			clockid, static_cast<uint64_t>(tp),
 			machine.template return_value<int>());
@@ -298,6 +302,10 @@ namespace loongarch
 		if (req_addr != 0) {
 			struct timespec req;
 			machine.memory.copy_from_guest(&req, req_addr, sizeof(req));
+			if (req.tv_sec < 0 || req.tv_nsec < 0 || req.tv_nsec > 999999999) {
+				machine.set_result(-LA_EINVAL);
+				return;
+			}
 			// In a real implementation, we would sleep here.
 			// For the emulator, we just ignore the request.
 			if (rem_addr != 0) {
-- 
2.43.0


From dd3841abcf9926e893c83166a1e41d74ea5bb206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:40 +0000
Subject: [PATCH 52/71] fix: ppoll counts ready descriptors, and fcntl,
 readlinkat, prlimit64 and sched_getaffinity refuse invalid arguments

---
 lib/libloong/linux/syscalls.cpp | 35 ++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index 1609cf8..e089ff7 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -333,7 +333,7 @@ namespace loongarch
 			machine.template sysargs<int, size_t, address_t>();
 		(void)pid;
 		// For simplicity, assume single CPU (CPU 0)
-		if (cpusetsize >= sizeof(uint64_t) && mask_addr != 0) {
+		if (cpusetsize >= sizeof(uint64_t) && (cpusetsize % sizeof(uint64_t)) == 0 && mask_addr != 0) {
 			uint64_t mask = 1; // CPU 0
 			machine.memory.copy_to_guest(mask_addr, &mask, sizeof(mask));
 			machine.set_result(sizeof(uint64_t));
@@ -527,11 +527,10 @@ namespace loongarch
 
 	static void syscall_fcntl(Machine& machine)
 	{
-		// int fd = machine.cpu.reg(REG_A0);
+		auto [fd] = machine.template sysargs<int>();
 		// int cmd = machine.cpu.reg(REG_A1);
-		// Stub implementation: return 0 (success)
-		(void)machine;
-		machine.set_result(0);
+		// Stub implementation: return 0 (success) for stdio
+		machine.set_result((fd >= 0 && fd <= 2) ? 0 : -LA_EBADF);
 	}
 
 	static void syscall_set_tid_address(Machine& machine)
@@ -556,6 +555,11 @@ namespace loongarch
 		const address_t buf_addr = machine.cpu.reg(REG_A2);
 		const size_t bufsiz = machine.cpu.reg(REG_A3);
 
+		if (static_cast<int>(bufsiz) <= 0) {
+			machine.set_result(-LA_EINVAL);
+			return;
+		}
+
 		// Read the pathname
 		std::string pathname = machine.memory.memstring(pathname_addr, 256);
 
@@ -596,6 +600,11 @@ namespace loongarch
 		// const struct rlimit64 *new_limit = machine.cpu.reg(REG_A2);
 		auto old_limit = machine.cpu.reg(REG_A3);
 
+		if (resource < 0 || resource >= 16) { // RLIM_NLIMITS
+			machine.set_result(-LA_EINVAL);
+			return;
+		}
+
 		// If old_limit is provided, fill in with reasonable defaults
 		if (old_limit != 0) {
 			// struct rlimit64 { uint64_t rlim_cur; uint64_t rlim_max; }
@@ -731,6 +740,12 @@ namespace loongarch
 			short events;
 			short revents;
 		};
+		static constexpr short LINUX_POLLNVAL = 0x20;
+		if (nfds == 0) {
+			machine.set_result(0);
+			return;
+		}
+		unsigned ready = 0;
 		vpollfd* fds = machine.memory.template writable_memarray<vpollfd>(fds_addr, nfds);
 		for (size_t i = 0; i < nfds; i++) {
 			const int fd = fds[i].fd;
@@ -740,12 +755,14 @@ namespace loongarch
 				auto events = fds[i].events;
 				fds[i].revents = events;
 			} else {
-				// Clear revents for other fds
-				fds[i].revents = 0;
+				// Negative fds are ignored, and there are no others
+				fds[i].revents = (fd < 0) ? 0 : LINUX_POLLNVAL;
 			}
+			if (fds[i].revents != 0)
+				ready++;
 		}
-		// Mark stdio as ready (stub)
-		machine.set_result(0);
+		// The number of fds with events (stdio is always ready)
+		machine.set_result(ready);
 	}
 
 	void Machine::setup_linux_syscalls()
-- 
2.43.0


From 0f6a3c9e391bf525e32fced5fd1b25f9343fed89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:14 +0000
Subject: [PATCH 53/71] fix: the instruction handler table can be extended
 while other machines run

---
 lib/libloong/decoder_cache.cpp | 11 ++++++++---
 lib/libloong/decoder_cache.hpp |  9 +++++++--
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/lib/libloong/decoder_cache.cpp b/lib/libloong/decoder_cache.cpp
index da4e0c4..fa1daff 100644
--- a/lib/libloong/decoder_cache.cpp
+++ b/lib/libloong/decoder_cache.cpp
@@ -296,16 +296,21 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 
 	uint16_t DecoderData::compute_handler_for(handler_t handler)
 	{
+		std::lock_guard<std::mutex> lock(m_handlers_mutex);
 		// Search for existing handler
-		for (size_t i = 0; i < m_handlers.size(); ++i) {
+		for (size_t i = 0; i < m_handlers_count; ++i) {
 			if (m_handlers[i] == handler) {
 				return static_cast<uint16_t>(i);
 			}
 		}
 
 		// Add new handler
-		m_handlers.push_back(handler);
-		return static_cast<uint16_t>(m_handlers.size() - 1);
+		if (m_handlers_count >= m_handlers.size()) {
+			throw MachineException(OUT_OF_MEMORY,
+				"DecoderCache: Too many instruction handlers", m_handlers_count);
+		}
+		m_handlers[m_handlers_count] = handler;
+		return static_cast<uint16_t>(m_handlers_count++);
 	}
 
 	void DecodedExecuteSegment::set(address_t entry_addr, const DecoderData& data)
diff --git a/lib/libloong/decoder_cache.hpp b/lib/libloong/decoder_cache.hpp
index f370e07..3927c96 100644
--- a/lib/libloong/decoder_cache.hpp
+++ b/lib/libloong/decoder_cache.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include "common.hpp"
-#include <vector>
+#include <array>
+#include <mutex>
 
 namespace loongarch
 {
@@ -35,7 +36,11 @@ namespace loongarch
 		}
 
 	private:
-		static inline std::vector<handler_t> m_handlers;
+		// Handlers are never moved or changed once added, as they are read
+		// by every machine in the process without taking the lock
+		static inline std::array<handler_t, 512> m_handlers = {};
+		static inline size_t m_handlers_count = 0;
+		static inline std::mutex m_handlers_mutex;
 	};
 	static_assert(sizeof(DecoderData) == 8, "DecoderData size incorrect");
 
-- 
2.43.0


From ef584872e3355d50a7891d3f93d5343eeafa13e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:46 +0000
Subject: [PATCH 54/71] fix: shared execute segments are never modified, mixed
 up with other code or leaked

---
 lib/libloong/decoded_exec_segment.cpp |  29 +++++++
 lib/libloong/decoded_exec_segment.hpp |  24 +++++-
 lib/libloong/machine_accelerate.cpp   |   2 +-
 lib/libloong/memory.cpp               | 111 +++++++++++++++++---------
 lib/libloong/memory.hpp               |   7 ++
 lib/libloong/shared_exec_segment.cpp  |   5 +-
 lib/libloong/shared_exec_segment.hpp  |   5 +-
 7 files changed, 140 insertions(+), 43 deletions(-)

diff --git a/lib/libloong/decoded_exec_segment.cpp b/lib/libloong/decoded_exec_segment.cpp
index eef3a78..e87af57 100644
--- a/lib/libloong/decoded_exec_segment.cpp
+++ b/lib/libloong/decoded_exec_segment.cpp
@@ -52,6 +52,8 @@ namespace loongarch
 		}
 #endif
 
+		Memory::release_execute_segment(m_cloned_from);
+
 		// Clean up main decoder cache
 		if (m_decoder_cache.cache) {
 			delete[] m_decoder_cache.cache;
@@ -59,4 +61,31 @@ namespace loongarch
 		}
 	}
 
+	std::shared_ptr<DecodedExecuteSegment> DecodedExecuteSegment::clone()
+	{
+		auto copy_cache = [](const DecoderCache& from, DecoderCache& to) {
+			if (from.cache) {
+				// There is one extra entry at the end
+				to.cache = new DecoderData[from.size + 1];
+				to.size = from.size;
+				std::memcpy(to.cache, from.cache, (from.size + 1) * sizeof(DecoderData));
+			}
+		};
+		auto copy = std::make_shared<DecodedExecuteSegment>(m_exec_begin, m_exec_end);
+#ifdef LA_BINARY_TRANSLATION
+		this->wait_for_compilation_complete();
+		copy_cache(m_patched_decoder_cache, copy->m_patched_decoder_cache);
+		copy->m_mappings_base_address = m_mappings_base_address;
+		copy->m_is_libtcc = m_is_libtcc;
+#endif
+		copy_cache(m_decoder_cache, copy->m_decoder_cache);
+		copy->m_crc32c_hash = m_crc32c_hash;
+		copy->m_stale = m_stale;
+		copy->m_execute_only = m_execute_only;
+		// The copy uses the translated code owned by this segment
+		if (is_binary_translated())
+			copy->m_cloned_from = this->shared_from_this();
+		return copy;
+	}
+
 } // namespace loongarch
diff --git a/lib/libloong/decoded_exec_segment.hpp b/lib/libloong/decoded_exec_segment.hpp
index abb413f..2f1dc5d 100644
--- a/lib/libloong/decoded_exec_segment.hpp
+++ b/lib/libloong/decoded_exec_segment.hpp
@@ -2,13 +2,15 @@
 #include "common.hpp"
 #include "decoder_cache.hpp"
 #include "tr_types.hpp"
+#include <cstring>
+#include <memory>
 #include <vector>
 #include <mutex>
 #include <condition_variable>
 
 namespace loongarch
 {
-	struct DecodedExecuteSegment {
+	struct DecodedExecuteSegment : public std::enable_shared_from_this<DecodedExecuteSegment> {
 		DecodedExecuteSegment(address_t begin, address_t end)
 			: m_exec_begin(begin), m_exec_end(end) {}
 
@@ -18,6 +20,22 @@ namespace loongarch
 		uint32_t crc32c_hash() const noexcept { return m_crc32c_hash; }
 		void set_crc32c_hash(uint32_t hash) noexcept { m_crc32c_hash = hash; }
 
+		// Segments in the shared cache may be used by other machines, and must not
+		// be modified. They remember what they were made from.
+		bool is_shared() const noexcept { return m_is_shared; }
+		uint64_t shared_arena_size() const noexcept { return m_shared_arena_size; }
+		void set_shared(const uint8_t* code, size_t size, uint64_t arena_size) {
+			m_shared_code.assign(code, code + size);
+			m_shared_arena_size = arena_size;
+			m_is_shared = true;
+		}
+		bool is_decoded_from(const uint8_t* code, size_t size) const noexcept {
+			return m_shared_code.size() == size && (size == 0 || std::memcmp(m_shared_code.data(), code, size) == 0);
+		}
+
+		// Create a modifiable copy that is not in the shared cache
+		std::shared_ptr<DecodedExecuteSegment> clone();
+
 		bool is_within(address_t addr, size_t len = 4) const noexcept {
 			address_t addr_end;
 #ifdef _MSC_VER
@@ -97,6 +115,10 @@ namespace loongarch
 		bool m_stale = false;
 		bool m_execute_only = false;
 		uint32_t m_crc32c_hash = 0;
+		bool m_is_shared = false;
+		uint64_t m_shared_arena_size = 0;
+		std::vector<uint8_t> m_shared_code;
+		std::shared_ptr<DecodedExecuteSegment> m_cloned_from;
 #ifdef LA_BINARY_TRANSLATION
 		bool m_is_libtcc = false;
 		const char* m_mappings_base_address = nullptr;
diff --git a/lib/libloong/machine_accelerate.cpp b/lib/libloong/machine_accelerate.cpp
index a23c54b..ebd47be 100644
--- a/lib/libloong/machine_accelerate.cpp
+++ b/lib/libloong/machine_accelerate.cpp
@@ -41,7 +41,7 @@ static inline void patch(Machine& machine, const std::vector<std::string> symbol
 			entry.block_bytes = 0; // Diverges here
 			entry.instr = syscall_number;
 			// Install into decoder cache
-			auto& exec_seg = *machine.memory.exec_segment_for(addr);
+			auto& exec_seg = machine.memory.writable_exec_segment_for(addr);
 			exec_seg.set(addr, entry);
 		}
 	}
diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index aa198d6..0708b37 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -25,6 +25,7 @@ Memory::Memory(Machine& machine,
 			binary_loader(options);
 		} catch (...) {
 			// The destructor does not run for a failed load
+			evict_execute_segments();
 			free_arena();
 			throw;
 		}
@@ -40,7 +41,6 @@ Memory::Memory(Machine& machine, const Machine& other, const MachineOptions& opt
 
 Memory::~Memory()
 {
-	machine().cpu.set_execute_segment(*CPU::empty_execute_segment());
 #ifdef LA_BINARY_TRANSLATION
 	// If the main execute segment is currently background compiling,
 	// wait for it to finish in asynchronously
@@ -50,8 +50,9 @@ Memory::~Memory()
 		auto* arena_ptr = m_arena;
 		const auto arena_size = m_arena_size;
 		const bool is_custom = m_arena_is_custom;
-		std::thread([seg = m_main_exec_segment, arena_ptr, arena_size, is_custom]() {
+		std::thread([seg = m_main_exec_segment, arena_ptr, arena_size, is_custom]() mutable {
 			seg->wait_for_compilation_complete();
+			release_execute_segment(seg);
 			if (!is_custom)
 				free_arena_internal(arena_ptr, arena_size);
 		}).detach();
@@ -61,6 +62,7 @@ Memory::~Memory()
 #else
 	free_arena();
 #endif
+	evict_execute_segments();
 }
 
 void Memory::allocate_arena(size_t size)
@@ -335,44 +337,56 @@ DecodedExecuteSegment& Memory::create_execute_segment(
 
 	// Check if we should use shared execute segments
 	if (options.use_shared_execute_segments) {
+		const auto* code = static_cast<const uint8_t*>(data);
 		// Compute CRC32-C hash of the segment data
-		uint32_t crc32c = util::crc32c(static_cast<const uint8_t*>(data), len);
+		uint32_t crc32c = util::crc32c(code, len);
 
 		// Create segment key
 		SegmentKey key = SegmentKey::from(addr, crc32c, m_arena_size);
 
-		// Try to get existing shared segment
-		auto& shared_cache = get_shared_execute_segments();
-		auto& entry = shared_cache.get_segment(key);
-
 		// Lock the segment entry and check if it exists
-		std::shared_ptr<DecodedExecuteSegment> existing = entry.get();
-
-		if (existing) {
+		auto& entry = get_shared_execute_segments().get_segment(key);
+		std::lock_guard<std::mutex> lock(entry.mutex);
+		if (!entry.segment) {
+			// Publish the segment only after it is complete
+			segment = std::make_shared<DecodedExecuteSegment>(addr, addr + len);
+			populate_decoder_cache(m_machine, options, segment, addr, code, len, is_initial);
+			segment->set_shared(code, len, m_arena_size);
+			entry.unlocked_set(segment);
+		} else if (entry.segment->is_decoded_from(code, len)) {
 			// Reuse existing shared segment
-			segment = existing;
-		} else {
-			// No existing segment, use the one we just created
-			std::lock_guard<std::mutex> lock(entry.mutex);
-			// Double-check in case another thread created it
-			if (!entry.segment) {
-				entry.segment = std::make_shared<DecodedExecuteSegment>(addr, addr + len);
-				populate_decoder_cache(m_machine, options, entry.segment, addr, static_cast<const uint8_t*>(data), len, is_initial);
-			}
 			segment = entry.segment;
 		}
-	} else {
+		// Otherwise, it is different code with the same checksum
+	}
+	if (!segment) {
 		// Not using shared segments, create a new one
 		segment = std::make_shared<DecodedExecuteSegment>(addr, addr + len);
 		populate_decoder_cache(m_machine, options, segment, addr, static_cast<const uint8_t*>(data), len, is_initial);
 	}
 
+	// The new segment replaces the segments that it covers
+	auto* main_exec = m_main_exec_segment.get();
+	std::vector<std::shared_ptr<DecodedExecuteSegment>> replaced;
+	if (main_exec && (is_initial || (addr <= main_exec->exec_begin() && addr + len >= main_exec->exec_end())))
+		replaced.push_back(std::move(m_main_exec_segment));
+	for (auto it = m_exec.begin(); it != m_exec.end(); ) {
+		if (addr <= (*it)->exec_begin() && addr + len >= (*it)->exec_end()) {
+			replaced.push_back(std::move(*it));
+			it = m_exec.erase(it);
+		} else ++it;
+	}
+
 	if (is_initial) {
 		m_main_exec_segment = segment;
 	} else {
 		m_exec.push_back(segment);
 	}
 
+	machine().cpu.set_execute_segment(*CPU::empty_execute_segment());
+	for (auto& old : replaced)
+		release_execute_segment(old);
+
 	return *segment;
 }
 
@@ -391,27 +405,50 @@ void Memory::evict_execute_segments()
 {
 	machine().cpu.set_execute_segment(*CPU::empty_execute_segment());
 
-	// If using shared segments, notify the cache before releasing our references
-	if (machine().has_options() && machine().options().use_shared_execute_segments) {
-		auto& shared_cache = get_shared_execute_segments();
+	auto segments = std::move(m_exec);
+	m_exec.clear();
+	segments.push_back(std::move(m_main_exec_segment));
+	for (auto& segment : segments)
+		release_execute_segment(segment);
+}
 
-		// Remove main segment if unique
-		if (m_main_exec_segment) {
-			SegmentKey key = SegmentKey::from(*m_main_exec_segment, m_arena_size);
-			shared_cache.remove_if_unique(key);
-		}
+void Memory::release_execute_segment(std::shared_ptr<DecodedExecuteSegment>& segment)
+{
+	if (segment && segment->is_shared()) {
+		const auto key = SegmentKey::from(*segment, segment->shared_arena_size());
+		// The cache can only see the last reference go after it is gone
+		segment.reset();
+		get_shared_execute_segments().remove_if_unique(key);
+	}
+	segment.reset();
+}
 
-		// Remove other segments if unique
-		for (auto& seg : m_exec) {
-			if (seg) {
-				SegmentKey key = SegmentKey::from(*seg, m_arena_size);
-				shared_cache.remove_if_unique(key);
-			}
-		}
+bool Memory::has_execute_segment(const DecodedExecuteSegment* segment) const noexcept
+{
+	if (m_main_exec_segment.get() == segment)
+		return true;
+	for (auto& seg : m_exec) {
+		if (seg.get() == segment) return true;
 	}
+	return false;
+}
 
-	m_exec.clear();
-	m_main_exec_segment.reset();
+DecodedExecuteSegment& Memory::writable_exec_segment_for(address_t pc)
+{
+	auto segment = exec_segment_for(pc);
+	if (!segment->is_shared())
+		return *segment;
+
+	auto copy = segment->clone();
+	if (m_main_exec_segment == segment)
+		m_main_exec_segment = copy;
+	for (auto& seg : m_exec) {
+		if (seg == segment) seg = copy;
+	}
+	if (&machine().cpu.current_execute_segment() == segment.get())
+		machine().cpu.set_execute_segment(*copy);
+	release_execute_segment(segment);
+	return *copy;
 }
 
 void Memory::reset()
diff --git a/lib/libloong/memory.hpp b/lib/libloong/memory.hpp
index c14b008..a16c3d3 100644
--- a/lib/libloong/memory.hpp
+++ b/lib/libloong/memory.hpp
@@ -54,6 +54,13 @@ namespace loongarch
 		std::shared_ptr<DecodedExecuteSegment> exec_segment_for(address_t pc) const;
 		size_t execute_segments_count() const noexcept { return m_exec.size() + (m_main_exec_segment ? 1 : 0); }
 		void evict_execute_segments();
+		/// @brief Get the execute segment of an address for modification, making it
+		/// private to this machine if needed
+		DecodedExecuteSegment& writable_exec_segment_for(address_t pc);
+		/// @brief Drop a reference to an execute segment. A shared segment is
+		/// removed from the cache together with the last reference.
+		static void release_execute_segment(std::shared_ptr<DecodedExecuteSegment>& segment);
+		bool has_execute_segment(const DecodedExecuteSegment* segment) const noexcept;
 
 		// Binary info
 		const auto& binary() const noexcept { return m_binary; }
diff --git a/lib/libloong/shared_exec_segment.cpp b/lib/libloong/shared_exec_segment.cpp
index 686ff01..9d8d598 100644
--- a/lib/libloong/shared_exec_segment.cpp
+++ b/lib/libloong/shared_exec_segment.cpp
@@ -48,8 +48,9 @@ namespace loongarch
 	// Global singleton
 	SharedExecuteSegments& get_shared_execute_segments()
 	{
-		static SharedExecuteSegments instance;
-		return instance;
+		// Never destroyed, as machines may outlive static storage duration
+		static auto* instance = new SharedExecuteSegments;
+		return *instance;
 	}
 
 } // namespace loongarch
diff --git a/lib/libloong/shared_exec_segment.hpp b/lib/libloong/shared_exec_segment.hpp
index 3f6193e..4bfb909 100644
--- a/lib/libloong/shared_exec_segment.hpp
+++ b/lib/libloong/shared_exec_segment.hpp
@@ -3,6 +3,7 @@
 #include "decoded_exec_segment.hpp"
 #include <memory>
 #include <mutex>
+#include <tuple>
 #include <unordered_map>
 
 namespace loongarch
@@ -21,11 +22,11 @@ namespace loongarch
 		static SegmentKey from(const DecodedExecuteSegment& segment, uint64_t arena_size);
 
 		bool operator==(const SegmentKey& other) const {
-			return pc == other.pc && crc == other.crc;
+			return pc == other.pc && crc == other.crc && arena_size == other.arena_size;
 		}
 
 		bool operator<(const SegmentKey& other) const {
-			return pc < other.pc || (pc == other.pc && crc < other.crc);
+			return std::tie(pc, crc, arena_size) < std::tie(other.pc, other.crc, other.arena_size);
 		}
 	};
 
-- 
2.43.0


From abe4c219e482fbf2132fb06dcd6851e8517f243a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:46 +0000
Subject: [PATCH 55/71] fix: execution leaves evicted and replaced execute
 segments, and continues in adjacent ones

---
 lib/libloong/bytecode_impl.cpp                |  4 +++
 lib/libloong/cpu.cpp                          |  2 +-
 lib/libloong/memory.hpp                       | 23 ++++++++++++++++
 lib/libloong/threaded_dispatch.cpp            | 26 +++++++++++++++----
 lib/libloong/threaded_inaccurate_dispatch.cpp | 25 ++++++++++++++----
 5 files changed, 69 insertions(+), 11 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index 9b2a3f5..38feafc 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -1025,6 +1025,10 @@ INSTRUCTION(LA64_BC_REVB_4H, la64_revb_4h)
 // LA64_BC_INVALID: Invalid instruction
 INSTRUCTION(LA64_BC_INVALID, execute_invalid)
 {
+#ifdef CHECK_SEGMENT_END
+	// Past the last instruction of the segment: another one may follow
+	CHECK_SEGMENT_END();
+#endif
 	// Reconstruct PC and trigger exception
 	REGISTERS().pc = pc - DECODER().block_bytes;
 	// Trigger invalid instruction exception
diff --git a/lib/libloong/cpu.cpp b/lib/libloong/cpu.cpp
index a7e3dcf..2281fe8 100644
--- a/lib/libloong/cpu.cpp
+++ b/lib/libloong/cpu.cpp
@@ -77,7 +77,7 @@ namespace loongarch
 	bool CPU::is_executable(address_t addr) const noexcept
 	{
 		auto segment = memory().exec_segment_for(addr);
-		return segment != nullptr;
+		return !segment->empty();
 	}
 
 	DecodedExecuteSegment& CPU::init_execute_area(
diff --git a/lib/libloong/memory.hpp b/lib/libloong/memory.hpp
index a16c3d3..54219b2 100644
--- a/lib/libloong/memory.hpp
+++ b/lib/libloong/memory.hpp
@@ -183,6 +183,29 @@ namespace loongarch
 		[[noreturn]] LA_COLD_PATH() static void protection_fault(address_t addr, const char* message);
 	};
 
+	// Keeps the execute segment that is being executed alive, as system calls
+	// may evict or replace the execute segments of the machine
+	struct ExecutingSegment
+	{
+		explicit ExecutingSegment(const Memory& mem) : m_memory(mem) {}
+		ExecutingSegment(const ExecutingSegment&) = delete;
+		ExecutingSegment& operator=(const ExecutingSegment&) = delete;
+		~ExecutingSegment() { release(); }
+
+		void set(DecodedExecuteSegment* segment) {
+			release();
+			m_segment = segment->weak_from_this().lock();
+		}
+
+	private:
+		void release() {
+			if (m_segment && LA_UNLIKELY(!m_memory.has_execute_segment(m_segment.get())))
+				Memory::release_execute_segment(m_segment);
+		}
+		const Memory& m_memory;
+		std::shared_ptr<DecodedExecuteSegment> m_segment;
+	};
+
 } // loongarch
 
 #include "memory_inline.hpp"
diff --git a/lib/libloong/threaded_dispatch.cpp b/lib/libloong/threaded_dispatch.cpp
index 7a8d53d..8b5b40d 100644
--- a/lib/libloong/threaded_dispatch.cpp
+++ b/lib/libloong/threaded_dispatch.cpp
@@ -24,6 +24,11 @@
 	pc += decoder->block_bytes; \
 	counter += decoder->instruction_count(); \
 	EXECUTE_INSTR();
+#define CHECK_SEGMENT_END()      \
+	if (pc == current_end) {     \
+		counter -= 1;            \
+		goto check_jump;         \
+	}
 #define PERFORM_BRANCH(offset)           \
 	if (LA_LIKELY(counter < max_counter)) { \
 		NEXT_BLOCK_UNCHECKED(offset);    \
@@ -42,6 +47,8 @@ namespace loongarch
 		#include "threaded_bytecode_array.hpp"
 
 		DecodedExecuteSegment* exec = this->m_exec;
+		ExecutingSegment executing { memory() };
+		executing.set(exec);
 		address_t current_begin = exec->exec_begin();
 		address_t current_end   = exec->exec_end();
 
@@ -87,10 +94,10 @@ INSTRUCTION(LA64_BC_SYSCALL, la64_syscall)
 	// Restore counters
 	max_counter = MACHINE().max_instructions();
 
-	if (LA_UNLIKELY(max_counter == 0 || pc != REGISTERS().pc))
+	if (LA_UNLIKELY(max_counter == 0 || pc != REGISTERS().pc || exec != m_exec))
 	{
 		pc = REGISTERS().pc + 4;
-		goto check_jump;
+		goto check_segment;
 	}
 	// Syscall completed normally
 	NEXT_BLOCK_UNCHECKED(4);
@@ -106,7 +113,7 @@ INSTRUCTION(LA64_BC_SLOWPATH, execute_slowpath)
 	max_counter = MACHINE().max_instructions();
 
 	pc = REGISTERS().pc + 4;
-	goto check_jump;
+	goto check_segment;
 }
 
 INSTRUCTION(LA64_BC_SYSCALLIMM, la64_syscall_imm)
@@ -121,7 +128,7 @@ INSTRUCTION(LA64_BC_SYSCALLIMM, la64_syscall_imm)
 
 	// Return immediately using REG_RA
 	pc = REG(REG_RA);
-	goto check_jump;
+	goto check_segment;
 }
 
 #ifdef LA_BINARY_TRANSLATION
@@ -145,7 +152,7 @@ INSTRUCTION(LA64_BC_TRANSLATOR, execute_translated_block)
 	pc = REGISTERS().pc;
 
 	// The translated block updated PC, so we need to check for new execute segment
-	goto check_jump;
+	goto check_segment;
 }
 #endif
 
@@ -176,6 +183,7 @@ new_execute_segment:
 			auto result = next_execute_segment(pc);
 			exec = result.exec;
 			pc = result.pc;
+			executing.set(exec);
 		}
 		current_begin = exec->exec_begin();
 		current_end   = exec->exec_end();
@@ -197,6 +205,14 @@ stop_execution:
 		}
 		return max_counter == 0;
 
+check_segment:
+		// Forget a segment that was evicted or replaced
+		if (LA_UNLIKELY(exec != m_exec)) {
+			current_begin = 0;
+			current_end   = 0;
+		}
+		// Fall through
+
 check_jump:
 		if constexpr (TRACE_DISPATCH) {
 			fprintf(stderr, "[check_jump] PC=0x%lx counter=%lu max=%lu\n",
diff --git a/lib/libloong/threaded_inaccurate_dispatch.cpp b/lib/libloong/threaded_inaccurate_dispatch.cpp
index 7341d8d..18638b2 100644
--- a/lib/libloong/threaded_inaccurate_dispatch.cpp
+++ b/lib/libloong/threaded_inaccurate_dispatch.cpp
@@ -23,6 +23,10 @@
 	decoder += len >> DecoderCache::SHIFT; \
 	pc += decoder->block_bytes; \
 	EXECUTE_INSTR();
+#define CHECK_SEGMENT_END()      \
+	if (pc == current_end) {     \
+		goto check_jump;         \
+	}
 #define PERFORM_BRANCH(offset)           \
 	NEXT_BLOCK_UNCHECKED(offset);
 
@@ -35,6 +39,8 @@ namespace loongarch
 		#include "threaded_bytecode_array.hpp"
 
 		DecodedExecuteSegment* exec = this->m_exec;
+		ExecutingSegment executing { memory() };
+		executing.set(exec);
 		address_t current_begin = exec->exec_begin();
 		address_t current_end   = exec->exec_end();
 
@@ -81,10 +87,10 @@ INSTRUCTION(LA64_BC_SYSCALL, la64_syscall)
 	// Restore counters
 	max_counter = MACHINE().max_instructions();
 
-	if (LA_UNLIKELY(max_counter == 0 || pc != REGISTERS().pc))
+	if (LA_UNLIKELY(max_counter == 0 || pc != REGISTERS().pc || exec != m_exec))
 	{
 		pc = REGISTERS().pc + 4;
-		goto check_jump;
+		goto check_segment;
 	}
 	// Syscall completed normally
 	NEXT_BLOCK_UNCHECKED(4);
@@ -99,7 +105,7 @@ INSTRUCTION(LA64_BC_SLOWPATH, execute_slowpath)
 	max_counter = MACHINE().max_instructions();
 
 	pc = REGISTERS().pc + 4;
-	goto check_jump;
+	goto check_segment;
 }
 
 INSTRUCTION(LA64_BC_SYSCALLIMM, la64_syscall_imm)
@@ -113,7 +119,7 @@ INSTRUCTION(LA64_BC_SYSCALLIMM, la64_syscall_imm)
 
 	// Return immediately using REG_RA
 	pc = REG(REG_RA);
-	goto check_jump;
+	goto check_segment;
 }
 
 #ifdef LA_BINARY_TRANSLATION
@@ -126,7 +132,7 @@ INSTRUCTION(LA64_BC_TRANSLATOR, execute_translated_block)
 	const bintr_block_returns result = handler(CPU(), 0, ~0ull, RECONSTRUCT_PC());
 	pc = REGISTERS().pc;
 	max_counter = result.max_ic;
-	goto check_jump;
+	goto check_segment;
 }
 #endif
 
@@ -158,6 +164,7 @@ new_execute_segment:
 			auto result = next_execute_segment(pc);
 			exec = result.exec;
 			pc = result.pc;
+			executing.set(exec);
 			if constexpr (TRACE_DISPATCH) {
 				printf("  [new_execute_segment] Got segment exec=%p, new PC=0x%lx\n",
 					(void*)exec, (unsigned long)pc);
@@ -189,6 +196,14 @@ stop_execution:
 		}
 		return;
 
+check_segment:
+		// Forget a segment that was evicted or replaced
+		if (LA_UNLIKELY(exec != m_exec)) {
+			current_begin = 0;
+			current_end   = 0;
+		}
+		// Fall through
+
 check_jump:
 		if (max_counter == 0)
 			goto stop_execution;
-- 
2.43.0


From 86570d036b74fd04fb1e56640a86308a75ea11a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:45 +0000
Subject: [PATCH 56/71] fix: system call handlers installed before the first
 machine are kept

---
 lib/libloong/machine.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/libloong/machine.cpp b/lib/libloong/machine.cpp
index 390c1c5..da4f60c 100644
--- a/lib/libloong/machine.cpp
+++ b/lib/libloong/machine.cpp
@@ -17,11 +17,16 @@ namespace loongarch
 		// Initialize all system call handlers to a throwing stub on first creation (thread-safe)
 		static std::once_flag init_flag;
 		std::call_once(init_flag, []() {
-			m_unknown_syscall_handler = [](Machine& m, int sysnum) {
-				throw MachineException(UNIMPLEMENTED_SYSCALL,
-					"Unimplemented system call", sysnum);
-			};
+			// Handlers that are already installed are kept
+			if (m_unknown_syscall_handler == nullptr) {
+				m_unknown_syscall_handler = [](Machine& m, int sysnum) {
+					throw MachineException(UNIMPLEMENTED_SYSCALL,
+						"Unimplemented system call", sysnum);
+				};
+			}
 			for (auto& handler : m_syscall_handlers) {
+				if (handler != nullptr)
+					continue;
 				handler = [](Machine& m) {
 					const int sysnum = static_cast<int>(m.cpu.reg(REG_A7));
 					m_unknown_syscall_handler(m, sysnum);
-- 
2.43.0


From 76969ca5a4000b348e81c85b55bd42c8c4d05777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:45 +0000
Subject: [PATCH 57/71] fix: resetting a custom arena clears that arena only

---
 lib/libloong/memory.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index 0708b37..67e2ded 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -455,10 +455,10 @@ void Memory::reset()
 {
 	if (m_arena) {
 #ifdef MADV_DONTNEED
-		madvise(m_arena, m_arena_size, MADV_DONTNEED);
-#else
-		std::memset(m_arena, 0, m_arena_size);
+		// A custom arena may share its pages with other host data
+		if (m_arena_is_custom || madvise(m_arena, m_arena_size, MADV_DONTNEED) != 0)
 #endif
+			std::memset(m_arena, 0, m_arena_size);
 	}
 	evict_execute_segments();
 }
-- 
2.43.0


From 7b59802c76faadca4eaec10fddc14572f34d527c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:54 +0000
Subject: [PATCH 58/71] fix: disassembly shows the register names and sizes the
 GNU disassembler does

---
 lib/libloong/la_instr_printers.hpp | 128 +++++++++++++++--------------
 1 file changed, 66 insertions(+), 62 deletions(-)

diff --git a/lib/libloong/la_instr_printers.hpp b/lib/libloong/la_instr_printers.hpp
index 37948db..e4a99fa 100644
--- a/lib/libloong/la_instr_printers.hpp
+++ b/lib/libloong/la_instr_printers.hpp
@@ -490,23 +490,23 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 	}
 
 	static int FLDX_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) LA_COLD_PATH() {
-		return snprintf(buf, len, "fldx.d $fa%u, %s, %s",
-			instr.r3.rd, reg_name(instr.r3.rj), reg_name(instr.r3.rk));
+		return snprintf(buf, len, "fldx.d %s, %s, %s",
+			flreg_name(instr.r3.rd), reg_name(instr.r3.rj), reg_name(instr.r3.rk));
 	}
 
 	static int FLDX_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) LA_COLD_PATH() {
-		return snprintf(buf, len, "fldx.s $fa%u, %s, %s",
-			instr.r3.rd, reg_name(instr.r3.rj), reg_name(instr.r3.rk));
+		return snprintf(buf, len, "fldx.s %s, %s, %s",
+			flreg_name(instr.r3.rd), reg_name(instr.r3.rj), reg_name(instr.r3.rk));
 	}
 
 	static int FSTX_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) LA_COLD_PATH() {
-		return snprintf(buf, len, "fstx.d $fa%u, %s, %s",
-			instr.r3.rd, reg_name(instr.r3.rj), reg_name(instr.r3.rk));
+		return snprintf(buf, len, "fstx.d %s, %s, %s",
+			flreg_name(instr.r3.rd), reg_name(instr.r3.rj), reg_name(instr.r3.rk));
 	}
 
 	static int FSTX_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) LA_COLD_PATH() {
-		return snprintf(buf, len, "fstx.s $fa%u, %s, %s",
-			instr.r3.rd, reg_name(instr.r3.rj), reg_name(instr.r3.rk));
+		return snprintf(buf, len, "fstx.s %s, %s, %s",
+			flreg_name(instr.r3.rd), reg_name(instr.r3.rj), reg_name(instr.r3.rk));
 	}
 
 	static int VLDX(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) LA_COLD_PATH() {
@@ -1002,25 +1002,25 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 	static int MOVFR2GR_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t rd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "movfr2gr.s %s, $fa%u", reg_name(rd), fj);
+		return snprintf(buf, len, "movfr2gr.s %s, %s", reg_name(rd), flreg_name(fj));
 	}
 
 	static int MOVFR2GR_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t rd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "movfr2gr.d %s, $fa%u", reg_name(rd), fj);
+		return snprintf(buf, len, "movfr2gr.d %s, %s", reg_name(rd), flreg_name(fj));
 	}
 
 	static int MOVGR2FR_W(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t rj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "movgr2fr.w $fa%u, %s", fd, reg_name(rj));
+		return snprintf(buf, len, "movgr2fr.w %s, %s", flreg_name(fd), reg_name(rj));
 	}
 
 	static int MOVGR2FR_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t rj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "movgr2fr.d $fa%u, %s", fd, reg_name(rj));
+		return snprintf(buf, len, "movgr2fr.d %s, %s", flreg_name(fd), reg_name(rj));
 	}
 
 	static int MOVFCSR2GR(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1032,13 +1032,13 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 	static int MOVFR2CF(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t cd = instr.whole & 0x7;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "movfr2cf $fcc%u, $fa%u", cd, fj);
+		return snprintf(buf, len, "movfr2cf $fcc%u, %s", cd, flreg_name(fj));
 	}
 
 	static int MOVCF2FR(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t cj = (instr.whole >> 5) & 0x7;
-		return snprintf(buf, len, "movcf2fr $fa%u, $fcc%u", fd, cj);
+		return snprintf(buf, len, "movcf2fr %s, $fcc%u", flreg_name(fd), cj);
 	}
 
 	static int MOVGR2CF(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1068,7 +1068,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fk = (instr.whole >> 10) & 0x1F;
 		const uint32_t cond = (instr.whole >> 15) & 0x1F;
 		const char* mnemonic = cond_names(cond);
-		return snprintf(buf, len, "fcmp.%s.s $fcc%u, $fa%u, $fa%u", mnemonic, cd, fj, fk);
+		return snprintf(buf, len, "fcmp.%s.s $fcc%u, %s, %s", mnemonic, cd, flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FCMP_COND_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1077,7 +1077,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fk = (instr.whole >> 10) & 0x1F;
 		const uint32_t cond = (instr.whole >> 15) & 0x1F;
 		const char* mnemonic = cond_names(cond);
-		return snprintf(buf, len, "fcmp.%s.d $fcc%u, $fa%u, $fa%u", mnemonic, cd, fj, fk);
+		return snprintf(buf, len, "fcmp.%s.d $fcc%u, %s, %s", mnemonic, cd, flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FSEL(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1085,37 +1085,37 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
 		uint32_t fk = (instr.whole >> 10) & 0x1F;
 		uint32_t ca = (instr.whole >> 15) & 0x7;
-		return snprintf(buf, len, "fsel $fa%u, $fa%u, $fa%u, $fcc%u", fd, fj, fk, ca);
+		return snprintf(buf, len, "fsel %s, %s, %s, $fcc%u", flreg_name(fd), flreg_name(fj), flreg_name(fk), ca);
 	}
 
 	static int FABS_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "fabs.d $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "fabs.d %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FABS_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "fabs.s $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "fabs.s %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FNEG_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "fneg.d $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "fneg.d %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FMOV_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "fmov.d $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "fmov.d %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FMOV_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "fmov.s $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "fmov.s %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FCLASS(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1124,151 +1124,151 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
 		// Extract size from opcode: bit[10] (0=d, 1=s)
 		uint32_t size_idx = (instr.whole >> 10) & 0x1;
-		return snprintf(buf, len, "fclass.%c $fa%u, $fa%u", sizes[size_idx], fd, fj);
+		return snprintf(buf, len, "fclass.%c %s, %s", sizes[size_idx], flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FFINT_D_L(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "ffint.d.l $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "ffint.d.l %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FFINT_D_W(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "ffint.d.w $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "ffint.d.w %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FFINT_S_W(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "ffint.s.w $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "ffint.s.w %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FFINT_S_L(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "ffint.s.l $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "ffint.s.l %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FCVT_S_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "fcvt.s.d $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "fcvt.s.d %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FCVT_D_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "fcvt.d.s $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "fcvt.d.s %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FTINTRZ_W_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "ftintrz.w.s $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "ftintrz.w.s %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FTINTRZ_W_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "ftintrz.w.d $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "ftintrz.w.d %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FTINTRZ_L_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "ftintrz.l.s $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "ftintrz.l.s %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FTINTRZ_L_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "ftintrz.l.d $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "ftintrz.l.d %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FADD_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fadd.d $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fadd.d %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FADD_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fadd.s $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fadd.s %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FMUL_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fmul.d $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fmul.d %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FMUL_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fmul.s $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fmul.s %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FSUB_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fsub.d $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fsub.d %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FSUB_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fsub.s $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fsub.s %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FDIV_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fdiv.d $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fdiv.d %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FDIV_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fdiv.s $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fdiv.s %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FMAX_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fmax.s $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fmax.s %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FMIN_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fmin.s $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fmin.s %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FMAX_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fmax.d $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fmax.d %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FMIN_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fmin.d $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fmin.d %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FMSUB_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1276,7 +1276,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = instr.r4.rj;
 		uint32_t fk = instr.r4.rk;
 		uint32_t fa = instr.r4.ra;
-		return snprintf(buf, len, "fmsub.d $fa%u, $fa%u, $fa%u, $fa%u", fd, fj, fk, fa);
+		return snprintf(buf, len, "fmsub.d %s, %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk), flreg_name(fa));
 	}
 
 	static int FMADD_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1284,7 +1284,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = instr.r4.rj;
 		uint32_t fk = instr.r4.rk;
 		uint32_t fa = instr.r4.ra;
-		return snprintf(buf, len, "fmadd.d $fa%u, $fa%u, $fa%u, $fa%u", fd, fj, fk, fa);
+		return snprintf(buf, len, "fmadd.d %s, %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk), flreg_name(fa));
 	}
 
 	static int FMADD_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1292,7 +1292,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = instr.r4.rj;
 		uint32_t fk = instr.r4.rk;
 		uint32_t fa = instr.r4.ra;
-		return snprintf(buf, len, "fmadd.s $fa%u, $fa%u, $fa%u, $fa%u", fd, fj, fk, fa);
+		return snprintf(buf, len, "fmadd.s %s, %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk), flreg_name(fa));
 	}
 
 	static int FMSUB_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1300,7 +1300,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = instr.r4.rj;
 		uint32_t fk = instr.r4.rk;
 		uint32_t fa = instr.r4.ra;
-		return snprintf(buf, len, "fmsub.s $fa%u, $fa%u, $fa%u, $fa%u", fd, fj, fk, fa);
+		return snprintf(buf, len, "fmsub.s %s, %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk), flreg_name(fa));
 	}
 
 	static int FNMADD_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1308,7 +1308,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = instr.r4.rj;
 		uint32_t fk = instr.r4.rk;
 		uint32_t fa = instr.r4.ra;
-		return snprintf(buf, len, "fnmadd.s $fa%u, $fa%u, $fa%u, $fa%u", fd, fj, fk, fa);
+		return snprintf(buf, len, "fnmadd.s %s, %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk), flreg_name(fa));
 	}
 
 	static int FNMADD_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1316,7 +1316,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = instr.r4.rj;
 		uint32_t fk = instr.r4.rk;
 		uint32_t fa = instr.r4.ra;
-		return snprintf(buf, len, "fnmadd.d $fa%u, $fa%u, $fa%u, $fa%u", fd, fj, fk, fa);
+		return snprintf(buf, len, "fnmadd.d %s, %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk), flreg_name(fa));
 	}
 
 	static int FNMSUB_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1324,7 +1324,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = instr.r4.rj;
 		uint32_t fk = instr.r4.rk;
 		uint32_t fa = instr.r4.ra;
-		return snprintf(buf, len, "fnmsub.s $fa%u, $fa%u, $fa%u, $fa%u", fd, fj, fk, fa);
+		return snprintf(buf, len, "fnmsub.s %s, %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk), flreg_name(fa));
 	}
 
 	static int FNMSUB_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1332,7 +1332,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = instr.r4.rj;
 		uint32_t fk = instr.r4.rk;
 		uint32_t fa = instr.r4.ra;
-		return snprintf(buf, len, "fnmsub.d $fa%u, $fa%u, $fa%u, $fa%u", fd, fj, fk, fa);
+		return snprintf(buf, len, "fnmsub.d %s, %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk), flreg_name(fa));
 	}
 
 	static int VFRSTPI_B(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1368,17 +1368,21 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t rd = instr.whole & 0x1F;
 		uint32_t vj = (instr.whole >> 5) & 0x1F;
 		uint32_t top16 = (instr.whole >> 16) & 0xFFFF;
-		uint32_t subop = (instr.whole >> 12) & 0xF;
+		uint32_t subop = (instr.whole >> 10) & 0x3F;
 
-		// Determine size suffix and immediate width
+		// The element size is a prefix code in front of the immediate
 		const char* size_suffix;
 		uint32_t imm_mask;
-		switch (subop) {
-			case 0x8: size_suffix = (top16 == 0x72EF) ? ".b" : ".bu"; imm_mask = 0xF; break;
-			case 0xC: size_suffix = (top16 == 0x72EF) ? ".h" : ".hu"; imm_mask = 0x7; break;
-			case 0xE: size_suffix = (top16 == 0x72EF) ? ".w" : ".wu"; imm_mask = 0x3; break;
-			case 0xF: size_suffix = (top16 == 0x72EF) ? ".d" : ".du"; imm_mask = 0x1; break;
-			default: size_suffix = ".?"; imm_mask = 0xF; break;
+		if ((subop & 0x30) == 0x20) {
+			size_suffix = (top16 == 0x72EF) ? ".b" : ".bu"; imm_mask = 0xF;
+		} else if ((subop & 0x38) == 0x30) {
+			size_suffix = (top16 == 0x72EF) ? ".h" : ".hu"; imm_mask = 0x7;
+		} else if ((subop & 0x3C) == 0x38) {
+			size_suffix = (top16 == 0x72EF) ? ".w" : ".wu"; imm_mask = 0x3;
+		} else if ((subop & 0x3E) == 0x3C) {
+			size_suffix = (top16 == 0x72EF) ? ".d" : ".du"; imm_mask = 0x1;
+		} else {
+			size_suffix = ".?"; imm_mask = 0xF;
 		}
 
 		uint32_t imm = (instr.whole >> 10) & imm_mask;
@@ -1894,7 +1898,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
-		return snprintf(buf, len, "xvreplve.d $xr%u, $xr%u, $r%u", xd, xk, xj);
+		return snprintf(buf, len, "xvreplve.d $xr%u, $xr%u, %s", xd, xj, reg_name(xk));
 	}
 
 	static int XVFMADD_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
-- 
2.43.0


From 8f732741b49c8ee28896c77fb5808973e9c59524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:54 +0000
Subject: [PATCH 59/71] fix: backtraces with long symbol names read beyond a
 buffer, C names were demangled as types

---
 lib/libloong/debug.cpp             |  4 ++++
 lib/libloong/machine_backtrace.cpp | 36 +++++++++++-------------------
 2 files changed, 17 insertions(+), 23 deletions(-)

diff --git a/lib/libloong/debug.cpp b/lib/libloong/debug.cpp
index cf38004..e2d7964 100644
--- a/lib/libloong/debug.cpp
+++ b/lib/libloong/debug.cpp
@@ -1,5 +1,6 @@
 #include "debug.hpp"
 #include <cstdio>
+#include <cstring>
 #include <cxxabi.h>
 #include <memory>
 #include <string>
@@ -253,6 +254,9 @@ namespace loongarch
 
 	std::string DebugMachine::demangle(const char* mangled)
 	{
+		// Other names may still demangle, but as types
+		if (std::strncmp(mangled, "_Z", 2) != 0)
+			return std::string(mangled);
 		int status;
 		std::unique_ptr<char, void(*)(void*)> demangled(
 			abi::__cxa_demangle(mangled, nullptr, nullptr, &status),
diff --git a/lib/libloong/machine_backtrace.cpp b/lib/libloong/machine_backtrace.cpp
index 2225c12..faf3638 100644
--- a/lib/libloong/machine_backtrace.cpp
+++ b/lib/libloong/machine_backtrace.cpp
@@ -15,8 +15,11 @@ std::string Machine::lookup_demangled_symbol(address_t addr, bool with_offset) c
 	}
 	std::string result;
 #ifdef __linux__
-	int status = 0;
-	char* demangled = abi::__cxa_demangle(symbol->name.c_str(), nullptr, nullptr, &status);
+	int status = -1;
+	char* demangled = nullptr;
+	// Other names may still demangle, but as types
+	if (symbol->name.compare(0, 2, "_Z") == 0)
+		demangled = abi::__cxa_demangle(symbol->name.c_str(), nullptr, nullptr, &status);
 	if (status == 0 && demangled) {
 		result = demangled;
 		std::free(demangled);
@@ -45,18 +48,14 @@ std::string Machine::backtrace(address_t initial) const
 	if (initial == 0) {
 		initial = cpu.pc();
 	}
-	char buffer[4096];
-	int n = snprintf(buffer, sizeof(buffer),
-		"#-: 0x%016lx %s\n",
-		(unsigned long)initial,
-		lookup_demangled_symbol(initial).c_str());
-
+	// Symbol names have no length limit
 	std::string result;
-	if (n > 0) {
-		result.append(buffer, static_cast<size_t>(n));
-	} else {
-		return result;
-	}
+	const auto append_frame = [&] (const std::string& number, address_t addr) {
+		char buffer[64];
+		snprintf(buffer, sizeof(buffer), "#%s: 0x%016lx ", number.c_str(), (unsigned long)addr);
+		result += buffer + lookup_demangled_symbol(addr) + "\n";
+	};
+	append_frame("-", initial);
 
 	/// XXX: If the binary has unwinding information, we could use that here
 	/// to do a more reliable backtrace. For now, we will just read the return
@@ -65,16 +64,7 @@ std::string Machine::backtrace(address_t initial) const
 	address_t ra = cpu.reg(REG_RA);
 	size_t depth = 0;
 	while (ra != 0 && depth < 64) {
-		int n = snprintf(buffer, sizeof(buffer),
-			"#%zu: 0x%016lx %s\n",
-			depth,
-			(unsigned long)ra,
-			lookup_demangled_symbol(ra).c_str());
-		if (n > 0) {
-			result.append(buffer, static_cast<size_t>(n));
-		} else {
-			break;
-		}
+		append_frame(std::to_string(depth), ra);
 		// Read next return address from stack
 		try {
 			ra = memory.template read<address_t>(sp);
-- 
2.43.0


From 97b2bb9a6acc9085fd4cf1e2cf674609cef883b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:54 +0000
Subject: [PATCH 60/71] fix: symbols that end at the top of the address space
 are found

---
 lib/libloong/memory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index 67e2ded..1c71402 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -478,7 +478,7 @@ const Symbol* Memory::lookup_symbol(address_t addr) const
 	const Symbol* best_match = nullptr;
 	for (const auto& sym : m_symbols) {
 		// Check if address is within symbol range
-		if (addr >= sym.address && addr < sym.address + sym.size) {
+		if (addr >= sym.address && addr - sym.address < sym.size) {
 			return &sym;
 		}
 		// Also track the closest symbol before this address (for functions with unknown size)
-- 
2.43.0


From 2770de844ff4cc9d8a6805f625f8fd2dfc6b46be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:51 +0000
Subject: [PATCH 61/71] fix: guest strings with short text on the heap are
 understood

A std::string that once had a longer text in it keeps short texts on the
heap. They were read from the local buffer, and leaked when replaced.
A string that can't be allocated or that is assigned a part of itself is
left alone until the new text is in place.
---
 lib/libloong/guest_datatypes.hpp | 60 ++++++++++++++++++++++++--------
 lib/libloong/machine_vmcall.hpp  |  2 +-
 2 files changed, 47 insertions(+), 15 deletions(-)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index d246e99..281e92d 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -1,5 +1,7 @@
 #pragma once
 #include "native/heap.hpp"
+#include <cstring>
+#include <new>
 #include <stdexcept>
 #include <string>
 #include <string_view>
@@ -37,6 +39,17 @@ struct has_fix_addresses : std::false_type {};
 template <typename T>
 struct has_fix_addresses<T, std::void_t<decltype(std::declval<T>().fix_addresses(std::declval<Machine&>(), std::declval<address_t>()))>> : std::true_type {};
 
+// Allocate guest heap memory, or throw when there is none
+inline address_t guest_heap_alloc(Machine& machine, std::size_t count, std::size_t size = 1)
+{
+	if (size != 0 && count > SIZE_MAX / size)
+		throw std::bad_alloc();
+	const address_t addr = machine.arena().malloc(count * size);
+	if (addr == 0)
+		throw std::bad_alloc();
+	return addr;
+}
+
 // View into libstdc++'s std::string
 struct GuestStdString {
 	static constexpr std::size_t SSO = 15;
@@ -65,9 +78,20 @@ struct GuestStdString {
 	bool empty() const noexcept { return len == 0; }
 	size_t size() const noexcept { return len; }
 
+	// A guest that has had a longer string in it keeps short strings on the heap as well
+	bool is_local(const Machine& machine) const
+	{
+		if (this->size() > SSO)
+			return false;
+		const auto self = uintptr_t(this->data) - uintptr_t(machine.memory.arena_ptr());
+		if (this->ptr == self || !machine.has_arena())
+			return true;
+		return const_cast<Machine&>(machine).arena().size(this->ptr) == 0;
+	}
+
 	std::string to_string(const Machine& machine, std::size_t max_len = 16UL << 20) const
 	{
-		if (this->size() <= SSO)
+		if (this->is_local(machine))
 			return std::string(data, size());
 		else if (this->size() > max_len)
 			throw std::runtime_error("Guest std::string too large (size > 16MB)");
@@ -79,7 +103,7 @@ struct GuestStdString {
 
 	std::string_view to_view(const Machine& machine, std::size_t max_len = 16UL << 20) const
 	{
-		if (this->size() <= SSO)
+		if (this->is_local(machine))
 			return std::string_view(data, size());
 		else if (this->size() > max_len)
 			throw std::runtime_error("Guest std::string too large (size > 16MB)");
@@ -89,31 +113,38 @@ struct GuestStdString {
 
 	void set_string(Machine& machine, address_t self, const void* str, std::size_t len, bool use_memarray = true)
 	{
-		this->free(machine);
-
+		// The new value may be (part of) the old one, which is
+		// also kept when there is no room for the new one
 		if (len <= SSO)
 		{
+			char local[SSO + 1] = {};
+			if (len > 0)
+				std::memcpy(local, str, len);
+			this->free(machine);
+
 			this->ptr = self + offsetof(GuestStdString, data);
 			this->len = len;
-			std::memcpy(this->data, str, len);
-			this->data[len] = '\0';
+			std::memcpy(this->data, local, sizeof(local));
 		}
 		else
 		{
-			this->ptr = machine.arena().malloc(len+1);
-			this->len = len;
-			this->capacity = len;
+			const address_t addr = guest_heap_alloc(machine, len + 1);
 			if (use_memarray)
 			{
-				char* dst = machine.memory.template writable_memarray<char>(this->ptr, len + 1);
+				char* dst = machine.memory.template writable_memarray<char>(addr, len + 1);
 				std::memcpy(dst, str, len);
 				dst[len] = '\0';
 			}
 			else
 			{
-				machine.memory.copy_to_guest(this->ptr, str, len);
-				machine.memory.template write<uint8_t>(this->ptr + len, 0);
+				machine.memory.copy_to_guest(addr, str, len);
+				machine.memory.template write<uint8_t>(addr + len, 0);
 			}
+			this->free(machine);
+
+			this->ptr = addr;
+			this->len = len;
+			this->capacity = len;
 		}
 	}
 
@@ -131,12 +162,13 @@ struct GuestStdString {
 
 	void fix_addresses(Machine& machine, address_t self)
 	{
-		this->move(self);
+		if (this->is_local(machine))
+			this->move(self);
 	}
 
 	void free(Machine& machine)
 	{
-		if (size() > SSO) {
+		if (!this->is_local(machine)) {
 			machine.arena().free(ptr);
 		}
 		this->ptr = 0;
diff --git a/lib/libloong/machine_vmcall.hpp b/lib/libloong/machine_vmcall.hpp
index a7b391b..a36b7d7 100644
--- a/lib/libloong/machine_vmcall.hpp
+++ b/lib/libloong/machine_vmcall.hpp
@@ -67,7 +67,7 @@ namespace loongarch
 			}
 			else if constexpr (std::is_same_v<T, GuestStdString>) {
 				// GuestStdString: Adjust SSO pointer and push onto stack
-				args.move(sp - sizeof(T)); // SSO-adjustment
+				args.fix_addresses(machine, sp - sizeof(T)); // SSO-adjustment
 				push_int(machine.stack_push(sp, &args, sizeof(T)));
 			}
 			else if constexpr (is_scoped_guest_object<T>::value) {
-- 
2.43.0


From c50d623012c1f05941ddec734ed64488a007ade0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:06 +0000
Subject: [PATCH 62/71] fix: guest Rust strings and vectors own their elements

The elements of a vector of strings were never freed, dangling pointers of
empty ones were, and running out of guest heap was not noticed.
---
 lib/libloong/guest_datatypes.hpp | 99 ++++++++++++++++++++------------
 1 file changed, 62 insertions(+), 37 deletions(-)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index 281e92d..e305a14 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -217,23 +217,25 @@ struct GuestRustString {
 
 	void set_string(Machine& machine, const void* str, std::size_t length, bool use_memarray = true)
 	{
-		this->free(machine);
-
-		if (length > 0)
+		if (length == 0) {
+			this->free(machine);
+			return;
+		}
+		const address_t addr = guest_heap_alloc(machine, length);
+		if (use_memarray)
 		{
-			this->ptr = machine.arena().malloc(length);
-			this->capacity = length;
-			this->len = length;
-			if (use_memarray)
-			{
-				char* dst = machine.memory.template writable_memarray<char>(this->ptr, length);
-				std::memcpy(dst, str, length);
-			}
-			else
-			{
-				machine.memory.copy_to_guest(this->ptr, str, length);
-			}
+			char* dst = machine.memory.template writable_memarray<char>(addr, length);
+			std::memcpy(dst, str, length);
+		}
+		else
+		{
+			machine.memory.copy_to_guest(addr, str, length);
 		}
+		this->free(machine);
+
+		this->ptr = addr;
+		this->capacity = length;
+		this->len = length;
 	}
 
 	void set_string(Machine& machine, std::string_view str)
@@ -245,7 +247,8 @@ struct GuestRustString {
 
 	void free(Machine& machine)
 	{
-		if (ptr != 0) {
+		// Without capacity the pointer is dangling
+		if (ptr != 0 && capacity != 0) {
 			machine.arena().free(ptr);
 		}
 		this->ptr = 0;
@@ -683,13 +686,11 @@ struct GuestRustVector {
 		: len(0), ptr(0), capacity(0)
 	{
 		if (elements > 0) {
-			this->ptr = machine.arena().malloc(elements * sizeof(T));
-			this->capacity = elements;
-			this->len = elements;
-			T* array = machine.memory.template writable_memarray<T>(this->ptr, elements);
+			T* array = this->alloc(machine, elements);
 			for (std::size_t i = 0; i < elements; i++) {
 				new (&array[i]) T();
 			}
+			this->len = elements;
 		}
 	}
 
@@ -701,12 +702,15 @@ struct GuestRustVector {
 			return;
 
 		// Specialization for std::vector<std::string>
-		this->ptr = machine.arena().malloc(vec.size() * sizeof(T));
-		this->capacity = vec.size();
-		this->len = vec.size();
-		T* array = machine.memory.template writable_memarray<T>(this->ptr, vec.size());
-		for (std::size_t i = 0; i < vec.size(); i++) {
-			new (&array[i]) T(machine, vec[i]);
+		T* array = this->alloc(machine, vec.size());
+		try {
+			for (std::size_t i = 0; i < vec.size(); i++) {
+				new (&array[i]) T(machine, vec[i]);
+				this->len = i + 1;
+			}
+		} catch (...) {
+			this->free(machine);
+			throw;
 		}
 	}
 
@@ -762,26 +766,47 @@ struct GuestRustVector {
 
 	void assign(Machine& machine, const std::vector<T>& vec)
 	{
-		this->free(machine);
-		if (vec.empty())
+		if (vec.empty()) {
+			this->free(machine);
 			return;
+		}
 
-		this->ptr = machine.arena().malloc(vec.size() * sizeof(T));
-		this->capacity = vec.size();
-		this->len = vec.size();
-		T* array = machine.memory.template writable_memarray<T>(this->ptr, vec.size());
-		std::copy(vec.begin(), vec.end(), array);
+		// The old vector is kept when there is no room for the new one
+		GuestRustVector<T> other;
+		std::copy(vec.begin(), vec.end(), other.alloc(machine, vec.size()));
+		other.len = vec.size();
+		try {
+			this->free(machine);
+		} catch (...) {
+			machine.arena().free(other.ptr);
+			throw;
+		}
+		*this = other;
 	}
 
 	void fix_addresses(Machine&, address_t) {} // No-op
 
 	void free(Machine& machine) {
-		if (this->ptr != 0) {
+		// Without capacity the pointer is dangling
+		if (this->ptr != 0 && this->capacity != 0) {
+			if constexpr (std::is_same_v<T, GuestRustString> || is_guest_rustvector<T>::value) {
+				const std::size_t count = this->len; // Elements can overlap with the vector itself
+				T* array = machine.memory.template writable_memarray<T>(this->ptr, count);
+				for (std::size_t i = 0; i < count; i++)
+					array[i].free(machine);
+			}
 			machine.arena().free(this->ptr);
-			this->ptr = 0;
-			this->capacity = 0;
-			this->len = 0;
 		}
+		this->ptr = 0;
+		this->capacity = 0;
+		this->len = 0;
+	}
+
+private:
+	T* alloc(Machine& machine, std::size_t elements) {
+		this->ptr = guest_heap_alloc(machine, elements, sizeof(T));
+		this->capacity = elements;
+		return machine.memory.template writable_memarray<T>(this->ptr, elements);
 	}
 };
 
-- 
2.43.0


From b0004e3b23445de6a08a67c37ed9c37ee10d742f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:24 +0000
Subject: [PATCH 63/71] fix: scoped guest objects release their memory once

Moving into an object leaked the block it had, a moved-from object was used
without being constructed, and a failing constructor leaked.
---
 lib/libloong/guest_datatypes.hpp | 83 +++++++++++++++++++++-----------
 1 file changed, 55 insertions(+), 28 deletions(-)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index e305a14..f8cb95b 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -577,25 +577,26 @@ struct ScopedArenaObject {
 		}
 		this->m_ptr = m_machine->memory.template writable_memarray<T>(this->m_addr, 1);
 
-		// Construct the object
-		if constexpr (std::is_same_v<T, GuestStdString> || std::is_same_v<T, GuestRustString>) {
-			new (m_ptr) T(machine, std::forward<Args>(args)...);
-		} else if constexpr (is_guest_stdvector<T>::value || is_guest_rustvector<T>::value) {
-			new (m_ptr) T(machine, std::forward<Args>(args)...);
-		} else {
-			// Construct the object in place (as if trivially constructible)
-			new (m_ptr) T{std::forward<Args>(args)...};
-		}
+		try {
+			// Construct the object
+			if constexpr (std::is_same_v<T, GuestStdString> || std::is_same_v<T, GuestRustString>) {
+				new (m_ptr) T(machine, std::forward<Args>(args)...);
+			} else if constexpr (is_guest_stdvector<T>::value || is_guest_rustvector<T>::value) {
+				new (m_ptr) T(machine, std::forward<Args>(args)...);
+			} else {
+				// Construct the object in place (as if trivially constructible)
+				new (m_ptr) T{std::forward<Args>(args)...};
+			}
 
-		// Fix addresses if the type supports it
-		if constexpr (has_fix_addresses<T>::value) {
-			this->m_ptr->fix_addresses(machine, this->m_addr);
+			this->fix_object_addresses();
+		} catch (...) {
+			m_machine->arena().free(this->m_addr);
+			throw;
 		}
 	}
 
 	~ScopedArenaObject() {
-		this->free_standard_types();
-		m_machine->arena().free(this->m_addr);
+		this->free_object();
 	}
 
 	T& operator*() { return *m_ptr; }
@@ -606,18 +607,19 @@ struct ScopedArenaObject {
 	ScopedArenaObject& operator=(const ScopedArenaObject&) = delete;
 
 	ScopedArenaObject& operator=(const T& other) {
-		// It's not possible for m_addr to be 0 here, as it would have thrown in the constructor
-		this->free_standard_types();
-		this->allocate_if_null();
-		this->m_ptr = m_machine->memory.template writable_memarray<T>(this->m_addr, 1);
+		if (&other == this->m_ptr)
+			return *this;
+		if (!this->allocate_if_null())
+			this->free_standard_types();
 		new (m_ptr) T(other);
+		this->fix_object_addresses();
 		return *this;
 	}
 
 	// Special case for std::string
 	ScopedArenaObject& operator=(std::string_view other) {
 		static_assert(std::is_same_v<T, GuestStdString>, "ScopedArenaObject<T> must be a GuestStdString");
-		this->allocate_if_null();
+		this->create_if_null();
 		this->m_ptr->set_string(*m_machine, this->m_addr, other.data(), other.size());
 		return *this;
 	}
@@ -626,13 +628,15 @@ struct ScopedArenaObject {
 	template <typename U>
 	ScopedArenaObject& operator=(const std::vector<U>& other) {
 		static_assert(std::is_same_v<T, GuestStdVector<U>>, "ScopedArenaObject<T> must be a GuestStdVector<U>");
-		this->allocate_if_null();
+		this->create_if_null();
 		this->m_ptr->assign(*m_machine, other);
 		return *this;
 	}
 
 	ScopedArenaObject& operator=(ScopedArenaObject&& other) {
-		this->free_standard_types();
+		if (this == &other)
+			return *this;
+		this->free_object();
 		this->m_machine = other.m_machine;
 		this->m_addr = other.m_addr;
 		this->m_ptr = other.m_ptr;
@@ -642,14 +646,37 @@ struct ScopedArenaObject {
 	}
 
 private:
-	void allocate_if_null() {
-		if (this->m_addr == 0) {
-			this->m_addr = m_machine->arena().malloc(sizeof(T));
-			if (this->m_addr == 0) {
-				throw std::bad_alloc();
-			}
-			this->m_ptr = m_machine->memory.template writable_memarray<T>(this->m_addr, 1);
+	// Returns true when there is memory that has yet to be initialized
+	bool allocate_if_null() {
+		if (this->m_addr != 0)
+			return false;
+		this->m_addr = guest_heap_alloc(*m_machine, sizeof(T));
+		this->m_ptr = m_machine->memory.template writable_memarray<T>(this->m_addr, 1);
+		return true;
+	}
+
+	void create_if_null() {
+		if (this->allocate_if_null()) {
+			new (m_ptr) T();
+			this->fix_object_addresses();
+		}
+	}
+
+	// Fix addresses if the type supports it
+	void fix_object_addresses() {
+		if constexpr (has_fix_addresses<T>::value) {
+			this->m_ptr->fix_addresses(*this->m_machine, this->m_addr);
+		}
+	}
+
+	void free_object() noexcept {
+		try {
+			this->free_standard_types();
+		} catch (const std::exception&) {
+			// The guest has made the contents inconsistent, so they can't be freed
 		}
+		if (this->m_addr != 0)
+			m_machine->arena().free(this->m_addr);
 	}
 
 	void free_standard_types() {
-- 
2.43.0


From d6aec1c9c041d84e5604a26ceb4861b4d702becf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:24 +0000
Subject: [PATCH 64/71] fix: guest vectors keep their elements when memory is
 short

Allocation failures were not noticed, element addresses were left pointing
into the old storage, and assigning or appending own elements used freed
memory.
---
 lib/libloong/guest_datatypes.hpp | 168 +++++++++++++++++++------------
 1 file changed, 103 insertions(+), 65 deletions(-)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index f8cb95b..891b2e9 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -269,13 +269,7 @@ struct GuestStdVector {
 	GuestStdVector(Machine& machine, std::size_t elements)
 		: ptr_begin(0), ptr_end(0), ptr_capacity(0)
 	{
-		auto [array, self] = this->alloc(machine, elements);
-		(void)self;
-		for (std::size_t i = 0; i < elements; i++) {
-			new (&array[i]) T();
-		}
-		// Set new end only after all elements are constructed
-		this->ptr_end = this->ptr_begin + elements * sizeof(T);
+		this->resize(machine, elements);
 	}
 
 	GuestStdVector(Machine& machine, const std::vector<std::string>& vec)
@@ -286,14 +280,14 @@ struct GuestStdVector {
 			return;
 
 		// Specialization for std::vector<std::string>
-		auto [array, self] = this->alloc(machine, vec.size());
-		(void)self;
-		for (std::size_t i = 0; i < vec.size(); i++) {
-			T* str = new (&array[i]) T(machine, vec[i]);
-			str->move(this->ptr_begin + i * sizeof(T));
+		try {
+			this->reserve(machine, vec.size());
+			for (const auto& str : vec)
+				this->push_back(machine, std::string_view(str));
+		} catch (...) {
+			this->free(machine);
+			throw;
 		}
-		// Set new end only after all elements are constructed
-		this->ptr_end = this->ptr_begin + vec.size() * sizeof(T);
 	}
 
 	GuestStdVector(Machine& machine, const std::vector<T>& vec = {})
@@ -354,6 +348,7 @@ struct GuestStdVector {
 		T* array = machine.memory.template writable_memarray<T>(this->data(), size() + 1);
 		new (&array[size()]) T(std::move(value));
 		this->ptr_end += sizeof(T);
+		this->fix_elements(machine, size() - 1);
 	}
 
 	void push_back(Machine& machine, const T& value) {
@@ -362,6 +357,7 @@ struct GuestStdVector {
 		T* array = machine.memory.template writable_memarray<T>(this->data(), size() + 1);
 		new (&array[size()]) T(value);
 		this->ptr_end += sizeof(T);
+		this->fix_elements(machine, size() - 1);
 	}
 
 	// Specialization for std::string and std::string_view
@@ -379,13 +375,19 @@ struct GuestStdVector {
 	template <typename U>
 	void push_back(Machine& machine, const std::vector<U>& value) {
 		static_assert(is_guest_stdvector<T>::value, "GuestStdVector: T must be a GuestStdVector itself");
-		this->push_back(machine, GuestStdVector<U>(machine, value));
+		GuestStdVector<U> element(machine, value);
+		try {
+			this->push_back(machine, element);
+		} catch (...) {
+			element.free(machine);
+			throw;
+		}
 	}
 
 	void pop_back(Machine& machine) {
 		if (size() == 0)
 			throw std::out_of_range("Guest std::vector is empty");
-		this->free_element(machine, size() - 1);
+		this->free_elements(machine, size() - 1);
 		this->ptr_end -= sizeof(T);
 	}
 
@@ -396,11 +398,11 @@ struct GuestStdVector {
 		for (std::size_t i = 0; i < count; i++)
 			new (&array[size() + i]) T(values[i]);
 		this->ptr_end += count * sizeof(T);
+		this->fix_elements(machine, size() - count);
 	}
 
 	void clear(Machine& machine) {
-		for (std::size_t i = 0; i < size(); i++)
-			this->free_element(machine, i);
+		this->free_elements(machine, 0);
 		this->ptr_end = this->ptr_begin;
 	}
 
@@ -454,33 +456,41 @@ struct GuestStdVector {
 
 	void assign(Machine& machine, const std::vector<T>& vec)
 	{
-		auto [array, self] = alloc(machine, vec.size());
-		(void)self;
-		std::copy(vec.begin(), vec.end(), array);
-		this->ptr_end = this->ptr_begin + vec.size() * sizeof(T);
+		this->assign(machine, vec.data(), vec.size());
 	}
 
 	void assign(Machine& machine, const T* values, std::size_t count)
 	{
-		auto [array, self] = alloc(machine, count);
-		(void)self;
+		// The values may be in the old vector, which is also
+		// kept when there is no room for the new one
+		GuestStdVector<T> vec;
+		T* array = vec.alloc(machine, count);
 		std::copy(values, values + count, array);
-		this->ptr_end = this->ptr_begin + count * sizeof(T);
+		vec.ptr_end = vec.ptr_begin + count * sizeof(T);
+		try {
+			this->free(machine);
+		} catch (...) {
+			machine.arena().free(vec.ptr_begin);
+			throw;
+		}
+		*this = vec;
+		this->fix_elements(machine, 0);
 	}
 
 	void resize(Machine& machine, std::size_t new_size)
 	{
-		if (new_size < size()) {
-			for (std::size_t i = new_size; i < size(); i++)
-				this->free_element(machine, i);
+		const std::size_t old_size = this->size();
+		if (new_size < old_size) {
+			this->free_elements(machine, new_size);
 			this->ptr_end = this->ptr_begin + new_size * sizeof(T);
-		} else if (new_size > size()) {
+		} else if (new_size > old_size) {
 			if (new_size > capacity())
 				this->reserve(machine, new_size);
 			T* array = machine.memory.template writable_memarray<T>(this->data(), new_size);
-			for (std::size_t i = size(); i < new_size; i++)
+			for (std::size_t i = old_size; i < new_size; i++)
 				new (&array[i]) T();
 			this->ptr_end = this->ptr_begin + new_size * sizeof(T);
+			this->fix_elements(machine, old_size);
 		}
 	}
 
@@ -488,29 +498,33 @@ struct GuestStdVector {
 	{
 		if (elements <= capacity())
 			return;
+		if (size_bytes() > capacity_bytes())
+			throw std::runtime_error("Guest std::vector has size > capacity");
 
-		GuestStdVector<T> old_vec(std::move(*this));
-		// Allocate new memory
-		auto [array, self] = this->alloc(machine, elements);
-		(void)self;
-		if (!old_vec.empty()) {
-			std::copy(old_vec.as_array(machine), old_vec.as_array(machine) + old_vec.size(), array);
-			// Free the old vector manually (as we don't want to call the destructor(s))
-			machine.arena().free(old_vec.ptr_begin);
-		}
-		this->ptr_end = this->ptr_begin + old_vec.size() * sizeof(T);
-		// Adjust SSO if the vector contains std::string
-		if constexpr (std::is_same_v<T, GuestStdString>) {
-			T* array = machine.memory.template writable_memarray<T>(this->data(), size());
-			for (std::size_t i = 0; i < size(); i++)
-				array[i].move(this->ptr_begin + i * sizeof(T));
+		// Allocate new memory, and leave the old vector alone if there is none
+		GuestStdVector<T> vec;
+		T* array = vec.alloc(machine, elements);
+		if (!this->empty()) {
+			try {
+				const T* old_array = machine.memory.template memarray<T>(data(), size());
+				std::copy(old_array, old_array + size(), array);
+			} catch (...) {
+				machine.arena().free(vec.ptr_begin);
+				throw;
+			}
 		}
+		vec.ptr_end = vec.ptr_begin + size() * sizeof(T);
+		// Free the old vector manually (as we don't want to call the destructor(s))
+		if (this->ptr_begin != 0)
+			machine.arena().free(this->ptr_begin);
+		*this = vec;
+		// Elements with pointers to themselves have moved
+		this->fix_elements(machine, 0);
 	}
 
 	void free(Machine& machine) {
 		if (this->ptr_begin != 0) {
-			for (std::size_t i = 0; i < size(); i++)
-				this->free_element(machine, i);
+			this->free_elements(machine, 0);
 			machine.arena().free(this->data());
 			this->ptr_begin = 0;
 			this->ptr_end = 0;
@@ -522,17 +536,21 @@ struct GuestStdVector {
 		(void)self; // Not used for vectors themselves
 		// Fix addresses in elements if they need it
 		if constexpr (std::is_same_v<T, GuestStdString>) {
-			if (this->size() > 0) {
-				T* array = machine.memory.template writable_memarray<T>(this->data(), this->size());
-				for (std::size_t i = 0; i < this->size(); i++) {
-					array[i].fix_addresses(machine, this->data() + i * sizeof(T));
+			const address_t begin = this->data();
+			const std::size_t count = this->size();
+			if (count > 0) {
+				T* array = machine.memory.template writable_memarray<T>(begin, count);
+				for (std::size_t i = 0; i < count; i++) {
+					array[i].fix_addresses(machine, begin + i * sizeof(T));
 				}
 			}
 		} else if constexpr (is_guest_stdvector<T>::value) {
-			if (this->size() > 0) {
-				T* array = machine.memory.template writable_memarray<T>(this->data(), this->size());
-				for (std::size_t i = 0; i < this->size(); i++) {
-					array[i].fix_addresses(machine, this->data() + i * sizeof(T));
+			const address_t begin = this->data();
+			const std::size_t count = this->size();
+			if (count > 0) {
+				T* array = machine.memory.template writable_memarray<T>(begin, count);
+				for (std::size_t i = 0; i < count; i++) {
+					array[i].fix_addresses(machine, begin + i * sizeof(T));
 				}
 			}
 		}
@@ -546,20 +564,40 @@ private:
 		this->reserve(machine, capacity() * 2 + 4);
 	}
 
-	std::tuple<T*, address_t> alloc(Machine& machine, std::size_t elements) {
-		this->free(machine);
-
-		this->ptr_begin = machine.arena().malloc(elements * sizeof(T));
+	T* alloc(Machine& machine, std::size_t elements) {
+		this->ptr_begin = guest_heap_alloc(machine, elements, sizeof(T));
 		this->ptr_end = this->ptr_begin;
 		this->ptr_capacity = this->ptr_begin + elements * sizeof(T);
-		return { machine.memory.template writable_memarray<T>(this->data(), elements), this->data() };
+		return machine.memory.template writable_memarray<T>(this->data(), elements);
+	}
+
+	// Elements from first to the end have new addresses
+	void fix_elements(Machine& machine, std::size_t first) {
+		if constexpr (has_fix_addresses<T>::value && !is_guest_stdvector<T>::value) {
+			const address_t begin = this->data();
+			const std::size_t last = size();
+			if (first >= last)
+				return;
+			T* array = machine.memory.template writable_memarray<T>(begin, last);
+			for (std::size_t i = first; i < last; i++)
+				array[i].fix_addresses(machine, begin + i * sizeof(T));
+		}
 	}
 
-	void free_element(Machine& machine, std::size_t index) {
-		if constexpr (std::is_same_v<T, GuestStdString> || is_guest_stdvector<T>::value) {
-			this->at(machine, index).free(machine);
-		} else {
-			this->at(machine, index).~T();
+	// Destroy the elements from first to the end
+	void free_elements(Machine& machine, std::size_t first) {
+		// The guest can make elements overlap with the vector itself
+		const std::size_t last = size();
+		if (first >= last)
+			return;
+		T* array = machine.memory.template writable_memarray<T>(this->data(), last);
+		if constexpr (std::is_same_v<T, GuestStdString> || is_guest_stdvector<T>::value
+			|| std::is_same_v<T, GuestRustString> || is_guest_rustvector<T>::value) {
+			for (std::size_t i = first; i < last; i++)
+				array[i].free(machine);
+		} else if constexpr (!std::is_trivially_destructible_v<T>) {
+			for (std::size_t i = first; i < last; i++)
+				array[i].~T();
 		}
 	}
 };
-- 
2.43.0


From 9d154d34387edc40c3f5cb0279ff8dbe6ea1ca00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:49 +0000
Subject: [PATCH 65/71] fix: masked builds lay out programs and custom arenas
 inside of the mask

---
 lib/libloong/elf_loader.cpp | 13 +++++++------
 lib/libloong/memory.cpp     |  2 +-
 lib/libloong/memory.hpp     |  4 ++++
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/lib/libloong/elf_loader.cpp b/lib/libloong/elf_loader.cpp
index 48694ad..832cf5f 100644
--- a/lib/libloong/elf_loader.cpp
+++ b/lib/libloong/elf_loader.cpp
@@ -104,6 +104,7 @@ void Memory::binary_loader(const MachineOptions& options)
 	}
 
 	// Find memory bounds
+	const address_t memory_max = this->usable_memory_max(options.memory_max);
 	address_t min_addr = ~address_t(0);
 	address_t max_addr = 0;
 	address_t first_writable = ~address_t(0);
@@ -114,7 +115,7 @@ void Memory::binary_loader(const MachineOptions& options)
 		if (phdr->type == Elf::PT_LOAD) {
 			address_t start = phdr->vaddr;
 			address_t end = phdr->vaddr + phdr->memsz;
-			if (end > options.memory_max || end < start || phdr->filesz > phdr->memsz) {
+			if (end > memory_max || end < start || phdr->filesz > phdr->memsz) {
 				throw MachineException(INVALID_PROGRAM, "ELF segment invalid", phdr->vaddr);
 			}
 			min_addr = std::min(min_addr, start);
@@ -159,17 +160,17 @@ void Memory::binary_loader(const MachineOptions& options)
 	this->m_mmap_start = page_align(this->m_stack_address);
 	this->m_mmap_address = this->m_mmap_start;
 
-	if (this->m_heap_address >= options.memory_max
-		|| options.brk_size > options.memory_max || options.stack_size > options.memory_max
-		|| this->m_mmap_address > options.memory_max) {
+	if (this->m_heap_address >= memory_max
+		|| options.brk_size > memory_max || options.stack_size > memory_max
+		|| this->m_mmap_address > memory_max) {
 		if (options.verbose_loader) {
 			fprintf(stderr, "Error: Not enough memory for stack and brk:\n");
 			fprintf(stderr, "  heap_begin: 0x%lx\n", (unsigned long)this->m_heap_address);
-			fprintf(stderr, "  memory_max: 0x%lx\n", (unsigned long)options.memory_max);
+			fprintf(stderr, "  memory_max: 0x%lx\n", (unsigned long)memory_max);
 		}
 		throw MachineException(OUT_OF_MEMORY,
 			"Not enough memory for stack and brk",
-			static_cast<uint64_t>(options.memory_max));
+			static_cast<uint64_t>(memory_max));
 	}
 
 	if (options.custom_arena_pointer != nullptr &&
diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index 1c71402..7127c94 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -123,7 +123,7 @@ void Memory::use_custom_arena(void* ptr, size_t size)
 	if (this->m_arena) free_arena();
 	this->m_arena = (uint8_t*)ptr;
 	this->m_arena_is_custom = true;
-	this->m_arena_size = size - LA_OVER_ALLOCATE_SIZE;
+	this->m_arena_size = usable_memory_max(size - LA_OVER_ALLOCATE_SIZE);
 	this->m_arena_end_sub_rodata = this->m_arena_size - this->m_rodata_start;
 	this->m_arena_end_sub_data = this->m_arena_size - this->m_data_start;
 }
diff --git a/lib/libloong/memory.hpp b/lib/libloong/memory.hpp
index 54219b2..80bbd8f 100644
--- a/lib/libloong/memory.hpp
+++ b/lib/libloong/memory.hpp
@@ -165,6 +165,10 @@ namespace loongarch
 		// Arena helpers
 		void allocate_arena(size_t size);
 		void use_custom_arena(void* ptr, size_t size);
+		// Guest accesses never reach beyond the mask
+		static constexpr size_t usable_memory_max(size_t size) noexcept {
+			return (LA_MASKED_MEMORY_BITS != 0 && size > LA_MASKED_MEMORY_SIZE) ? LA_MASKED_MEMORY_SIZE : size;
+		}
 		void free_arena();
 		static void free_arena_internal(uint8_t* arena, size_t size);
 		inline bool is_readable(address_t addr, size_t size = sizeof(address_t)) const noexcept {
-- 
2.43.0


From edc51346074c099af0a1a31e1817a518147bfcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:30 +0000
Subject: [PATCH 66/71] fix: debug runs and calls have their whole budget after
 earlier runs

---
 lib/libloong/debug.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/libloong/debug.cpp b/lib/libloong/debug.cpp
index e2d7964..e2852df 100644
--- a/lib/libloong/debug.cpp
+++ b/lib/libloong/debug.cpp
@@ -9,6 +9,8 @@ namespace loongarch
 {
 	void DebugMachine::simulate(uint64_t max_instructions)
 	{
+		// The budget is for this run, whatever has been executed before
+		this->machine.set_instruction_counter(0);
 		this->machine.set_max_instructions(max_instructions);
 		while (!this->machine.stopped() && !this->machine.instruction_limit_reached()) {
 			if (this->verbose_instructions)
-- 
2.43.0


From d7b8e1b6ee505b884c3b23acd3c1c9ab50d24838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:05 +0000
Subject: [PATCH 67/71] fix: debug calls pass more than eight arguments on the
 stack

---
 lib/libloong/debug.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/debug.cpp b/lib/libloong/debug.cpp
index e2852df..240cbec 100644
--- a/lib/libloong/debug.cpp
+++ b/lib/libloong/debug.cpp
@@ -180,11 +180,18 @@ namespace loongarch
 		this->machine.cpu.jump(func_addr);
 		// Push arguments onto stack
 		address_t sp = this->machine.memory.stack_address();
-		int reg = 0;
+		int reg = REG_A0;
+		// Arguments that no longer fit in registers are passed on the stack
+		std::vector<address_t> stack_args;
 		for (const auto& argument : arguments) {
 			address_t arg_addr = this->machine.stack_push(sp, argument.c_str(), argument.size() + 1);
-			this->machine.cpu.reg(REG_A0 + reg++) = arg_addr;
+			if (reg <= REG_A7)
+				this->machine.cpu.reg(reg++) = arg_addr;
+			else
+				stack_args.push_back(arg_addr);
 		}
+		if (!stack_args.empty())
+			this->machine.stack_push(sp, stack_args.data(), stack_args.size() * sizeof(address_t));
 		this->machine.cpu.reg(REG_SP) = sp;
 		// Simulate with debugging
 		simulate(max_instructions);
-- 
2.43.0


From d7c27dcb28af7b7256c29cd1e3eb08af5a8bae9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:55 +0000
Subject: [PATCH 68/71] fix: system call results of small unsigned and enum
 types reach the guest as their ABI says

---
 lib/libloong/machine_inline.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/libloong/machine_inline.hpp b/lib/libloong/machine_inline.hpp
index a09c5d3..7512ddb 100644
--- a/lib/libloong/machine_inline.hpp
+++ b/lib/libloong/machine_inline.hpp
@@ -40,11 +40,14 @@ namespace loongarch
 	template <typename T>
 	inline void Machine::set_result(const T& value)
 	{
-		if constexpr (std::is_integral_v<remove_cvref_t<T>>) {
-			if constexpr (sizeof(T) < sizeof(address_t) && !std::is_same_v<T, bool>)
-				// Sign-extend all arguments smaller than the word size
+		if constexpr (std::is_enum_v<remove_cvref_t<T>>) {
+			this->set_result(static_cast<std::underlying_type_t<T>>(value));
+		} else if constexpr (std::is_integral_v<remove_cvref_t<T>>) {
+			if constexpr (sizeof(T) == 4)
+				// The ABI sign-extends all 32-bit values, also unsigned ones
 				cpu.reg(REG_A0) = static_cast<address_t>(static_cast<std::make_signed_t<T>>(value));
 			else
+				// Smaller values are extended according to their type
 				cpu.reg(REG_A0) = static_cast<address_t>(value);
 		} else if constexpr (std::is_floating_point_v<remove_cvref_t<T>>) {
 			if constexpr (sizeof(T) == 4) {
-- 
2.43.0


From 1b451c9a6af6047219c79bba6f5770cdb98952f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:55 +0000
Subject: [PATCH 69/71] fix: laemu passes options after the program name to the
 program

---
 emulator/src/main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emulator/src/main.cpp b/emulator/src/main.cpp
index 01d7ce0..4f757d9 100644
--- a/emulator/src/main.cpp
+++ b/emulator/src/main.cpp
@@ -323,7 +323,8 @@ static EmulatorOptions parse_arguments(int argc, char* argv[])
 	};
 
 	int opt;
-	while ((opt = getopt_long(argc, argv, "hvstf:m:nTO:", long_options, nullptr)) != -1) {
+	// Stop at the program name: what follows are the arguments of the program
+	while ((opt = getopt_long(argc, argv, "+hvstf:m:nTO:", long_options, nullptr)) != -1) {
 		switch (opt) {
 		case 'h':
 			print_help(argv[0]);
-- 
2.43.0


From 80ac4b4dbeaae3e0abd151a71b73bc389097216a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:55 +0000
Subject: [PATCH 70/71] fix: laemu reports an arena that cannot be allocated
 instead of crashing

---
 emulator/src/main.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emulator/src/main.cpp b/emulator/src/main.cpp
index 4f757d9..b59c15f 100644
--- a/emulator/src/main.cpp
+++ b/emulator/src/main.cpp
@@ -136,6 +136,8 @@ static int run_program(const std::vector<uint8_t>& binary, const EmulatorOptions
 	void* arena_ptr = _aligned_malloc(custom_arena.total_size, 4096u);
 #else
 	void* arena_ptr = mmap(nullptr, custom_arena.total_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
+	if (arena_ptr == MAP_FAILED)
+		arena_ptr = nullptr;
 #endif
 	if (!arena_ptr) {
 		throw std::runtime_error("Failed to allocate custom arena with aligned_alloc");
-- 
2.43.0


From dfedae9893d01e1e9e0b7092ebb7164875677aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:55 +0000
Subject: [PATCH 71/71] fix: laemu fails for 32-bit programs, which it does not
 support

---
 emulator/src/main.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emulator/src/main.cpp b/emulator/src/main.cpp
index b59c15f..804d84c 100644
--- a/emulator/src/main.cpp
+++ b/emulator/src/main.cpp
@@ -487,6 +487,7 @@ int main(int argc, char* argv[])
 		// Run program with detected architecture
 		if (is_32bit) {
 			fprintf(stderr, "Error: 32-bit LoongArch is not supported!\n");
+			return 1;
 		} else { // is_64bit
 			return run_program(binary, opts);
 		}
-- 
2.43.0

