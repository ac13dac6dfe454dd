From 2bcf690ced44cea0cbd2c8349bb28f6cd1ec9a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:59 +0000
Subject: [PATCH 01/43] fix: detect overflow of an integer power instead of
 wrapping around

---
 simulator/virtual_stack.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/simulator/virtual_stack.cpp b/simulator/virtual_stack.cpp
index 68a6440..2b3eecd 100644
--- a/simulator/virtual_stack.cpp
+++ b/simulator/virtual_stack.cpp
@@ -276,13 +276,23 @@ void Stack_Cell::subtract(const Stack_Cell &another)
 //
 static int power(int x, unsigned n)
 {
-    int result = 1;
+    int64_t const limit = BITS(26);
+    int64_t result      = 1;
+    int64_t factor      = x;
     while (n) {
         if (n & 1) {
-            result *= x;
+            result *= factor;
+            if (result > limit || result < -limit) {
+                throw std::runtime_error("Overflow in integer arithmetic");
+            }
         }
         n = n >> 1;
-        x *= x;
+        if (n) {
+            factor *= factor;
+            if (factor > limit) {
+                throw std::runtime_error("Overflow in integer arithmetic");
+            }
+        }
     }
     return result;
 }
-- 
2.43.0


From bf167f73d45f8fe0d09bb20bc2613755efe6d86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:00 +0000
Subject: [PATCH 02/43] fix: report overflow when a real result exceeds even
 the native range

---
 simulator/x1_arch.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simulator/x1_arch.cpp b/simulator/x1_arch.cpp
index a5d6037..f7786bf 100644
--- a/simulator/x1_arch.cpp
+++ b/simulator/x1_arch.cpp
@@ -36,6 +36,11 @@ Real ieee_to_x1(long double input)
         input = -input;
     }
 
+    if (!std::isfinite(input)) {
+        // The native result is already out of range, e.g. 10.0 ↑ 20000.
+        throw std::runtime_error("Overflow in real arithmetic");
+    }
+
     // Split into mantissa and exponent.
     int exponent;
     long double mantissa = frexpl(input, &exponent);
-- 
2.43.0


From 796b30a630893db81a594af4effb25616ec4c2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:01 +0000
Subject: [PATCH 03/43] fix: real to integer conversion out of range is an
 overflow, not a wrong number

---
 simulator/opcodes.cpp   |  2 +-
 simulator/processor.cpp |  2 +-
 simulator/x1_arch.cpp   | 12 ++++++++++++
 simulator/x1_arch.h     |  5 +++++
 4 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 8435906..dd4bcf1 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -976,7 +976,7 @@ bool Processor::call_opc(unsigned opc)
                 stack.push_real_value(load_real(actual + i));
                 break;
             case 21: // real to integer
-                stack.push_int_value(integer_to_x1(roundl(x1_to_ieee(load_real(actual + 2 * i)))));
+                stack.push_int_value(ieee_to_x1_integer(x1_to_ieee(load_real(actual + 2 * i))));
                 break;
             case 12: // integer to real
                 stack.push_real_value(
diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index a8f9459..2955d66 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -531,7 +531,7 @@ void Processor::store_value(const Stack_Cell &dest, const Stack_Cell &src)
         if (src.is_int_value()) {
             result = src.get_int();
         } else if (src.is_real_value()) {
-            result = integer_to_x1((int)roundl(x1_to_ieee(src.get_real())));
+            result = ieee_to_x1_integer(x1_to_ieee(src.get_real()));
         } else {
             throw std::runtime_error("Cannot store address");
         }
diff --git a/simulator/x1_arch.cpp b/simulator/x1_arch.cpp
index f7786bf..a0db91c 100644
--- a/simulator/x1_arch.cpp
+++ b/simulator/x1_arch.cpp
@@ -130,6 +130,18 @@ Word integer_to_x1(int input)
     return result;
 }
 
+//
+// Round real value to the nearest integer, and convert it to X1 format.
+//
+Word ieee_to_x1_integer(long double input)
+{
+    input = roundl(input);
+    if (fabsl(input) > (long double)BITS(26)) {
+        throw std::runtime_error("Overflow in integer arithmetic");
+    }
+    return integer_to_x1((int)input);
+}
+
 int x1_to_integer(Word input)
 {
     if (input & ONEBIT(26)) {
diff --git a/simulator/x1_arch.h b/simulator/x1_arch.h
index f7e0b8a..56edb2a 100644
--- a/simulator/x1_arch.h
+++ b/simulator/x1_arch.h
@@ -58,6 +58,11 @@ long double x1_to_ieee(Real word);
 Word integer_to_x1(int d);
 int x1_to_integer(Word word);
 
+//
+// Convert real value to integer in X1 format, with rounding.
+//
+Word ieee_to_x1_integer(long double d);
+
 //
 // Print X1 word.
 //
-- 
2.43.0


From dd632a582f92fd53b490eec2756e422cdb4d9a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:38 +0000
Subject: [PATCH 04/43] fix: array element addresses are computed without
 wraparound

---
 simulator/opcodes.cpp   | 30 ++++++++++++++++++++----------
 simulator/processor.cpp |  7 +++++--
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index dd4bcf1..82d7ab9 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -530,29 +530,39 @@ bool Processor::call_opc(unsigned opc)
         if (limit >= 0 || -limit > 0xfffff) {
             throw std::runtime_error("A wrong number of indexes for an array");
         }
-        int elt_addr = base;
-        int idx0     = 0; // for the error message
+        // Offset of the element with all indexes equal to zero, from the first element.
+        // The base address is kept modulo 2²⁶ for static arrays, and modulo 2²⁷ for
+        // arrays on stack: restore the sign.
+        unsigned const width = (addr < STACK_BASE) ? 26 : 27;
+        int64_t zero_offset  = (base - location) & BITS(width);
+        if (zero_offset & ONEBIT(width - 1)) {
+            zero_offset -= ONEBIT(width);
+        }
+        int64_t linear = 0;
+        int idx0       = 0; // for the error message
         for (unsigned i = 0; i < ndim; ++i) {
             int dimsize = x1_to_integer(load_word(addr + 2 + i));
-            int idx     = idxs[i].is_int_value() ? x1_to_integer(idxs[i].get_int())
-                                                 : (int)roundl(x1_to_ieee(idxs[i].get_real()));
+            int idx     = x1_to_integer(idxs[i].is_int_value()
+                                            ? idxs[i].get_int()
+                                            : ieee_to_x1_integer(x1_to_ieee(idxs[i].get_real())));
             if (i == 0)
                 idx0 = idx;
-            elt_addr += idx * dimsize;
+            linear += (int64_t)idx * dimsize;
         }
-        elt_addr &= BITS(20); // 16 rather than 15 is to catch "negative" addresses
-        if (elt_addr < location || elt_addr + limit >= location) {
+        int64_t const elt_offset = linear + zero_offset;
+        if (elt_offset < 0 || elt_offset + limit >= 0) {
             std::ostringstream ostr;
             int elsize = x1_to_integer(load_word(addr + 2));
             if (ndim == 1) {
                 ostr << "Index " << idx0 << " is ";
             } else {
-                ostr << "Indexing (linearized " << elt_addr - base << ") ";
+                ostr << "Indexing (linearized " << linear << ") ";
             }
-            ostr << "beyond limits for array [" << (location - base) / elsize << ':'
-                 << (location - base - limit) / elsize - 1 << ']';
+            ostr << "beyond limits for array [" << -zero_offset / elsize << ':'
+                 << (-zero_offset - limit) / elsize - 1 << ']';
             throw std::runtime_error(ostr.str());
         }
+        unsigned const elt_addr = location + elt_offset;
         if (storage_fn.is_int_addr())
             stack.push_int_addr(elt_addr);
         else
diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index 2955d66..3cf6911 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -894,12 +894,15 @@ void Processor::make_storage_function_frame(int elt_size)
         stack.push_real_addr(0);
     stack.push_null(); // future "0 element" address
     unsigned zero_base = stack.count() - 1;
-    int offset         = 0;
-    int stride         = elt_size;
+    int64_t offset     = 0;
+    int64_t stride     = elt_size;
     for (int i = 0; i < ndim; ++i) {
         stack.push_int_value(stride);
         offset += stride * dims[i].first;
         stride *= (dims[i].second - dims[i].first + 1);
+        if (std::abs(offset) > (int64_t)BITS(26) || std::abs(stride) > (int64_t)BITS(26)) {
+            throw std::runtime_error("Array does not fit into memory");
+        }
     }
     stack.set_int_value(zero_base, integer_to_x1(offset));
     stack.push_int_value(integer_to_x1(-stride));
-- 
2.43.0


From 79cd818bb11846ca99180815b750798629629352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:09 +0000
Subject: [PATCH 05/43] fix: value arrays placed beyond 32768 words of stack
 are copied correctly

---
 simulator/opcodes.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 82d7ab9..5322681 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -937,8 +937,7 @@ bool Processor::call_opc(unsigned opc)
         // value array positioning
         unsigned storage_fn = address_in_stack(core.S);
         unsigned actual     = stack.get(storage_fn).get_addr();
-        unsigned zero_base =
-            stack.get(storage_fn + 1).get_addr() & 0xFFFF; // remove stray high bits
+        unsigned zero_base  = stack.get(storage_fn + 1).get_addr();
         unsigned elt_size = stack.get(storage_fn + 2).get_int();
         Cell_Type ct = elt_size % 2 == 1 ? Cell_Type::INTEGER_ADDRESS : Cell_Type::REAL_ADDRESS;
         // Element size correctors for type conversion.
@@ -974,9 +973,14 @@ bool Processor::call_opc(unsigned opc)
         }
         unsigned words = -x1_to_integer(stack.get(storage_fn + pos).get_int());
         stack.set(storage_fn, Stack_Cell{ ct, stack_base + STACK_BASE });
-        int offset = actual - zero_base;
-        offset     = offset * mul / div;
-        stack.set(storage_fn + 1, Stack_Cell{ ct, stack_base - offset + STACK_BASE });
+        // Restore the sign of the offset, same as in IND.
+        unsigned const width = (actual < STACK_BASE) ? 26 : 27;
+        int64_t offset      = (actual - zero_base) & BITS(width);
+        if (offset & ONEBIT(width - 1)) {
+            offset -= ONEBIT(width);
+        }
+        offset = offset * mul / div;
+        stack.set(storage_fn + 1, Stack_Cell{ ct, uint64_t(stack_base - offset + STACK_BASE) });
         for (unsigned i = 0; i < words; ++i) {
             switch (elt_size) {
             case 1:
-- 
2.43.0


From b67df6e6b87053ff34906edcbadbe4f171537654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:32 +0000
Subject: [PATCH 06/43] fix: parameters work in frames beyond 32768 words of
 stack

---
 simulator/processor.cpp | 6 +++---
 simulator/processor.h   | 3 +++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index 3cf6911..83b6100 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -376,7 +376,7 @@ void Processor::frame_create(unsigned ret_addr, unsigned num_args)
     // the block in which the corresponding procedure statement is given." (E.W.Dijkstra)
     //
     auto parent_level   = get_block_level();
-    auto parent_display = parent_level << 15 | frame_ptr;
+    auto parent_display = parent_level << FRAME_BITS | frame_ptr;
 
     for (unsigned i = 0; i < num_args; i++) {
         // Allocate formal parameters: two cells per parameter.
@@ -512,8 +512,8 @@ void Processor::get_arg_display(unsigned const dynamic_addr, unsigned &block_lev
     auto const addr           = address_in_stack(dynamic_addr);
     auto const formal_display = stack.get(addr + 1).get_int();
 
-    block_level  = formal_display >> 15;
-    prev_display = formal_display & BITS(15);
+    block_level  = formal_display >> FRAME_BITS;
+    prev_display = formal_display & BITS(FRAME_BITS);
 }
 
 //
diff --git a/simulator/processor.h b/simulator/processor.h
index 4bbba6f..64d316b 100644
--- a/simulator/processor.h
+++ b/simulator/processor.h
@@ -89,6 +89,9 @@ private:
     // Stack contents is mapped to this virtual address.
     static unsigned const STACK_BASE = 0100000;
 
+    // Width of frame pointer inside descriptor of parent display.
+    static unsigned const FRAME_BITS = 20;
+
     // Apply this operation when returning from implicit subroutine (on EIS).
     // Indexed by stack base.
     std::unordered_map<unsigned, Formal_Op> eis_operation;
-- 
2.43.0


From 9fab38848eb8dbf037ab9b5baba584b2e6d559b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:34 +0000
Subject: [PATCH 07/43] fix: stack overflow is detected for every kind of push

---
 simulator/virtual_stack.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simulator/virtual_stack.cpp b/simulator/virtual_stack.cpp
index 2b3eecd..b436f59 100644
--- a/simulator/virtual_stack.cpp
+++ b/simulator/virtual_stack.cpp
@@ -553,6 +553,9 @@ void Virtual_Stack::push(const Stack_Cell &item)
 
 void Virtual_Stack::push(Cell_Type type, uint64_t value)
 {
+    if (storage.size() >= SIZE_LIMIT) {
+        throw std::runtime_error("Stack overflow");
+    }
     storage.push_back({});
     auto &item = storage.back();
     item.type  = type;
-- 
2.43.0


From 9a59dc47f549f95a76f7135f44b0fa0f38967c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:03 +0000
Subject: [PATCH 08/43] fix: FLOT keeps two-digit exponents, and checks the
 exponent after rounding

---
 simulator/machine.cpp | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index 68047a3..2ff29fb 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -528,6 +528,20 @@ void Machine::print_floating_point(std::ostream &out, int n, int m, long double
     }
 
     int exponent = (x == 0) ? 0 : 1 + floor(log10l(x));
+
+    // Scale to range [0, 1).
+    if (exponent != 0) {
+        x /= powl(10.0, exponent);
+    }
+
+    // Round.
+    x += 0.5 / powl(10.0, n);
+    if (x >= 1) {
+        x /= 10;
+        exponent++;
+    }
+
+    // Check the exponent after rounding: it must fit into m digits.
     switch (m) {
     case 1:
         if (exponent > 9 || exponent < -9) {
@@ -535,7 +549,7 @@ void Machine::print_floating_point(std::ostream &out, int n, int m, long double
         }
         break;
     case 2:
-        if (exponent > 9 || exponent < -99) {
+        if (exponent > 99 || exponent < -99) {
             goto again;
         }
         break;
@@ -544,18 +558,6 @@ void Machine::print_floating_point(std::ostream &out, int n, int m, long double
         break;
     }
 
-    // Scale to range [0, 1).
-    if (exponent != 0) {
-        x /= powl(10.0, exponent);
-    }
-
-    // Round.
-    x += 0.5 / powl(10.0, n);
-    if (x >= 1) {
-        x /= 10;
-        exponent++;
-    }
-
     // Print mantissa.
     out << sign_symbol << '.';
     for (int count = 0; count < n; count++) {
-- 
2.43.0


From e80ec55ff3148c327278d009fe91d6db31433df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:22 +0000
Subject: [PATCH 09/43] fix: FIXT and ABSFIXT print zeroes after the point, and
 suppress the zero before it as documented

---
 simulator/machine.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index 2ff29fb..4e21db9 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -476,11 +476,14 @@ void Machine::print_fixed_point(std::ostream &out, int n, int m, long double x0,
         assert(digit >= 0 && digit <= 9);
         x -= digit;
 
-        if (count + 1 == n) {
+        if (count + 1 == n && m == 0) {
+            // Units are always printed when there is no fractional part.
             suppress_zeroes = false;
         }
         if (count == n && m > 0) {
+            // Zeroes after the decimal point are significant.
             out << '.';
+            suppress_zeroes = false;
         }
         if (digit == 0 && suppress_zeroes) {
             out << ' ';
-- 
2.43.0


From e8ad3201bd26cd0e8ded64653725c534d19391d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:22 +0000
Subject: [PATCH 10/43] fix: a compiler killed by a signal is a failure, not a
 success

---
 simulator/machine.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index 4e21db9..60f1539 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -309,6 +309,10 @@ void Machine::run_program(const std::string &prog_path, const std::vector<std::s
         throw std::runtime_error("Lost child process #" + std::to_string(pid));
     }
 
+    if (WIFSIGNALED(wait_status)) {
+        throw std::runtime_error("Compiler killed by signal " +
+                                 std::to_string(WTERMSIG(wait_status)));
+    }
     int exit_code = WEXITSTATUS(wait_status);
     switch (exit_code) {
     case STATUS_OK:
-- 
2.43.0


From e92ce045ad56541547e7486e6eabe6ce144af7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:45 +0000
Subject: [PATCH 11/43] fix: an object program without an entry is reported
 instead of jumping to a random address

---
 simulator/machine.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simulator/machine.h b/simulator/machine.h
index 82bedcf..80e54f3 100644
--- a/simulator/machine.h
+++ b/simulator/machine.h
@@ -114,7 +114,12 @@ public:
     unsigned get_symbol(const std::string &name) { return symbol_table.at(name); }
 
     // Get entry address by index.
-    unsigned get_entry(unsigned index) { return entry_table[index]; }
+    unsigned get_entry(unsigned index)
+    {
+        if (index >= entry_table.size())
+            throw std::runtime_error("No entry address in object program");
+        return entry_table[index];
+    }
 
     // Get status of simulation: either EXIT_SUCCESS (0) or
     // EXIT_FAILURE in case of errors.
-- 
2.43.0


From 3ffe2e7022b2fd645db176894be29c1884a7e334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:45 +0000
Subject: [PATCH 12/43] fix: option --debug takes no argument, same as -d

---
 simulator/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/main.cpp b/simulator/main.cpp
index b9880c0..d059f0a 100644
--- a/simulator/main.cpp
+++ b/simulator/main.cpp
@@ -13,7 +13,7 @@ static const struct option long_options[] = {
     { "help",           no_argument,        nullptr,    'h' },
     { "version",        no_argument,        nullptr,    'V' },
     { "trace",          required_argument,  nullptr,    'T' },
-    { "debug",          required_argument,  nullptr,    'd' },
+    { "debug",          no_argument,        nullptr,    'd' },
     { nullptr },
     // clang-format on
 };
-- 
2.43.0


From 7d9889b72ec2e164675d4ee6b67901fae16ec4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:45 +0000
Subject: [PATCH 13/43] fix: report an unwritable trace file as an error
 instead of aborting

---
 simulator/main.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simulator/main.cpp b/simulator/main.cpp
index d059f0a..928c407 100644
--- a/simulator/main.cpp
+++ b/simulator/main.cpp
@@ -84,7 +84,12 @@ int main(int argc, char *argv[])
 
         case 'T':
             // Redirect tracing to given file.
-            Machine::redirect_trace(optarg);
+            try {
+                Machine::redirect_trace(optarg);
+            } catch (std::exception &ex) {
+                std::cerr << "Error: " << ex.what() << std::endl;
+                exit(EXIT_FAILURE);
+            }
             Machine::get_trace_stream() << "X1 Algol Simulator Version: " << VERSION_STRING << "\n";
             continue;
 
-- 
2.43.0


From ba8bab58d84cdb55c5477795422219064f27a874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:05 +0000
Subject: [PATCH 14/43] fix: running an object file does not require a library

---
 simulator/machine.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index 60f1539..96eb50d 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -635,6 +635,12 @@ void Machine::print_int_or_real(std::ostream &out, long double x)
 //
 void Machine::find_default_library(const char *argv0)
 {
+    if (!input_files.empty() &&
+        std::filesystem::path(input_files[0]).extension() != ".a60") {
+        // Only the compiler needs a library.
+        return;
+    }
+
     // Try X1ALGOL_LIB from enviromnent first.
     auto const env_lib = std::getenv("X1ALGOL_LIB");
     if (env_lib != nullptr) {
-- 
2.43.0


From 6e3cb991ae3c76d4973a87eefc8cbdf9600ba98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:27 +0000
Subject: [PATCH 15/43] fix: the compiler stops with an error, without crash or
 endless loop, on programs with missing identifiers

---
 compiler/x1algc.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 6696895..cdd61f1 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -1306,7 +1306,7 @@ Local Void fill_future_list(int place, int value)
         klib += 16;
         nlib += 16;
     }
-    store[place] = value;
+    Wstore(place, value);
 } /*fill_future_list*/
 
 Local Void fill_constant_list(int n)
@@ -1378,7 +1378,7 @@ Local Void label_declaration()
     /*FY*/
     int id1, id2, i, w;
 
-    id1 = store[nlib + nid];
+    id1 = Rstore(nlib + nid);
     if (((id1 / d15) & 1) == 0) /*preceding applied occurrences*/
         fill_future_list(flib + (id1 & (d15 - 1)), rlsc);
     else
@@ -1388,6 +1388,8 @@ Local Void label_declaration()
     if ((id1 & (d3 - 1)) == 0) { /*at most 4 letters/digits*/
         i = 4;
         id1 /= d3;
+        if (id1 == 0)
+            stop(26, "Missing identifier");
         while ((id1 & (d6 - 1)) == 0) { /*void*/
             i--;
             id1 /= d6;
@@ -1545,7 +1547,7 @@ Local Void reservation_of_arrays()
             store[rlab - 1] = id / d15 * d15 - d16 + pnlv;
             pnlv += 256; /*at most 5 indices*/
         }
-        if ((store[rlab - 2] & (d3 - 1)) == 0)
+        if ((Rstore(rlab - 2) & (d3 - 1)) == 0)
             rlab -= 2;
         else
             rlab -= 3;
@@ -2391,7 +2393,7 @@ _L101: /*]*/
         arra = nlib + nlsc;
         do {
             Wstore(arra - 1, arrb + pnlv);
-            if ((store[arra - 2] & (d3 - 1)) == 0)
+            if ((Rstore(arra - 2) & (d3 - 1)) == 0)
                 arra -= 2;
             else
                 arra -= 3;
-- 
2.43.0


From c47b55711f4481d5439a785549d9d539dad69a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:14 +0000
Subject: [PATCH 16/43] fix: too deep nesting is refused instead of overwriting
 the library code in the compiler's store

---
 compiler/x1algc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index cdd61f1..546df8a 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -674,6 +674,8 @@ _L5:;
 
 Static Void fill_t_list(int n)
 {
+    if (tlsc >= mcpb)
+        stop(24, "Too deep nesting");
     store[tlsc] = n;
     tlsc++;
 } /*fill_t_list*/
-- 
2.43.0


From 6b70a289b3a54c1df7034fa44920449b233ad687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:42 +0000
Subject: [PATCH 17/43] fix: local variables beyond the reach of a dynamic
 address are refused instead of miscompiled

---
 compiler/x1algc.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 546df8a..284003e 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -672,6 +672,13 @@ _L4:
 _L5:;
 } /*read_until_next_delimiter*/
 
+Static Void reserve_in_frame(int n)
+{ /*reserve n words, addressed dynamically by 10 bits of displacement*/
+    pnlv += n * d5;
+    if (pnlv / d5 > 1024)
+        stop(27, "Too many local variables");
+} /*reserve_in_frame*/
+
 Static Void fill_t_list(int n)
 {
     if (tlsc >= mcpb)
@@ -1547,7 +1554,7 @@ Local Void reservation_of_arrays()
                 fill_result_list(93, 0);
             /*IVA*/
             store[rlab - 1] = id / d15 * d15 - d16 + pnlv;
-            pnlv += 256; /*at most 5 indices*/
+            reserve_in_frame(8); /*at most 5 indices*/
         }
         if ((Rstore(rlab - 2) & (d3 - 1)) == 0)
             rlab -= 2;
@@ -2399,7 +2406,7 @@ _L101: /*]*/
                 arra -= 2;
             else
                 arra -= 3;
-            pnlv += (ic + 3) * d5;
+            reserve_in_frame(ic + 3);
             aic--;
         } while (aic != 0);
         read_until_next_delimiter();
@@ -2553,10 +2560,10 @@ _L1083: /*dynamic addressing*/
     id = pnlv + d15;
     if (ibd == 1) {
         id += d19;
-        pnlv += 32;
+        reserve_in_frame(1);
         lvc++;
     } else {
-        pnlv += 64;
+        reserve_in_frame(2);
         lvc += 2;
     }
     fill_name_list();
@@ -2702,7 +2709,7 @@ _L112: /*procedure*/
         read_until_next_delimiter();
         id = pnlv + d15 + d16;
         fill_name_list();
-        pnlv += d5 * 2; /*reservation PARD*/
+        reserve_in_frame(2); /*reservation PARD*/
     } while (dl == 87);
     read_until_next_delimiter(); /*for ; after )*/
 _L1121:
-- 
2.43.0


From 7c38ac2986143ce1825aae8a75ae188e37071438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:03 +0000
Subject: [PATCH 18/43] fix: static variables that would overlap the program
 are refused

---
 compiler/x1algc.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 284003e..2d3e8ea 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -2631,7 +2631,7 @@ _L1102: /*static bounds, constants only:*/
                 }
             } else
                 arrd = inw;
-            arrc = (arrc - arrd * store[tlsc - 1]) & (d26 - 1);
+            arrc = (arrc - (long long)arrd * store[tlsc - 1]) & (d26 - 1);
             /*upper bound:*/
             read_until_next_delimiter();
             if (nflag == 0) {
@@ -2644,6 +2644,8 @@ _L1102: /*static bounds, constants only:*/
                 }
             } else
                 arrd = inw - arrd;
+            if (arrd + 1 < 0 || (store[tlsc - 1] > 0 && arrd + 1 > d15 / store[tlsc - 1]))
+                stop(98, "Store too small for the arrays");
             if (dl == 101) /*[*/
                 fill_t_list(-(((arrd + 1) * store[tlsc - 1]) & (d26 - 1)));
             else
@@ -2661,6 +2663,8 @@ _L1102: /*static bounds, constants only:*/
                 tlsc++;
             } while (store[tlsc - 1] > 0);
             gvc -= store[tlsc - 1];
+            if (gvc > d15)
+                stop(98, "Store too small for the arrays");
             tlsc = arrb;
             if ((store[nlib + arrd - 2] & (d3 - 1)) == 0)
                 arrd -= 2;
@@ -3406,6 +3410,8 @@ Static Void program_loader()
         fclose(lib_tape);
     }
     /*program loading completed:*/
+    if (gvc > mcpe) /*static variables would overlap the program*/
+        stop(98, "Store too small for the variables");
     typ_address(mcpe);
 } /*program_loader*/
 
-- 
2.43.0


From 183768c174990ae3a5bed40a792efe5d11f23566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:48 +0000
Subject: [PATCH 19/43] fix: a finished library tape is not read again after it
 was closed

---
 compiler/x1algc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 2d3e8ea..ee7fc3e 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -3408,6 +3408,7 @@ Static Void program_loader()
             V.ll = read_bit_string(13, &V);
         }
         fclose(lib_tape);
+        lib_tape = NULL;
     }
     /*program loading completed:*/
     if (gvc > mcpe) /*static variables would overlap the program*/
-- 
2.43.0


From f0bd61654a8df6700c4b8f49489d7ae1e41df0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:48 +0000
Subject: [PATCH 20/43] fix: a real switch index is rounded to integer

---
 simulator/opcodes.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 5322681..b5a32a4 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -232,7 +232,9 @@ bool Processor::call_opc(unsigned opc)
 
     case OPC_SSI: {
         // store switch index
-        auto index = stack.pop().get_int();
+        auto item  = stack.pop();
+        Word index = item.is_real_value() ? ieee_to_x1_integer(x1_to_ieee(item.get_real()))
+                                          : item.get_int();
         machine.mem_store(060, index);
         break;
     }
-- 
2.43.0


From b992e872d202f57b6c68d6c0f87e7ff914676638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:19 +0000
Subject: [PATCH 21/43] fix: real array bounds are rounded to integer

---
 simulator/processor.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index 83b6100..38a2397 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -882,9 +882,14 @@ void Processor::make_storage_function_frame(int elt_size)
     int nitems = core.S;
     int ndim   = (stack.count() - stack_base) / 2;
     std::vector<std::pair<int, int>> dims;
+    auto pop_bound = [this]() {
+        if (!stack.top().is_real_value())
+            return stack.pop_integer();
+        return x1_to_integer(ieee_to_x1_integer(x1_to_ieee(stack.pop().get_real())));
+    };
     for (int i = 0; i < ndim; ++i) {
-        int right = stack.pop_integer();
-        int left  = stack.pop_integer();
+        int right = pop_bound();
+        int left  = pop_bound();
         dims.push_back(std::make_pair(left, right));
     }
     std::reverse(dims.begin(), dims.end());
-- 
2.43.0


From 961091a72084bd750414c2df760b496483ce8d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:49 +0000
Subject: [PATCH 22/43] fix: goto out of a function drops the expression it was
 called in

---
 simulator/opcodes.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index b5a32a4..cfb4b03 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -228,6 +228,10 @@ bool Processor::call_opc(unsigned opc)
         // Exit to block level given in register B.
         frame_ptr = last_frame_ptr;
         roll_back(display[core.B]);
+        // Drop intermediate results of expressions left by the jump.
+        if (stack.count() > stack_base) {
+            stack.erase(stack_base);
+        }
         break;
 
     case OPC_SSI: {
-- 
2.43.0


From 98d3e30d33d71ee74b4217e7382c66875efd0cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:49 +0000
Subject: [PATCH 23/43] fix: scalars declared in several groups get the right
 places in the frame

---
 compiler/x1algc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index ee7fc3e..e0f8738 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -1496,6 +1496,7 @@ Local Void reservation_of_local_variables()
     fill_result_list(0, lvc + 4718592); /*4A 17X1*/
     fill_result_list(0, 8388657);       /*4A 18X1*/
     fill_result_list(0, 8388658);
+    lvc = 0;
 } /*reservation_of_local_variables*/
 
 Local Void address_to_register()
-- 
2.43.0


From 674d5dafd3e667153126b4c12a6aa41fa18c7449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:10 +0000
Subject: [PATCH 24/43] fix: local arrays declared after an own array are
 allocated

---
 compiler/x1algc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index e0f8738..4037e8d 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -2674,6 +2674,10 @@ _L1102: /*static bounds, constants only:*/
         } while (arrd != arra);
         read_until_next_delimiter(); /*,*/
     } while (dl == 87);
+    if (bn != 0) { /*own arrays: local arrays may follow*/
+        eflag = 0;
+        goto _L1;
+    }
     goto _L91; /*;*/
 _L1103:        /*dynamic bounds,arithmetic expressions:*/
     ic  = 0;
-- 
2.43.0


From 8dd0da4aeefc0b632e20c7bd5d8659e01fb5a65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:26 +0000
Subject: [PATCH 25/43] fix: sign after a Boolean operator is unary

---
 compiler/x1algc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 4037e8d..15196b5 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -2019,6 +2019,7 @@ _L76: /*~,^,`,=>,_=*/
         oh = 83 - dl;
         goto _L8202;
     }
+    oflag = 1;
     production_of_object_program(83 - dl, &V);
     fill_t_list_with_delimiter();
     goto _L1;
-- 
2.43.0


From 1b3171fa18acb0207e0c583d41d13cf5bc3ea512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:14 +0000
Subject: [PATCH 26/43] fix: a constant parameter following a standard function
 call is a constant

---
 compiler/x1algc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 15196b5..b2da132 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -2152,7 +2152,7 @@ _L8702:
         if (aflag == 0) {
             if (store[tlsc - 2] == rlsc && (fflag == 0 || pass_formals) &&
                 jflag == 0 && nflag == 1) {
-                if (nid > nlscop) {
+                if (nid > nlscop || kflag == 1) {
                     if (pflag == 1 && fflag == 0) /*non-formal procedure:*/
                         test_first_occurrence();
                     /*PORD construction:*/
-- 
2.43.0


From e917c9fe5c88eaef95bb2a9cc70fe58302da1cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:44 +0000
Subject: [PATCH 27/43] fix: a formal procedure runs in the environment where
 it was passed, also when passed on

---
 simulator/processor.cpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index 38a2397..17c4d4d 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -583,16 +583,29 @@ void Processor::store_value(const Stack_Cell &dest, const Stack_Cell &src)
 
 //
 // Get address of procedure parameter at dynamic address.
+// Set display[] to the context where the procedure has been passed as argument.
 //
 unsigned Processor::get_formal_proc(unsigned dynamic_addr)
 {
-    unsigned const arg_descr = arg_descriptor(dynamic_addr);
-    unsigned const arg_addr  = arg_descr & BITS(15);
-    switch (arg_descr >> 15 & 077) {
-    case 040:
-        return arg_addr;
-    default:
-        throw std::runtime_error("Unknown descriptor of formal procedure: " + to_octal(arg_descr));
+    for (;;) {
+        unsigned const arg_descr = arg_descriptor(dynamic_addr);
+        unsigned const arg_addr  = arg_descr & BITS(15);
+        unsigned arg_level, arg_frame;
+        switch (arg_descr >> 15 & 077) {
+        case 006:
+            // Indirection: argument point to another argument in parent's frame.
+            get_arg_display(dynamic_addr, arg_level, arg_frame);
+            update_display(arg_level, arg_frame);
+            dynamic_addr = (arg_descr >> 22) | (arg_addr << 5);
+            break;
+        case 040:
+            get_arg_display(dynamic_addr, arg_level, arg_frame);
+            update_display(arg_level, arg_frame);
+            return arg_addr;
+        default:
+            throw std::runtime_error("Unknown descriptor of formal procedure: " +
+                                     to_octal(arg_descr));
+        }
     }
 }
 
-- 
2.43.0


From e71df028ae9b4b2b349c73b78bec10c836072667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:45 +0000
Subject: [PATCH 28/43] fix: labels after 'else' do not belong to a block ended
 before it

---
 compiler/x1algc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index b2da132..46ee8f1 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -828,7 +828,7 @@ _L3:
             goto _L3;
         tlsc--;                 /*remove begin from t_list*/
         block_introduction(&V); /*add begin to t_list again*/
-        fill_t_list(104);
+        fill_t_list(161);       /*as begin of a block*/
         goto _L3;
     }
     if (dl == 105) {                  /*end*/
@@ -841,6 +841,10 @@ _L3:
         if (vht != 0)
             stop(23, "In prescan after end");
         tlsc--; /*remove corresponding begin from t_list*/
+        if (store[tlsc] == 161) { /*block is left, else may follow*/
+            tlsc -= 2;
+            V.bc = store[tlsc];
+        }
         if (tlsc > tlib)
             goto _L1;
         goto _L7; /*end of prescan*/
-- 
2.43.0


From a05333a617ca3466c5c72dcd719c9aabcb20c3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:57 +0000
Subject: [PATCH 29/43] fix: a line end in a string is printed once

---
 compiler/x1algc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 46ee8f1..1ba4ceb 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -208,7 +208,7 @@ _L1:
         input_pos = 0;
         /*writeln('---');*/
         /*for debug*/
-        return 119; /*newline*/
+        goto _L1; /*newline is at the end of line*/
     }
     i = read_next_byte();
     if (i < 128) {
-- 
2.43.0


From 0ac0f8d4ce664f3beb4c5e3e49f35f4f22960517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:48 +0000
Subject: [PATCH 30/43] fix: rounding of a real literal keeps the low bits of
 its mantissa

---
 compiler/x1algc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 1ba4ceb..91ddffd 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -656,7 +656,7 @@ _L3: /*float*/
     }
     inw += 2048;
     if (inw >= d26) {
-        inw = 0;
+        inw -= d26;
         fnw++;
         if (fnw == d26) {
             fnw = d25;
-- 
2.43.0


From 55544e9abe8260532a287fe26c96e62df0b7aeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:49 +0000
Subject: [PATCH 31/43] fix: read, NLCR, TAB and stop can be actual parameters

---
 compiler/x1algc.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 91ddffd..dd08853 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -1606,6 +1606,12 @@ Local Void procedure_statement(struct LOC_main_scan *LINK)
     }
 } /*procedure_statement*/
 
+Local boolean without_parameters(int operator_)
+{
+    /*read, TAB, NLCR, stop*/
+    return operator_ == 142 || operator_ == 144 || operator_ == 145 || operator_ == 148;
+} /*without_parameters*/
+
 Local Void production_transmark()
 {
     /*ZL*/
@@ -2181,7 +2187,8 @@ _L8702:
                     goto _L8704;
                 } else {
                     tfpflag = 1;
-                    fill_result_list(98, 0);
+                    if (!without_parameters(store[nlib + nid] & (d8 - 1)))
+                        fill_result_list(98, 0);
                     goto _L8703;
                 }
             } else {
-- 
2.43.0


From a6176626166ce4292bc10f8a413f4eac966b909d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:49 +0000
Subject: [PATCH 32/43] fix: a standard procedure called through a formal
 parameter leaves nothing on the stack

---
 simulator/opcodes.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index cfb4b03..1b1e9c6 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -93,7 +93,15 @@ bool Processor::call_opc(unsigned opc)
             stack_base -= 2;
         }
         frame_ptr = stack_base + Frame_Offset::FP - Frame_Offset::ARG;
-        OT        = frame_release();
+
+        // A standard procedure, called as statement through a formal parameter.
+        auto no_result = stack.get(frame_ptr + Frame_Offset::RESULT).is_null();
+        OT             = frame_release();
+        if (no_result) {
+            // Drop empty result.
+            stack.pop();
+            break;
+        }
 
         // Apply operation with given item.
         stack.top() = item;
-- 
2.43.0


From d9279f65940a5dcb51ff3c04d5fe184a01a550eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:16 +0000
Subject: [PATCH 33/43] fix: XEEN takes negative and zero arguments as
 documented, and reports malformed switches

---
 simulator/input.cpp   | 10 +++++++---
 simulator/opcodes.cpp |  6 +++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/simulator/input.cpp b/simulator/input.cpp
index 8e3e563..074af7b 100644
--- a/simulator/input.cpp
+++ b/simulator/input.cpp
@@ -120,9 +120,13 @@ unsigned Machine::read_console_switches(std::istream &input_stream, unsigned bit
             try {
                 std::string line;
                 if (std::getline(input_stream, line)) {
-                    console_switches = std::stoul(line, nullptr, 2);
-                    switches_are_valid = true;
-                    break;
+                    std::size_t len{};
+                    auto const value = std::stoul(line, &len, 2);
+                    if (value <= BITS(27) && line.find_first_not_of(" \t\r", len) == std::string::npos) {
+                        console_switches = value;
+                        switches_are_valid = true;
+                        break;
+                    }
                 }
             } catch (...) {
                 // No valid number.
diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 1b1e9c6..37660fd 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -1100,7 +1100,11 @@ bool Processor::call_opc(unsigned opc)
 
     case OPC_XEEN: {
         // Read console switches.
-        auto bitmask = stack.pop_integer();
+        // A negative bitmask is in ones' complement, zero stands for all ones.
+        auto bitmask = integer_to_x1(stack.pop_integer());
+        if (bitmask == 0) {
+            bitmask = BITS(27);
+        }
         stack.push_int_value(machine.read_console_switches(std::cin, bitmask));
         break;
     }
-- 
2.43.0


From 3259d5cc7879426332a8a12014b08f049fa00fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:25 +0000
Subject: [PATCH 34/43] fix: make room in the future list for any number of
 entries

A forward reference numbered more than 16 beyond the end of the future
list (many labels, the last of them met first) was written over the
constant list and the name list: jumps went astray or the compiler
refused the program.
---
 compiler/x1algc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index dd08853..249d557 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -1310,7 +1310,7 @@ Local Void fill_future_list(int place, int value)
     /*FU*/
     int i, FORLIM;
 
-    if (place >= klib) {
+    while (place >= klib) {
         if (nlib + nlsc + 16 >= plib)
             stop(6, "fill_future_list: Store capacity too small");
         FORLIM = klib;
-- 
2.43.0


From d0c368ec7746add1f152ad35192fb2052adab900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:20 +0000
Subject: [PATCH 35/43] fix: goto out of a procedure called from an actual
 parameter

The frames of the implicit subroutine and of the procedure that took the
parameter are not in the chain of frame pointers and were left on the
stack, together with a wrong stack base.
---
 simulator/opcodes.cpp   |  1 -
 simulator/processor.cpp | 28 ++++++++++++++--------------
 simulator/processor.h   |  5 ++++-
 3 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 37660fd..99ee814 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -234,7 +234,6 @@ bool Processor::call_opc(unsigned opc)
     case OPC_GTA:
         // goto adjustment
         // Exit to block level given in register B.
-        frame_ptr = last_frame_ptr;
         roll_back(display[core.B]);
         // Drop intermediate results of expressions left by the jump.
         if (stack.count() > stack_base) {
diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index 17c4d4d..c787d0e 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -388,7 +388,7 @@ void Processor::frame_create(unsigned ret_addr, unsigned num_args)
 
     // Default post-operation is to leave value on stack.
     eis_operation[stack_base] = Formal_Op::PUSH_VALUE;
-    last_frame_ptr = frame_ptr;
+    active_frames.push_back(frame_ptr);
 }
 
 //
@@ -406,10 +406,13 @@ unsigned Processor::frame_release()
     frame_ptr          = stack.get(frame_ptr + Frame_Offset::FP).get_addr();
     stack.erase(new_stack_ptr);
 
+    while (!active_frames.empty() && active_frames.back() >= new_stack_ptr) {
+        active_frames.pop_back();
+    }
+
     // Update display[BN...0] by unwinding stack.
     update_display(get_block_level(), frame_ptr);
 
-    last_frame_ptr = frame_ptr;
     return ret_addr;
 }
 
@@ -426,21 +429,18 @@ void Processor::allocate_stack(unsigned nwords)
 
 //
 // Roll stack back to the 'goto' frame.
+// Release the lowest frame above it, and everything on top of that.
 //
 void Processor::roll_back(unsigned goto_frame)
 {
-    unsigned fp = frame_ptr;
-    while (fp > 0) {
-        unsigned prev_fp = stack.get(fp + Frame_Offset::FP).get_addr();
-        if (prev_fp == goto_frame) {
-            frame_ptr = fp;
-            frame_release();
-            stack.pop();
-            return;
-        }
-        fp = prev_fp;
-    }
-    throw std::runtime_error("Cannot find goto frame");
+    auto const next =
+        std::upper_bound(active_frames.begin(), active_frames.end(), goto_frame);
+    if (next == active_frames.end()) {
+        throw std::runtime_error("Cannot find goto frame");
+    }
+    frame_ptr = *next;
+    frame_release();
+    stack.pop();
 }
 
 //
diff --git a/simulator/processor.h b/simulator/processor.h
index 64d316b..3100cdb 100644
--- a/simulator/processor.h
+++ b/simulator/processor.h
@@ -78,7 +78,10 @@ private:
 
     // Pointer to a procedure frame in stack.
     unsigned frame_ptr{};
-    unsigned last_frame_ptr{};
+
+    // Pointers to all active frames, those of implicit subroutines included,
+    // in order of creation.
+    std::vector<unsigned> active_frames;
 
     // Base of stack in current block.
     unsigned stack_base{};
-- 
2.43.0


From 5918b695ff7ad16205be65f2df32320a5ed6b821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:23 +0000
Subject: [PATCH 36/43] fix: a round shift does not shift once more

The order fell through to the clear shift.
---
 simulator/processor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index c787d0e..9150c8e 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -278,6 +278,7 @@ bool Processor::step()
             core.L = core.S & ONEBIT(26);
             break;
         }
+        break;
     }
 
     case 077'00: {
-- 
2.43.0


From 7a902497c7eae7da9a6a747537628cd034060acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:59 +0000
Subject: [PATCH 37/43] fix: a damaged line of an object file is reported

A line had only to begin like a word or an entry; the rest was ignored,
and addresses and words beyond the store were accepted.
---
 simulator/machine.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index 96eb50d..115744f 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -365,9 +365,14 @@ void Machine::load_object_program(const std::string &obj_filename)
             continue;
         }
 
+        // A line must match as a whole.
+        int end               = 0;
+        const auto whole_line = [&]() { return (size_t)end == line.size(); };
+
         char name[16];
         unsigned addr, value, a, b, c;
-        if (std::sscanf(line.c_str(), "%9s %u %u %u", name, &a, &b, &c) == 4) {
+        if (std::sscanf(line.c_str(), "%9s %u %u %u %n", name, &a, &b, &c, &end) == 4 &&
+            whole_line()) {
             //
             // Symbol definition, for example:
             // "A       00 00 02"
@@ -375,7 +380,8 @@ void Machine::load_object_program(const std::string &obj_filename)
             addr               = (a * 32 + b) * 32 + c;
             symbol_table[name] = addr;
 
-        } else if (std::sscanf(line.c_str(), "%u %u %u", &a, &b, &c) == 3) {
+        } else if (std::sscanf(line.c_str(), "%u %u %u %n", &a, &b, &c, &end) == 3 &&
+                   whole_line()) {
             //
             // Entry address, for example:
             // " 9 26  0"
@@ -383,7 +389,8 @@ void Machine::load_object_program(const std::string &obj_filename)
             addr = (a * 32 + b) * 32 + c;
             entry_table.push_back(addr);
 
-        } else if (std::sscanf(line.c_str(), "%u %u", &addr, &value) == 2) {
+        } else if (std::sscanf(line.c_str(), "%u %u %n", &addr, &value, &end) == 2 &&
+                   whole_line() && addr <= BITS(15) && value <= BITS(27)) {
             //
             // One word of object code, for example:
             // "10048       96"
-- 
2.43.0


From 88cc7ba00e72b333557fc8371db1fa63c679432a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:39 +0000
Subject: [PATCH 38/43] fix: the library assembler refuses operators and words
 out of range

---
 library/objfile.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/library/objfile.cc b/library/objfile.cc
index 6f1c84a..abcc916 100644
--- a/library/objfile.cc
+++ b/library/objfile.cc
@@ -10,6 +10,8 @@ const int d5 = 1 << 5;
 const int d10 = 1 << 10;
 const int d15 = 1 << 15;
 const int d12 = 1 << 12;
+const long max_opc = 112;           // the last code the loader knows
+const long max_word = (1L << 27) - 1;
 
 typedef void Void;
 int bitcount, bitstock;
@@ -452,17 +454,25 @@ int main(int argc, char*argv[]) {
             exit(EXIT_FAILURE);
         }
         char * end2;
-        int opc = (int)strtol(end1, &end2, 10); // OPC is always decimal
+        long opc = strtol(end1, &end2, 10); // OPC is always decimal
         if (end1 == end2) {
             printf("Line %d: missing OPC\n", lnum);
             exit(EXIT_FAILURE);
         }
-        int w = 0;
+        if (opc < 0 || opc > max_opc) {
+            printf("Line %d: no such OPC %ld\n", lnum, opc);
+            exit(EXIT_FAILURE);
+        }
+        long w = 0;
         if (opc < 8) {
             char * end3;
-            w = (int)strtol(end2, &end3, 0);
+            w = strtol(end2, &end3, 0);
             if (end2 == end3) {
-                printf("Line %d: OPC %d requires a word\n", lnum, opc);
+                printf("Line %d: OPC %ld requires a word\n", lnum, opc);
+                exit(EXIT_FAILURE);
+            }
+            if (w < 0 || w > max_word) {
+                printf("Line %d: not a 27-bit word\n", lnum);
                 exit(EXIT_FAILURE);
             }
         }
-- 
2.43.0


From 3260e33417b42be5074593b4cff3854b5c8816fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:41 +0000
Subject: [PATCH 39/43] fix: a library procedure longer than the room reserved
 for it is refused

---
 compiler/x1algc.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 249d557..6dbf206 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -3276,6 +3276,7 @@ Static Void program_loader()
     struct LOC_program_loader V;
     int i, j, idm;
     int mcp_count = 0;
+    int mcp_length[128] = { 0 }; /*room reserved for each MCP*/
     boolean use;
     int FORLIM;
 
@@ -3329,6 +3330,7 @@ Static Void program_loader()
                 mcp_count++;
             /*only secondary need*/
             store[mlib + i] = mcpe;
+            mcp_length[i]   = V.ll;
         }
         V.ll = read_crf_item(&V);
     }
@@ -3394,12 +3396,11 @@ Static Void program_loader()
                 printf("Bad MCP number %d\n", i);
                 exit(EXIT_FAILURE);
             }
-            // TODO: compare with the proper length in crf
-            if (V.ll == 0 || V.ll > 1024) {
+            V.list_address = Rstore(crfb + i);
+            if (V.ll == 0 || V.ll > 1024 || (V.list_address != 0 && V.ll > mcp_length[i])) {
                 printf("Bad MCP length %d\n", V.ll);
                 exit(EXIT_FAILURE);
             }
-            V.list_address = Rstore(crfb + i);
             if (V.list_address != 0) {
                 read_list(&V);
                 test_bit_stock();
-- 
2.43.0


From c67faf3f7dcd94aaa3026c335c22163b68fc8bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:31 +0000
Subject: [PATCH 40/43] fix: a Z behind the ninth character of an identifier
 belongs to it

---
 compiler/x1algc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 6dbf206..df93e67 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -544,7 +544,7 @@ Static Void read_until_next_delimiter()
                 marker = (fnw & (d6 - 1)) * d21;
                 fnw    = fnw / d6 + d21 * 63;
             }
-            while (dl < 62)
+            while (dl < 63)
                 read_next_symbol();
         }
         goto _L4;
-- 
2.43.0


From 6d2511d1526f18e97bc4d680c92e41f067519bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:09 +0000
Subject: [PATCH 41/43] fix: a literal too small for a real number is zero, not
 a large number

---
 compiler/x1algc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index df93e67..753e37a 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -665,6 +665,12 @@ _L3: /*float*/
     }
     if (bexp > 4095)
         stop(4, "Real too large");
+    if (bexp < 0) { /*too small for a real number: zero*/
+        inw   = 0;
+        fnw   = 0;
+        dflag = 0;
+        goto _L4;
+    }
     inw   = inw / 4096 * 4096 + bexp;
     dflag = 1;
 _L4:
-- 
2.43.0


From 8e28417a3f821e834a4d60c3bfd47277f31fb53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:59 +0000
Subject: [PATCH 42/43] fix: no access outside of the store for a wrong program
 that spoils the name of a library procedure

---
 compiler/x1algc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 753e37a..5abe5c3 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -3311,8 +3311,8 @@ Static Void program_loader()
         /*at least 5 letters or digits*/
         if (((idm / d15) & 1) == 0) { /*MCP is used*/
             mcp_count++;
-            store[mlib + ((store[flib + (idm & (d15 - 1))] - rlib) & (d15 - 1))] =
-                -(flib + (idm & (d15 - 1)));
+            Wstore(mlib + ((Rstore(flib + (idm & (d15 - 1))) - rlib) & (d15 - 1)),
+                   -(flib + (idm & (d15 - 1))));
         }
     }
     /*determine secondary need using the cross-reference list:*/
-- 
2.43.0


From 37000f53435a3855611f9715cc7d9bfcfc29a9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:01 +0000
Subject: [PATCH 43/43] fix: a wrong program that leads to an impossible
 machine word is refused

---
 compiler/x1algc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 5abe5c3..db8da27 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -3920,6 +3920,12 @@ int main(int argc, char *argv[])
 
     printf("\n\n\n");
     FORLIM = rlib + rlsc + klsc;
+    for (ii = mcpe; ii < FORLIM; ii++) {
+        if (store[ii] < 0 || store[ii] > 0777777777) {
+            printf("Word %d out of range at %d: incorrect program\n", store[ii], ii);
+            exit(EXIT_FAILURE);
+        }
+    }
     for (ii = mcpe; ii < FORLIM; ii++)
         printf("%5d%10d\n", ii, store[ii]);
     free(input_line);
-- 
2.43.0

