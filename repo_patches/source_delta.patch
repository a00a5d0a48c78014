From 031a46003dd61c99a333ad9827d469ec44e01c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 01/46] fix: splice/append of an empty or partial leading
 self-range must not be a no-op

---
 include/fu/vec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fu/vec.h b/include/fu/vec.h
index caacbdb..ed8fa05 100644
--- a/include/fu/vec.h
+++ b/include/fu/vec.h
@@ -961,7 +961,7 @@ struct fu_VEC
             MUT_mid(idx, del, src_size);
             CPY_ctor_range(new_data + idx, src_data, src_size);
         }
-        else if (idx || del != old_size || src_data != old_data) {
+        else if (idx || del != old_size || src_data != old_data || src_size != old_size) {
             UNSAFE__self_splice(
                 idx, del, src_data, src_size);
         }
@@ -1022,7 +1022,7 @@ struct fu_VEC
             MUT_back(del, src_size);
             CPY_ctor_range(new_data + idx, src_data, src_size);
         }
-        else if (del != old_size || src_data != old_data) {
+        else if (del != old_size || src_data != old_data || src_size != old_size) {
             UNSAFE__self_splice(
                 idx, del, src_data, src_size);
         }
-- 
2.43.0


From bb5df447a3d582993abd292a7cfec8ac9742cf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 02/46] fix: appending to a range with a deletion must delete
 the range's own tail

---
 include/fu/vec_range.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fu/vec_range.h b/include/fu/vec_range.h
index 212c733..89055a1 100644
--- a/include/fu/vec_range.h
+++ b/include/fu/vec_range.h
@@ -180,7 +180,7 @@ struct vec_range_mut
             del = del > old_size ? old_size : del;
 
         m_vec->splice(
-            Left() + old_size, del,
+            Left() + old_size - del, del,
             static_cast<fu::vec<T>&&>(src));
     }
 
@@ -205,7 +205,7 @@ struct vec_range_mut
             del = del > old_size ? old_size : del;
 
         m_vec->splice_copy(
-            Left() + old_size, del,
+            Left() + old_size - del, del,
             src_data,
             src_size);
     }
-- 
2.43.0


From 2de35cf7b1e17b75410060a9203c2bb96e4590b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 03/46] fix: printing large floats must not truncate or leak
 the terminator

---
 include/fu/decstr.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fu/decstr.cpp b/include/fu/decstr.cpp
index fbc31b8..9286da8 100644
--- a/include/fu/decstr.cpp
+++ b/include/fu/decstr.cpp
@@ -39,13 +39,13 @@ fu_EXPORT fu::str fu::i64dec(int64_t num)
 
 fu_EXPORT fu::str fu::f64dec(double num)
 {
-    char buffer[64];
-    int len = snprintf(buffer, 64, "%f", num);
+    char buffer[512]; // DBL_MAX needs 317.
+    int len = snprintf(buffer, sizeof(buffer), "%f", num);
 
     fu::str res;
     res.UNSAFE__init_copy(
         buffer,
-        len > 0 ? len < 64 ? len : 64 : 0);
+        len > 0 ? len < (int) sizeof(buffer) ? len : (int) sizeof(buffer) - 1 : 0);
 
     return res;
 }
-- 
2.43.0


From 8cebe4ed43e94093db4c9a6d29aa81d32de98f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 04/46] fix: out-of-range cursors must be clamped for the items
 being written too

---
 include/fu/vec.h | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/include/fu/vec.h b/include/fu/vec.h
index ed8fa05..a56822b 100644
--- a/include/fu/vec.h
+++ b/include/fu/vec.h
@@ -824,6 +824,24 @@ struct fu_VEC
     #define MUT_reserve(capa) MUT_op(false, false, true, Zero, Zero, Zero, Zero, capa)
 
 
+    // The splice itself clamps its cursors in release -
+    //  whatever we construct must land in the resulting gap.
+
+    template <typename I>
+    fu_INL static I UNSAFE__Clamp(I x, fu::i max) noexcept
+    {
+        if constexpr (fu_MAYBE_POS(x))
+        {
+            assert(x >= 0 && x <= max);
+            x = x > 0   ? x : I();
+            x = x < max ? x : max;
+        }
+
+        (void) max;
+        return x;
+    }
+
+
     //
     // Single insertion.
 
@@ -833,6 +851,7 @@ struct fu_VEC
 
     template <typename I>
     void insert(I i, T&& item) noexcept {
+        i = UNSAFE__Clamp(i, size());
         MUT_mid(i, Zero, One); MOV_ctor(new_data + i, item);
     }
 
@@ -884,7 +903,10 @@ struct fu_VEC
     }
 
     void pop() noexcept {
-        MUT_back(One, Zero);
+        assert(size() > 0);
+        if (size()) {
+            MUT_back(One, Zero);
+        }
     }
 
     template <typename I, typename D>
@@ -894,12 +916,16 @@ struct fu_VEC
 
     template <bool ZERO_FILL = true, typename I, typename D, typename C>
     void splice_empty(I idx, D del, C count) noexcept {
+        idx = UNSAFE__Clamp(idx, size());
         MUT_mid(idx, del, count);
         DEF_initRange<ZERO_FILL>(new_data + idx, new_data + idx + count);
     }
 
     void shift() noexcept {
-        MUT_front(One, Zero);
+        assert(size() > 0);
+        if (size()) {
+            MUT_front(One, Zero);
+        }
     }
 
     void shift(fu::i shift) noexcept {
@@ -922,6 +948,7 @@ struct fu_VEC
         T*    src_data = (T*) src.data();
         fu::i src_size =      src.size();
 
+        idx = UNSAFE__Clamp(idx, size());
         MUT_mid(idx, del, src_size);
 
         // Copy paste splice/append.
@@ -957,6 +984,9 @@ struct fu_VEC
         const T*  old_data = data();
               fu::i old_size = size();
 
+        idx = UNSAFE__Clamp(idx, old_size);
+        del = UNSAFE__Clamp(del, old_size - idx);
+
         if (src_data < old_data || src_data > old_data + old_size) {
             MUT_mid(idx, del, src_size);
             CPY_ctor_range(new_data + idx, src_data, src_size);
@@ -979,6 +1009,7 @@ struct fu_VEC
         const T*    src_data = src.data();
               fu::i src_size = src.size();
 
+        del = UNSAFE__Clamp(del, size());
         MUT_back(del, src_size);
 
         fu::i idx = old_size - del;
@@ -1016,6 +1047,7 @@ struct fu_VEC
         const T*    old_data = data();
               fu::i old_size = size();
 
+        del = UNSAFE__Clamp(del, old_size);
         fu::i idx = old_size - del;
 
         if (src_data < old_data || src_data > old_data + old_size) {
-- 
2.43.0


From 2d786687212d72ef3b34bac8432bcd28a1f3068f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 05/46] fix: a uniquely held block may be reclaimed only after
 acquiring the other holders' releases

fu_ARC::unique() was a relaxed load: the thread reclaiming a block in place
was not ordered after the last reads of the thread which let go of it.
---
 include/fu/mem/arc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fu/mem/arc.h b/include/fu/mem/arc.h
index dcd15fa..577c8a3 100644
--- a/include/fu/mem/arc.h
+++ b/include/fu/mem/arc.h
@@ -56,7 +56,7 @@ struct alignas(16) fu_ARC
 
     fu_INL bool unique() const noexcept {
         return 0 == m_arc.load(
-            std::memory_order_relaxed );
+            std::memory_order_acquire );
     }
 };
 
-- 
2.43.0


From 9087e0c0427e7652234a528f8398950581384891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 06/46] fix: a popper's stale read of a reused node must not
 abort debug builds

try_pop reads node->next before it knows whether it still owns the node,
the compare-exchange throws stale values away, but the assertion in tag() fired first.
---
 include/lockfree/stack.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/lockfree/stack.hpp b/include/lockfree/stack.hpp
index 7706349..b3bee00 100644
--- a/include/lockfree/stack.hpp
+++ b/include/lockfree/stack.hpp
@@ -36,9 +36,9 @@ namespace lockfree
             //  ours are 44bit because 16-byte align,
             //   so we use the rest for a u20 ABA tag.
 
-                                            //            ####    ####
-            assert(!(u64(ptr) & ~PTR_4x));  // e.g. 0x0000fffffffffff0
-                                            //        ####    ####
+            // NOTE try_pop can get here with garbage -
+            //  the .next of a node that somebody else has already popped and reused,
+            //   the CAS discards it - so only push can validate its pointers.
 
             return  (u64(ptr)    >>     ALIGN_BITS)
                  | ((lastID + 1) << (48-ALIGN_BITS));
@@ -74,6 +74,9 @@ namespace lockfree
 
                 const u64 state1 = tag(first, tagof(state0));
 
+                                                //            ####    ####
+                assert(!(u64(first) & ~PTR_4x));// e.g. 0x0000fffffffffff0
+                                                //        ####    ####
                 assert(untag(state1) == first);
 
                 if (!head.compare_exchange_weak(
-- 
2.43.0


From 8c85ecf6cdb5ceb9e7c7110797b1c565bf833535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 07/46] fix: a missing library must not swap back the version
 loaded first

When the rename before a reload fails, dlopen of the same name returns the handle
of the first version ever loaded, and every slot went back to it.
---
 include/dl/hotswap.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dl/hotswap.cpp b/include/dl/hotswap.cpp
index 2d1f938..f47a0f8 100644
--- a/include/dl/hotswap.cpp
+++ b/include/dl/hotswap.cpp
@@ -158,7 +158,9 @@ namespace
                     if (FU_VERBOSE)
                         printf("HOTSWAP Cannot rename `%s` to `%s`: %i\n", ld.abs_path, tempname, errno);
 
-                    goto OpenWithoutRenaming;
+                    // We already have a handle for this name,
+                    //  dlopen would give us back the lib we loaded first, not the latest.
+                    goto Done;
                 }
 
                 new_handle = dlopen(tempname, RTLD_NOW);
@@ -168,7 +170,6 @@ namespace
             }
             #endif //fu_HOTSWAP_use_rename_hack
 
-            OpenWithoutRenaming:
             new_handle = dlopen(ld.filename, RTLD_NOW);
 
             #ifdef __linux__
-- 
2.43.0


From e2627bfc0605b56cdafa6ceecd37bd54461f8d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 08/46] fix: running out of memory must exit with BadAlloc, not
 hand out a null block

---
 include/fu/mem/arc.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fu/mem/arc.cpp b/include/fu/mem/arc.cpp
index ab0d7cf..900b4f8 100644
--- a/include/fu/mem/arc.cpp
+++ b/include/fu/mem/arc.cpp
@@ -41,6 +41,8 @@ static inline char* fu_POW2MEM_ALLOC(size_t& bytes) noexcept
     bytes = fu_POW2MEM_RoundUp(bytes);
 
     char* memory = (char*) std::malloc(bytes);
+    if (!memory)
+        std::exit(fu_EXIT_BadAlloc);
 
     #ifndef NDEBUG
     {
-- 
2.43.0


From 3e3ffd763fdeaf2e2eecc26b0c62279dbd8e600b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:55 +0000
Subject: [PATCH 09/46] fix: a negated negation must not be emitted as a
 decrement

---
 src/codegen.fu     | 8 +++++++-
 src/codegen.fu.cpp | 6 +++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/codegen.fu b/src/codegen.fu
index 7bf49d2..b125860 100644
--- a/src/codegen.fu
+++ b/src/codegen.fu
@@ -2523,7 +2523,13 @@ pub fn cpp_codegen(
 
         fn emitPrefixOp(op: string)
         {
-            return unpromote(op ~ ARG_orZeroIfVoid(0));
+            let arg = ARG_orZeroIfVoid(0);
+
+            // Otherwise -(-x) is emitted as --x.
+            if ((op == "-" || op == "+") && arg[0] == op[0])
+                return unpromote(op ~ " " ~ arg);
+
+            return unpromote(op ~ arg);
         }
 
         fn emitBinaryOp(op: string)
diff --git a/src/codegen.fu.cpp b/src/codegen.fu.cpp
index 34bcc4f..06aa19c 100644
--- a/src/codegen.fu.cpp
+++ b/src/codegen.fu.cpp
@@ -4077,7 +4077,11 @@ static fu::str cgEnumv_9UkF6RtP(const s_Type& type, fu::view<char> id, s_Outputs
 
 static fu::str emitPrefixOp_SXNesK7s(fu::view<char> op, const s_SolvedNode& node, const bool isNative, fu::view_mut<fu::str> item_src, s_Outputs& outputs, s_cg_CurrentFn& _current_fn, s_TokenIdx& _here, const s_Context& ctx, const s_Module& module, const s_Options& options)
 {
-    return unpromote_SD7gweiB((op + ARG_Cxujcevn(0, item_src)), node, isNative, outputs, _current_fn, _here, ctx, module, options);
+    fu::str arg { ARG_Cxujcevn(0, item_src) };
+    if (((op == "-"_view) || (op == "+"_view)) && (arg[0] == op[0]))
+        return unpromote_SD7gweiB(((op + " "_fu) + arg), node, isNative, outputs, _current_fn, _here, ctx, module, options);
+
+    return unpromote_SD7gweiB((op + arg), node, isNative, outputs, _current_fn, _here, ctx, module, options);
 }
 
 inline static fu::str l_40_10_WQCvhlPe(const s_SolvedNode& x)
-- 
2.43.0


From fd4102f6ef268f3ae9608479dd928ab9af3eddb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:53 +0000
Subject: [PATCH 10/46] fix: a by-value argument used in a loop must not be
 moved out of on the first iteration

---
 src/solver.fu     | 15 ++++++++++-----
 src/solver.fu.cpp |  6 +++++-
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/solver.fu b/src/solver.fu
index 6b36edf..024eb9d 100644
--- a/src/solver.fu
+++ b/src/solver.fu
@@ -4079,11 +4079,16 @@ pub fn solve(
                     if (letNode.is_ref)
                     {
                         if (isArg)
-                            return !o.isMutVal && UsedAgain(:locid, "ArgReference");
-
-                        let usedAgain = descend(Lifetime_climbType(t).lifetime, :bitset);
-                        if (usedAgain)
-                            return usedAgain;
+                        {
+                            if (!o.isMutVal)
+                                return UsedAgain(:locid, "ArgReference");
+                        }
+                        else
+                        {
+                            let usedAgain = descend(Lifetime_climbType(t).lifetime, :bitset);
+                            if (usedAgain)
+                                return usedAgain;
+                        }
                     }
                     else if (isArg)
                     {
diff --git a/src/solver.fu.cpp b/src/solver.fu.cpp
index f9b7d35..bf02838 100644
--- a/src/solver.fu.cpp
+++ b/src/solver.fu.cpp
@@ -7502,7 +7502,11 @@ static bool trackUse_e2Y0z1WC(const s_Target& t, s_BitSet& bitset, const s_Solve
         if (is_ref_gBx1AgSx(letNode.type))
         {
             if (isArg_GtNDTeV7(o))
-                return isMutVal_x3AUdppB(o);
+            {
+                if (!isMutVal_x3AUdppB(o))
+                    return false;
+
+            }
             else if (!trackUse_okCzYN3G(Lifetime_climbType_426itOgG(o, ss, _helpers, _here, ctx, module).lifetime, bitset, ss, _current_fn, _helpers, _here, ctx, module))
                 return false;
 
-- 
2.43.0


From bd3a4d844aa1b1e1a015baf331b6ff824bb9382f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:52 +0000
Subject: [PATCH 11/46] fix: small vecs must not be miscompiled under strict
 aliasing

---
 include/fu/inl.h | 6 ++++++
 include/fu/vec.h | 4 +++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/fu/inl.h b/include/fu/inl.h
index b4f08d4..f49ac9e 100644
--- a/include/fu/inl.h
+++ b/include/fu/inl.h
@@ -11,3 +11,9 @@
 #else
     #define fu_NEVER_INLINE __attribute__((noinline))
 #endif
+
+#ifdef _MSC_VER
+    #define fu_MAY_ALIAS
+#else
+    #define fu_MAY_ALIAS __attribute__((__may_alias__))
+#endif
diff --git a/include/fu/vec.h b/include/fu/vec.h
index a56822b..799551e 100644
--- a/include/fu/vec.h
+++ b/include/fu/vec.h
@@ -14,8 +14,10 @@ namespace fu {
 
 #define fu_VEC vec
 
+// Small vecs keep their items in place of data, size & capa,
+//  so the same memory is written as T-s and copied, moved & reset as a whole.
 template <typename T>
-struct fu_VEC
+struct fu_MAY_ALIAS fu_VEC
 {
     typedef T value_type;
     typedef T fu_ANY_value_type;
-- 
2.43.0


From 08f50aed8428f86b2f166fb548c33fbbe957bd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:52 +0000
Subject: [PATCH 12/46] fix: a local used twice in an array literal must be
 moved by its last use, not its first

---
 src/solver.fu     | 3 ++-
 src/solver.fu.cpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/solver.fu b/src/solver.fu
index 024eb9d..bc859b0 100644
--- a/src/solver.fu
+++ b/src/solver.fu
@@ -5119,7 +5119,8 @@ pub fn solve(
                 for (mut i = 0; i < items.len; i++)
                     maybeCopyOrMove(items[i], itemSlot);
 
-            for (mut i = 0; i < items.len; i++)
+            // MOVE ON LAST USE, so last to first.
+            for (mut i = items.len; i --> 0; )
                 propagateType(items[i], :relax_mask,
                     slot: itemSlot);
         }
diff --git a/src/solver.fu.cpp b/src/solver.fu.cpp
index bf02838..bef82b5 100644
--- a/src/solver.fu.cpp
+++ b/src/solver.fu.cpp
@@ -12589,7 +12589,7 @@ static void propagateType_pH8jMqgi(s_SolvedNode& node, const s_Type& slot, const
                         (_7 = &(items.mutref(i)), maybeCopyOrMove_9xQ8JW0m(*_7, itemSlot, false, (*(const fu::str*)fu::NIL), ss, _helpers, _here, ctx, module));
                     };
                 };
-                for (int i = 0; i < items.size(); i++)
+                for (int i = items.size(); i-- > 0; )
                 {
                     propagateType_pH8jMqgi(items.mutref(i), itemSlot, relax_mask, s_Helpers{}, ss, _notes, _current_fn, _helpers, _here, ctx, module, options);
                 };
-- 
2.43.0


From ddf90b87423c955f9ddece574e58bc9c45cdbe93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:06 +0000
Subject: [PATCH 13/46] fix: assigning a vec to itself must not abort debug
 builds

---
 include/fu/vec.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/fu/vec.h b/include/fu/vec.h
index 799551e..448de7c 100644
--- a/include/fu/vec.h
+++ b/include/fu/vec.h
@@ -349,7 +349,6 @@ struct fu_MAY_ALIAS fu_VEC
     fu_INL fu_VEC& operator=(const fu_VEC& c) noexcept
     {
         static_assert(COPIABLE, "Cannot copy fu_VECs of non-copiable types.");
-        assert(this != &c);
         return *this = fu_VEC(c);
     }
 
-- 
2.43.0


From ded76a0f9bfd5f8fc1b1d416f43517e8ca6b9584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:31 +0000
Subject: [PATCH 14/46] fix: pushing or inserting a vec's own item must not
 read it after it has moved

---
 include/fu/vec.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fu/vec.h b/include/fu/vec.h
index 448de7c..c43fd08 100644
--- a/include/fu/vec.h
+++ b/include/fu/vec.h
@@ -862,16 +862,16 @@ struct fu_MAY_ALIAS fu_VEC
 
 #ifdef TODO_FIX_REMOVE_copying_push
     void push(const T& item) noexcept {
-        MUT_back(Zero, One); CPY_ctor(new_data + old_size, item);
+        push(T(item)); // Copy first: the item could be ours, about to be shifted or freed.
     }
 
     template <typename I>
     void insert(I i, const T& item) noexcept {
-        MUT_mid(i, Zero, One); CPY_ctor(new_data + i, item);
+        insert(i, T(item));
     }
 
     void unshift(const T& item) noexcept {
-        MUT_front(Zero, One); CPY_ctor(new_data, item);
+        unshift(T(item));
     }
 #endif
 
-- 
2.43.0


From abdf202b99f8673c4faa8950f8eb58be7b2db12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:36 +0000
Subject: [PATCH 15/46] fix: a no-op splice of a shared vec must not hand out a
 null pointer

---
 include/fu/vec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fu/vec.h b/include/fu/vec.h
index c43fd08..6758964 100644
--- a/include/fu/vec.h
+++ b/include/fu/vec.h
@@ -531,7 +531,7 @@ struct fu_MAY_ALIAS fu_VEC
                                          || del == 0))
                         {
                             big.size = new_size;
-                            return nullptr;
+                            return old_data;
                         }
                     }
                 }
@@ -548,7 +548,7 @@ struct fu_MAY_ALIAS fu_VEC
                 if constexpr (!is_Init && !is_Clear && !is_Reserve)
                 {
                     if (del + pop + insert + push == 0)
-                        return nullptr;
+                        return old_data;
                 }
             }
         }
-- 
2.43.0


From f28d7118d9ed878a26bc07c0932861b488da8b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:33 +0000
Subject: [PATCH 16/46] fix: debug-fill of an empty vec range must not offset a
 null pointer

---
 include/fu/vec.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/fu/vec.h b/include/fu/vec.h
index 6758964..c883fe0 100644
--- a/include/fu/vec.h
+++ b/include/fu/vec.h
@@ -775,10 +775,8 @@ struct fu_MAY_ALIAS fu_VEC
             //   to get some extra noises going.
             char* p0 = (char*)start;
             char* p1 = (char*)end;
-            char* pN = p0 + 256;
-
-            p1  = p1 < pN
-                ? p1 : pN;
+            p1  = p1 - p0 < 256
+                ? p1 : p0 + 256;
 
             for (char* i = p0; i < p1; i++)
                 *i = (char) (uintptr_t) i;
-- 
2.43.0


From 31c92277ed9ffd554dfebab2206db2e255fdbc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:33 +0000
Subject: [PATCH 17/46] fix: splicing at the very end of a vec is not out of
 bounds

---
 include/fu/vec_range.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fu/vec_range.h b/include/fu/vec_range.h
index 89055a1..3868f22 100644
--- a/include/fu/vec_range.h
+++ b/include/fu/vec_range.h
@@ -117,7 +117,7 @@ struct vec_range_mut
     {
         const auto old_size = size();
 
-        assert((fu::u) idx <  (fu::u) old_size
+        assert((fu::u) idx <= (fu::u) old_size
             && (fu::u) del <= (fu::u)(old_size - idx));
 
         // Sanitize.
@@ -142,7 +142,7 @@ struct vec_range_mut
     {
         const auto old_size = size();
 
-        assert((fu::u) idx <  (fu::u) old_size
+        assert((fu::u) idx <= (fu::u) old_size
             && (fu::u) del <= (fu::u)(old_size - idx));
 
         // Sanitize.
@@ -345,7 +345,7 @@ struct vec_range_mut
 
         if constexpr (fu_MAYBE_POS(idx))
         {
-            assert(idx >= 0 && idx < old_size);
+            assert(idx >= 0 && idx <= old_size);
             idx = idx > 0 ? idx : 0;
             idx = idx < old_size ? idx : old_size;
         }
-- 
2.43.0


From 75f330bb4de6cf302e3e0ba33a17e003c93dd9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:33 +0000
Subject: [PATCH 18/46] fix: borrow check must not forget what happened before
 a conditional jump

---
 src/solver.fu     | 19 ++++++++++++++++++-
 src/solver.fu.cpp | 13 +++++++++++++
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/solver.fu b/src/solver.fu
index bc859b0..8a4bc76 100644
--- a/src/solver.fu
+++ b/src/solver.fu
@@ -11581,7 +11581,7 @@ pub fn solve(
                         }
 
                         fail("Ambiguous ||, incompatible operands in a non-bool context: "
-                            ~ explainTypeDiff(item.type, sumType, sep: " || "));
+                            ~ explainTypeDiff(items[i].type, sumType, sep: " || "));
                     };
                 }
                 else
@@ -14424,8 +14424,18 @@ pub fn solve(
 
             bck_node(items[0]);
 
+            mut e_Merge_AfterCond: EventsSnap;
             for (mut i = 1; i < items.len; i++)
+            {
                 bck_node(items[i]);
+                if (i == LOOP_PRE_COND)
+                    e_Merge_AfterCond = _current_fn.events.snap;
+            }
+
+            // We leave the loop either when done with the body, without ever entering it,
+            //  or by breaking from it, and jumps forget what happened before them.
+            _current_fn.events.Events_merge(e_Merge_AfterCond);
+            _current_fn.events.Events_merge(node.helpers.postevt);
 
             // Postdom.
             let read_loop_start =
@@ -14480,8 +14490,15 @@ pub fn solve(
             for (mut i = 0; i < items.len; i++)
             {
                 ref expr = items[i];
+
+                // Everything past the first item is conditional,
+                //  a jump in there must not hide the events before it.
+                let e_Merge_Skipped = i ? _current_fn.events.snap : [];
+
                 bck_node(expr);
 
+                _current_fn.events.Events_merge(e_Merge_Skipped);
+
                 let ae_expr = tryAbstractEvalAsBool(expr, voidOk: i == items.len - 1);
                 if (ae_expr)
                 {
diff --git a/src/solver.fu.cpp b/src/solver.fu.cpp
index bef82b5..403e4fb 100644
--- a/src/solver.fu.cpp
+++ b/src/solver.fu.cpp
@@ -295,6 +295,7 @@ static void SS_HOIST_returned_locals_ACsQmzEi(const s_Lifetime&, s_SolverState&,
 s_Lifetime Lifetime_AAR_KIn2aDsn(int, const s_TokenIdx&, const s_Context&);
 void clear_gNKGEQWi(s_BitSet&);
 static bool RESOLVE_byAAR_Fzey23bc(int, int, bool, s_BorrowCheckPass, const s_SolverState&, s_CurrentFn&, fu::view<s_Helpers>, const s_TokenIdx&, const s_Context&, const s_Module&);
+static void Events_merge_xuxXaEiE(s_EventsSnap&, const s_EventsSnap&);
 static void bck_node_etixA00n(s_SolvedNode&, const s_SolvedNode&, s_BorrowCheckPass, s_SolverState&, s_SolverNotes&, s_CurrentFn&, fu::view<s_Helpers>, s_TokenIdx&, const s_Context&, const s_Module&, const s_Options&);
 bool Lifetime_hasInter_lYlULmp8(const s_Lifetime&, const s_Lifetime&, const s_TokenIdx&, const s_Context&);
 fu::vec<int> Lifetime_interLocids_lYlULmp8(const s_Lifetime&, const s_Lifetime&, const s_TokenIdx&, const s_Context&);
@@ -14609,11 +14610,21 @@ static void bck_loop_OdwYHMY5(s_SolvedNode& node, const s_SolvedNode& root, cons
     fu::view_mut<s_SolvedNode> items = node.items;
     s_SolvedNode* _0;
     (_0 = &(items.mutref(0)), bck_node_etixA00n(*_0, root, pass, ss, _notes, _current_fn, _helpers, _here, ctx, module, options));
+    s_EventsSnap e_Merge_AfterCond {};
     for (int i = 1; i < items.size(); i++)
     {
         s_SolvedNode* _1;
         (_1 = &(items.mutref(i)), bck_node_etixA00n(*_1, root, pass, ss, _notes, _current_fn, _helpers, _here, ctx, module, options));
+        if (i == LOOP_PRE_COND)
+            e_Merge_AfterCond = s_EventsSnap(_current_fn.events.snap);
     };
+    Events_merge_xuxXaEiE(_current_fn.events.snap, e_Merge_AfterCond);
+    const s_HelpersData* BL_4_v;
+    Events_merge_xuxXaEiE(_current_fn.events.snap, (__extension__ (
+    {
+        const s_Helpers& h = node.helpers;
+        BL_4_v = &((((h.index >= 0) && (h.index < ss._helpers_data.size())) ? ss._helpers_data[h.index] : BUG_9SZtRVJ0("Helpers.GET: h.index is oob"_fu, _here, ctx)));
+    (void)0;}), *BL_4_v).postevt);
     const s_HelpersData* BL_3_v;
     int _2 {};
     const int parent_loop_start = ((_2 = (__extension__ (
@@ -15095,7 +15106,9 @@ static void bck_and_or_dHBfSNRI(s_SolvedNode& node, const s_SolvedNode& root, co
     for (int i = 0; i < items.size(); i++)
     {
         s_SolvedNode& expr = items.mutref(i);
+        s_EventsSnap e_Merge_Skipped { (i ? _current_fn.events.snap : (*(const s_EventsSnap*)fu::NIL)) };
         bck_node_etixA00n(expr, root, pass, ss, _notes, _current_fn, _helpers, _here, ctx, module, options);
+        Events_merge_xuxXaEiE(_current_fn.events.snap, e_Merge_Skipped);
         const s_StaticEval ae_expr = tryAbstractEvalAsBool_JCuol0P9(expr, (i == (items.size() - 1)), ss, _current_fn, _helpers, _here, ctx, module);
         if (ae_expr)
         {
-- 
2.43.0


From c6e6b9bcdd04a170344deb48affabae6a2f2d181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:33 +0000
Subject: [PATCH 19/46] fix: what precedes a jump out of a try can still end up
 in the catch

---
 src/solver.fu     | 50 ++++++++++++++++++++++++++++++++++++++++++++++-
 src/solver.fu.cpp | 25 +++++++++++++++++++++++-
 2 files changed, 73 insertions(+), 2 deletions(-)

diff --git a/src/solver.fu b/src/solver.fu
index 8a4bc76..330a416 100644
--- a/src/solver.fu
+++ b/src/solver.fu
@@ -365,6 +365,12 @@ pub fn solve(
 
         //
         TODO_FIX_bckCantDealWithNestedDefers?: i32;
+
+        // What follows if the try body being relaxed throws.
+        postdom_at_catch?:  Postdom;
+
+        // What happened before the jumps out of the try body being checked.
+        events_before_try_jumps?: EventsSnap;
     };
 
     mut _current_fn:        CurrentFn;
@@ -4515,6 +4521,10 @@ pub fn solve(
 
             discardType(recover, :relax_mask);
 
+            // Jumps out of the try body should not forget about the catch.
+            let postdom_at_catch0 = _current_fn.postdom_at_catch;
+            _current_fn.postdom_at_catch = _current_fn.postdom;
+
             // The catch is conditional -
             //  only executes if try block throws.
             _current_fn.postdom.branch(postdom0);
@@ -4530,6 +4540,8 @@ pub fn solve(
             discardType(attempt, :relax_mask);
             _current_fn.TODO_FIX_catches--;
 
+            _current_fn.postdom_at_catch = postdom_at_catch0;
+
             // Drop the whole catch if possible,
             // TODO FIX this defeats relaxing the catch & err parts first.
             if !(_current_fn.fx_mask & Fx_Throws)
@@ -5162,6 +5174,13 @@ pub fn solve(
                             ? XP_EmptyReturn
                             : XP_NonEmptyReturn;
                 }
+
+                // Anything before the jump can still throw.
+                if (_current_fn.TODO_FIX_catches)
+                {
+                    _current_fn.postdom.branch(_current_fn.postdom_at_catch);
+                    _current_fn.read_loop_start = read_loop0;
+                }
             }
 
             //
@@ -14606,6 +14625,29 @@ pub fn solve(
         }
 
 
+        fn bck_try(ref node: SolvedNode)
+        {
+            ref items = node.items;
+
+            let e_BeforeJumps0 = _current_fn.events_before_try_jumps;
+            _current_fn.events_before_try_jumps = [];
+
+            bck_node(items[0]);
+
+            // The catch is reachable from anywhere in the body,
+            //  including from before the jumps that leave it.
+            let e_Merge_AfterBody = _current_fn.events.snap;
+
+            _current_fn.events.Events_merge(_current_fn.events_before_try_jumps);
+            _current_fn.events_before_try_jumps = e_BeforeJumps0;
+
+            for (mut i = 1; i < items.len; i++)
+                bck_node(items[i]);
+
+            _current_fn.events.Events_merge(e_Merge_AfterBody);
+        }
+
+
         // Borrow check router.
 
         fn bck_node(ref node: SolvedNode)
@@ -14649,6 +14691,11 @@ pub fn solve(
                 // Previously below with blocks, now also abstract eval.
                 bck_not(node);
             }
+            else if (k == "try")
+            {
+                // Combine effects of body and catch.
+                bck_try(node);
+            }
             else if (k == "block")
             {
                 // TODO If broken-from, hide effects and append to jumped-to.
@@ -14656,7 +14703,6 @@ pub fn solve(
             }
             else if (k == "root"
                   || k == "jump"
-                  || k == "try"
 
                   || k == "copy" || k == "move" // TODO shouldn't occur before bck
                   || k == "arrlit")             // TODO get rid of arrlits
@@ -14674,6 +14720,8 @@ pub fn solve(
                     else
                         node.helpers.postevt = _current_fn.events.snap;
 
+                    Events_merge(_current_fn.events_before_try_jumps, _current_fn.events);
+
                     if (!_current_fn.TODO_FIX_bckCantDealWithNestedDefers)
                         _current_fn.events.Events_restore(
                             [], :node.helpers.postdom.write_loop_start || BUG(
diff --git a/src/solver.fu.cpp b/src/solver.fu.cpp
index 403e4fb..2e69392 100644
--- a/src/solver.fu.cpp
+++ b/src/solver.fu.cpp
@@ -2029,6 +2029,8 @@ struct s_CurrentFn
     int TODO_FIX_unique;
     s_RevSpecPrototype rev_spec_proto;
     int TODO_FIX_bckCantDealWithNestedDefers;
+    s_Postdom postdom_at_catch;
+    s_EventsSnap events_before_try_jumps;
     explicit operator bool() const noexcept
     {
         return false
@@ -12154,6 +12156,8 @@ static void propagateType_pH8jMqgi(s_SolvedNode& node, const s_Type& slot, const
         {
             s_Postdom postdom0 { _current_fn.postdom };
             propagateType_pH8jMqgi(recover_NYvFEHIv(node), t_void, relax_mask, s_Helpers{}, ss, _notes, _current_fn, _helpers, _here, ctx, module, options);
+            s_Postdom postdom_at_catch0 { _current_fn.postdom_at_catch };
+            _current_fn.postdom_at_catch = s_Postdom(_current_fn.postdom);
             branch_RQi5rqrx(_current_fn.postdom, postdom0, _here, ctx);
             propagateType_pH8jMqgi(error_EKx4MtAM(node), t_string, relax_mask, s_Helpers{}, ss, _notes, _current_fn, _helpers, _here, ctx, module, options);
             const s_FxMask throws0 = s_FxMask((_current_fn.effects.fx_mask & s_FxMask_Fx_Throws));
@@ -12161,6 +12165,7 @@ static void propagateType_pH8jMqgi(s_SolvedNode& node, const s_Type& slot, const
             _current_fn.TODO_FIX_catches++;
             propagateType_pH8jMqgi(attempt_Bx7H3IEg(node), t_void, relax_mask, s_Helpers{}, ss, _notes, _current_fn, _helpers, _here, ctx, module, options);
             _current_fn.TODO_FIX_catches--;
+            _current_fn.postdom_at_catch = s_Postdom(postdom_at_catch0);
             if (!s_FxMask((_current_fn.effects.fx_mask & s_FxMask_Fx_Throws)))
             {
 
@@ -12645,6 +12650,9 @@ static void propagateType_pH8jMqgi(s_SolvedNode& node, const s_Type& slot, const
                         const s_kind kind = expr.kind;
                         _current_fn.postdom.snap.exitPaths = (((kind == s_kind_empty) || (kind == s_kind_definit)) ? s_ExitPaths_XP_EmptyReturn : s_ExitPaths_XP_NonEmptyReturn);
                     };
+                    if (_current_fn.TODO_FIX_catches)
+                        branch_RQi5rqrx(_current_fn.postdom, _current_fn.postdom_at_catch, _here, ctx);
+
                 };
                 const bool redundant = (kills ? (kills.index <= h.index) : false);
                 const s_Helpers& kills_1 = (redundant ? kills : h);
@@ -15223,7 +15231,21 @@ static void bck_node_etixA00n(s_SolvedNode& node, const s_SolvedNode& root, cons
         bck_not_bMZyjOWP(node, root, pass, ss, _notes, _current_fn, _helpers, _here, ctx, module, options);
     else if (k == s_kind_block)
         bck_block_NxRB6v1q(node, root, pass, ss, _notes, _current_fn, _helpers, _here, ctx, module, options);
-    else if ((k == s_kind_root) || (k == s_kind_jump) || (k == s_kind_try) || (k == s_kind_copy) || (k == s_kind_move) || (k == s_kind_arrlit))
+    else if (k == s_kind_try)
+    {
+        fu::view_mut<s_SolvedNode> items = node.items;
+        s_EventsSnap e_BeforeJumps0 { _current_fn.events_before_try_jumps };
+        _current_fn.events_before_try_jumps = s_EventsSnap{};
+        bck_node_etixA00n(items.mutref(0), root, pass, ss, _notes, _current_fn, _helpers, _here, ctx, module, options);
+        s_EventsSnap e_Merge_AfterBody { _current_fn.events.snap };
+        Events_merge_xuxXaEiE(_current_fn.events.snap, _current_fn.events_before_try_jumps);
+        _current_fn.events_before_try_jumps = s_EventsSnap(e_BeforeJumps0);
+        for (int i = 1; i < items.size(); i++)
+            bck_node_etixA00n(items.mutref(i), root, pass, ss, _notes, _current_fn, _helpers, _here, ctx, module, options);
+
+        Events_merge_xuxXaEiE(_current_fn.events.snap, e_Merge_AfterBody);
+    }
+    else if ((k == s_kind_root) || (k == s_kind_jump) || (k == s_kind_copy) || (k == s_kind_move) || (k == s_kind_arrlit))
     {
         fu::view_mut<s_SolvedNode> items = node.items;
         for (int i = 0; i < items.size(); i++)
@@ -15256,6 +15278,7 @@ static void bck_node_etixA00n(s_SolvedNode& node, const s_SolvedNode& root, cons
                     BL_17_v = &((((h.index >= 0) && (h.index < ss._helpers_data.size())) ? ss._helpers_data.mutref(h.index) : BUG_9SZtRVJ0("Helpers.GET: h.index is oob"_fu, _here, ctx)));
                 (void)0;}), *BL_17_v).postevt = s_EventsSnap(_current_fn.events.snap);
             };
+            Events_merge_xuxXaEiE(_current_fn.events_before_try_jumps, _current_fn.events.snap);
             if (!_current_fn.TODO_FIX_bckCantDealWithNestedDefers)
             {
                 const s_HelpersData* BL_19_v;
-- 
2.43.0


From e7f97dd23d149def43675851637349fb87183653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:33 +0000
Subject: [PATCH 20/46] fix: MAX of u64 and u128 is not that of u32

---
 src/prelude.fu     | 2 +-
 src/prelude.fu.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/prelude.fu b/src/prelude.fu
index 1126483..09a9a10 100644
--- a/src/prelude.fu
+++ b/src/prelude.fu
@@ -121,7 +121,7 @@ fn MAX(type <T>)
     case (T -> i16)        32767;
     case (T -> i32)        2147483647;
     case (T -> i64)        9223372036854775807;
-    case (T.is::unsigned)  T(-1);
+    case (T.is::unsigned)  ~T(0);
 
 type  int   = i32; // These may become separate types
 type uint   = u32; //  with a user-selectable size.
diff --git a/src/prelude.fu.cpp b/src/prelude.fu.cpp
index 5ec01dc..46cded4 100644
--- a/src/prelude.fu.cpp
+++ b/src/prelude.fu.cpp
@@ -1349,7 +1349,7 @@ inline s_Module clone_G5fNGz6v(const s_Module& a)
 }
                                 #endif
 
-static const fu::str PRELUDE_SRC fu_INIT_PRIORITY(1011) = "\n\n\n// Arithmetics.\n\nprefix fn + !T(a: T) case (T.is::arithmetic): T __native;\nprefix fn - !T(a: T) case (T.is::arithmetic): T __native;\n\ninfix fn + !T(a: T, b: T) case (T.is::arithmetic): T __native;\ninfix fn - !T(a: T, b: T) case (T.is::arithmetic): T __native;\ninfix fn * !T(a: T, b: T) case (T.is::arithmetic): T __native;\ninfix fn / !T(a: T, b: T) case (T.is::arithmetic): T __native;\n\ninfix fn % !T(a: T, b: T)\n    case (T.is::integral): T __native;\n    case (T.is::floating_point): T __native(\"<cmath>\", \"std::fmod\");\n\nprefix fn ++ !T(mut ref a: T) case (T.is::arithmetic): &mut T __native;\nprefix fn -- !T(mut ref a: T) case (T.is::arithmetic): &mut T __native;\n\npostfix fn ++ !T(mut ref a: T) case (T.is::arithmetic): T __native;\npostfix fn -- !T(mut ref a: T) case (T.is::arithmetic): T __native;\n\ninfix fn += !T(mut ref a: T, b: T) case (T.is::arithmetic): &mut T __native;\ninfix fn -= !T(mut ref a: T, b: T) case (T.is::arithmetic): &mut T __native;\ninfix fn *= !T(mut ref a: T, b: T) case (T.is::arithmetic): &mut T __native;\ninfix fn /= !T(mut ref a: T, b: T) case (T.is::arithmetic): &mut T __native;\n\ninfix fn >  !T(a: T, b: T) case (T.is::primitive): bool __native;\ninfix fn <  !T(a: T, b: T) case (T.is::primitive): bool __native;\ninfix fn >= !T(a: T, b: T) case (T.is::primitive): bool __native;\ninfix fn <= !T(a: T, b: T) case (T.is::primitive): bool __native;\n\n\n// Bitwise.\n\nprefix fn ~ !T(a: T) case (T.is::bitfield): T __native;\n\ninfix fn & !T(a: T, b: T) case (T.is::bitfield): T __native;\ninfix fn | !T(a: T, b: T) case (T.is::bitfield): T __native;\ninfix fn ^ !T(a: T, b: T) case (T.is::bitfield): T __native;\n\ninfix fn &= !T(mut ref a: T, b: T) case (T.is::bitfield): &mut T __native;\ninfix fn |= !T(mut ref a: T, b: T) case (T.is::bitfield): &mut T __native;\ninfix fn ^= !T(mut ref a: T, b: T) case (T.is::bitfield): &mut T __native;\n\ninfix fn << !T(a: T, b: T) case (T.is::integral): T __native;\ninfix fn >> !T(a: T, b: T) case (T.is::integral): T __native;\n\ninfix fn <<= !T(mut ref a: T, b: T) case (T.is::integral): &mut T __native;\ninfix fn >>= !T(mut ref a: T, b: T) case (T.is::integral): &mut T __native;\n\n\n// Numeric conversions.\n/*  Sketch for making these programmable.\n\ninfix fn => !From(from: From, type Into)\n    case (Into.is::primitive && From.is::primitive)\n        __native(\"/prim_convert\");\n*/\n\nfn   i8 !T(v: T) case (T.is::primitive):   i8 __native(\"/prim/convert\");\nfn  i16 !T(v: T) case (T.is::primitive):  i16 __native(\"/prim/convert\");\nfn  i32 !T(v: T) case (T.is::primitive):  i32 __native(\"/prim/convert\");\nfn  i64 !T(v: T) case (T.is::primitive):  i64 __native(\"/prim/convert\");\nfn i128 !T(v: T) case (T.is::primitive): i128 __native(\"/prim/convert\");\n\nfn   u8 !T(v: T) case (T.is::primitive):   u8 __native(\"/prim/convert\");\nfn  u16 !T(v: T) case (T.is::primitive):  u16 __native(\"/prim/convert\");\nfn  u32 !T(v: T) case (T.is::primitive):  u32 __native(\"/prim/convert\");\nfn  u64 !T(v: T) case (T.is::primitive):  u64 __native(\"/prim/convert\");\nfn u128 !T(v: T) case (T.is::primitive): u128 __native(\"/prim/convert\");\n\nfn  f32 !T(v: T) case (T.is::primitive): f32 __native(\"/prim/convert\");\nfn  f64 !T(v: T) case (T.is::primitive): f64 __native(\"/prim/convert\");\n\nfn byte !T(v: T) case (T.is::primitive): byte __native(\"/prim/convert\");\n\nfn unsigned !T(v: T)\n    case (T -> i8)     v.u8;\n    case (T -> i16)    v.u16;\n    case (T -> i32)    v.u32;\n    case (T -> i64)    v.u64;\n    case (T -> i128)   v.u128;\n    case (T.is::integral && T.is::unsigned) v;\n\nfn signed !T(v: T)\n    case (T -> u8)     v.i8;\n    case (T -> u16)    v.i16;\n    case (T -> u32)    v.i32;\n    case (T -> u64)    v.i64;\n    case (T -> u128)   v.i128;\n    case (T.is::integral && !T.is::unsigned) v;\n\nfn MIN(type T)\n    case (T -> i8 )        -128;\n    case (T -> i16)        -32768;\n    case (T -> i32)        -2147483648;\n    case (T -> i64)        -9223372036854775808;\n    case (T.is::unsigned)  T(0);\n\nfn MAX(type T)\n    case (T -> i8 )        127;\n    case (T -> i16)        32767;\n    case (T -> i32)        2147483647;\n    case (T -> i64)        9223372036854775807;\n    case (T.is::unsigned)  T(-1);\n\ntype  int   = i32; // These may become separate types\ntype uint   = u32; //  with a user-selectable size.\n\n\n// Math.\n\nfn abs !T(v: T)\n    case (T.is::floating_point): T __native(\"<cmath>\", \"std::fabs\");\n    case (T.is::arithmetic && !T.is::unsigned) v < 0 ? -v : v;\n\nfn max !T(a: T, b: T)\n    case (T.is::floating_point): T __native(\"<cmath>\", \"std::fmin\");\n    case (T.is::arithmetic) a >= b ? a : b;\n\nfn min !T(a: T, b: T)\n    case (T.is::floating_point): T __native(\"<cmath>\", \"std::fmax\");\n    case (T.is::arithmetic) a <= b ? a : b;\n\nfn exp   !T(a: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::exp\");\nfn exp2  !T(a: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::exp2\");\nfn log   !T(a: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::log\");\nfn log10 !T(a: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::log10\");\nfn log2  !T(a: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::log2\");\n\nfn pow   !T(a: T, b: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::pow\");\nfn sqrt  !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::sqrt\");\nfn cbrt  !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::cbrt\");\nfn hypot !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::hypot\");\n\nfn ceil  !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::ceil\");\nfn floor !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::floor\");\nfn trunc !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::trunc\");\nfn round !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::round\");\n\nfn sin !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::sin\");\nfn cos !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::cos\");\nfn tan !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::tan\");\n\nfn asin !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::asin\");\nfn acos !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::acos\");\nfn atan !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::atan\");\n\nfn atan2 !T(y: T, x: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::atan2\");\n\nfn PI (type T) case (T.is::floating_point): T __native(\"<math.h>\", \"static_cast<>(M_PI)\");\nfn E  (type T) case (T.is::floating_point): T __native(\"<math.h>\", \"static_cast<>(M_E)\");\nfn INF(type T) case (T.is::floating_point): T __native(\"<math.h>\", \"static_cast<>(INFINITY)\");\nfn NAN(type T) case (T.is::floating_point): T __native(\"<math.h>\", \"static_cast<>(NAN)\");\n\nfn nan    !T(v: T) case (T.is::floating_point): bool __native(\"<cmath>\", \"std::isnan\");\nfn inf    !T(v: T) case (T.is::floating_point): bool __native(\"<cmath>\", \"std::isinf\");\nfn finite !T(v: T) case (T.is::floating_point): bool __native(\"<cmath>\", \"std::isfinite\");\n\n\n// Assignment.\n\ninfix fn   = !T(mut ref a: T,    mut b: T): &mut T __native;\ninfix fn ||= !T(mut ref a: T, inline b: T): &mut T = a || (a = b);\ninfix fn &&= !T(mut ref a: T, inline b: T): &mut T = a && (a = b);\n\nfn swap !T(mut ref a: T, mut ref b: T): void __native(\n    \"hacks/soft_risk\",\n    \"<utility>\", \"std::swap\");\n\n\n\n// Arrays.\n//\n// TODO mutval .=,\n//  just like the assignments and splice.\n\nfn typeof !T(lax _: T) = T;\n\nfn  [] (type T) = typeof([] => T []);\nfn [:] (type T) = typeof([] => T[:]);\n\nnovec fn len !T(a: T[:]): int __native(\".size()\");\n\nnovec fn [] !T(ref a: T[:], i: int)\n    case (typeof(a) -> &mut T[:]): &mut T __native(\".mutref\");\n    default                      : &    T __native;\n\nnovec fn [:] !T(ref a: T[:], start!: int)\n    case (typeof(a) -> &mut T[:]): &mut T[:] __native(\"<fu/view.h>\", \"fu::get_view_mut\");\n    default                      : &    T[:] __native(\"<fu/view.h>\", \"fu::get_view\");\n\nnovec fn [:] !T(ref a: T[:], end!: int)\n    case (typeof(a) -> &mut T[:]): &mut T[:] __native(\"<fu/view.h>\", \"fu::get_view_start0_mut\");\n    default                      : &    T[:] __native(\"<fu/view.h>\", \"fu::get_view_start0\");\n\nnovec fn [:] !T(ref a: T[:], start: int, end: int)\n    case (typeof(a) -> &mut T[:]): &mut T[:] __native(\"<fu/view.h>\", \"fu::get_view_mut\");\n    default                      : &    T[:] __native(\"<fu/view.h>\", \"fu::get_view\");\n\nfn    push !T(mut ref a: T[], mut b: T): void __native(\".push\");\nfn unshift !T(mut ref a: T[], mut b: T): void __native(\".unshift\");\nfn  insert !T(mut ref a: T[], i: int, mut b: T): void __native(\".insert\");\n\nfn slice !T(const ref a: T[:], start: int, end: int)\n    case (typeof(a) -> T[]):  T[] __native(\"<fu/vec/LEGACY_slice.h>\", \"fu::slice\");\n    default                : T[:] __native(\"<fu/view.h>\", \"fu::get_view\");\n\nfn slice !T(const ref a: T[:], start: int)\n    case (typeof(a) -> T[]):  T[] __native(\"<fu/vec/LEGACY_slice.h>\", \"fu::slice\");\n    default                : T[:] __native(\"<fu/view.h>\", \"fu::get_view\");\n\nfn substr !T(a: T[], start: int, end: int): T[] __native(\"<fu/vec/LEGACY_slice.h>\", \"fu::substr\");\n\nfn splice !T(mut ref a: T[], start: int, count: int): void  __native(\".splice\");\nfn splice !T(mut ref a: T[], start: int, count: int, /*TODO FIX*/b: T[:]): void  __native(\".splice\");\n\nfn    pop !T(mut ref a: T[]): void __native(\".pop()\");\nfn  shift !T(mut ref a: T[]): void __native(\".shift()\");\n\nfn  clear !T(mut ref a: T[]): void __native(\".clear()\");\nfn shrink !T(mut ref a: T[], len: int): void __native(\".shrink\");\n\nfn resize !T(mut ref a: T[], len: int): void __native(\".resize\");\nfn   grow !T(mut ref a: T[], len: int): void __native(\".grow\");\n\nfn resize_junk !T(mut ref a: T[], len: int): void __native(\".resize<false>\");\nfn   grow_junk !T(mut ref a: T[], len: int): void __native(\".grow<false>\");\n\n\n// Sorts, via std::sort - fnptrs.\n\nfn sort !T(mut ref a: T[:]): void\n{\n    pragma include(\"<algorithm>\");\n    pragma emit(\n    `\n        auto* data = `a`.data_mut();\n        std::sort(data, data + `a`.size());\n    `);\n}\n\nfn sort !T(mut ref a: T[:], less/*: fn(a: T, b: T): bool*/): void\n{\n    noflow fn sort()\n    {\n        mut l: T;\n        mut r: T;\n        pragma include(\"<algorithm>\");\n        pragma emit(\n        `\n            (void) `l`;\n            (void) `r`;\n            auto* data = `a`.data_mut();\n            std::sort(data, data + `a`.size(), [&](auto& `l`, auto& `r`)\n            {\n        `);\n\n        mut lt: bool = less(l, r);\n        pragma emit(\n        `\n                return `lt`;\n            });\n        `);\n    }\n\n    sort();\n}\n\n\n// String likes.\n\nfn has(a: <T>[..], b: T[..] or T) = a.find(b) >= 0;\n\nfn find(haystack: <T>[..], needle: T[..] or T, start?: int or [], end?: int or []): int\n{\n    type Start  = typeof(start);\n    type End    = typeof(end);\n\n    // Keep things simple.\n    if !(Start -> [] && End -> [])\n    {\n        let slice = Start -> [] ? haystack[      .. end]\n                  : End   -> [] ? haystack[start ..    ]\n                                : haystack[start .. end];\n\n        let res = slice.find(needle);\n        return res + (res < 0 ? 0 : start);\n    }\n\n    // Char vs string.\n    if (typeof(needle) -> T)\n    {\n        for (mut i = 0; i < haystack.len; i++)\n            if (haystack[i] == needle)\n                return i;\n\n        return -1;\n    }\n\n    // Shorter haystack & empty needle.\n    if (haystack.len < needle.len || needle.len <= 0)\n        return needle.len ? -1 : 0;\n\n    // This is both a fast path for single-item needles,\n    //  and simplifies the loops below,\n    //   where the Booyer-Moore trick can rely on needle having at least two items.\n    if (needle.len == 1)\n        return haystack.find(needle[0]);\n\n\n    // Try to go for a whole needle comparison\n    //  if the needle is small enough to fit in an integer.\n    //\n    // This works, never measured if it speeds anything up though.\n\n    // if (T.is::primitive && !T.is::floating_point\n    //                     && needle.len * sizeof(T) <= 16)\n    // {\n    //     let shift       = (sizeof(T) * 8).u128;\n    //     let mask        = needle.len * sizeof(T) * 8;\n    //     shadow let mask =\n    //         mask < 128  ? ~(~(0.u128) << (needle.len * sizeof(T) * 8).u128)\n    //                     :   ~(0.u128);\n    //\n    //     mut reg_needle:     u128;\n    //     mut reg_haystack:   u128;\n    //     for (mut i = 0; i < needle.len; i++) {\n    //         reg_needle    <<= shift;\n    //         reg_haystack  <<= shift;\n    //         reg_needle     |= needle[i].u128;\n    //         reg_haystack   |= haystack[i].u128;\n    //     }\n    //\n    //     mut i = needle.len;\n    //     for (;;) {\n    //         if (reg_haystack == reg_needle)\n    //             return i - needle.len;\n    //\n    //         if !(i < haystack.len)\n    //             return -1;\n    //\n    //         reg_haystack  <<= shift;\n    //         reg_haystack   &= mask;\n    //         reg_haystack   |= haystack[i++].u128;\n    //     }\n    // }\n\n\n    // Booyer-Moore trick from FBString::find,\n    //  modified to avoid testing the last needle character twice.\n\n    let needle_len_m1       = needle.len - 1;\n    let needle_last_char    = needle[needle_len_m1];\n\n    // How many bytes are skipped when a mismatch is found after tail matches -\n    //  if needle is 'aa', then skip would be 1, if needle doesn't repeat the tail byte,\n    //   skip would be needle.len.\n    mut skip = 0;\n\n    for (mut i = needle_len_m1;\n             i < haystack.len; )\n    {\n        // Scan for a the tail char of the needle,\n        //  consider using strchr here or something.\n        while (haystack[i] != needle_last_char)\n            if (++i == haystack.len)\n                return -1;\n\n        // Match the rest of the needle,\n        //  consider randomizing this part, should help with crafted needles.\n        for (mut j = 0;; )\n        {\n            // Mismatch halfway through the needle?\n            if (haystack[i - needle_len_m1 + j] != needle[j])\n            {\n                // Init the skip value.\n                if !(skip)\n                {\n                    // Scan the needle backwards,\n                    //  break on first match with needle tail.\n                    skip = needle.len;\n                    for (shadow mut j = needle_len_m1; j --> 0; ) {\n                        if (needle[j] == needle_last_char) {\n                            skip = needle_len_m1 - j;\n                            break;\n                        }\n                    }\n                }\n\n                // Skip over to the next possible tail-char position.\n                i += skip;\n                break;\n            }\n\n            // Entire needle matches?\n            if (++j == needle_len_m1)\n                return i - needle_len_m1;\n        }\n    }\n\n    return -1;\n}\n\n\n// Find char.\n\nfn starts !T(a: T[:], with: T): bool\n{\n    return a.len && a[0] == with;\n}\n\nfn ends !T(a: T[:], with: T): bool\n{\n    return a.len && a[a.len - 1] == with;\n}\n\nfn starts !T(a: T[:], with: T[:]): bool\n{\n    return a.len >= with.len\n        && a[: with.len] == with;\n}\n\nfn ends !T(a: T[:], with: T[:]): bool\n{\n    return a.len >= with.len\n        && a[a.len - with.len : a.len] == with;\n}\n\n// Strings.\n\ntype string = byte[];\n\ninfix fn  >(a: <T>[..], b: T[..]) case (T -> byte) = a <> b > 0;\ninfix fn  <(a: <T>[..], b: T[..]) case (T -> byte) = a <> b < 0;\ninfix fn >=(a: <T>[..], b: T[..]) case (T -> byte) = a <> b >= 0;\ninfix fn <=(a: <T>[..], b: T[..]) case (T -> byte) = a <> b <= 0;\n\n\n// D-style concats.\n//\n// TODO FIX these concats hide copies\n//  which also means they dont work correctly for nocopy stuff\n//\ninfix fn ~ !T(a: T[:], b: T[:]): T[] __native(\"<fu/vec/concat.h>\",     \"+\");\ninfix fn ~ !T(a: T[:], b:  T  ): T[] __native(\"<fu/vec/concat_one.h>\", \"+\");\ninfix fn ~ !T(a:  T  , b: T[:]): T[] __native(\"<fu/vec/concat_one.h>\", \"+\");\n\ninfix fn ~= !T(mut ref a: T[],     b: T[:]): &mut T[] __native(\"<fu/vec/concat.h>\",     \"+=\");\ninfix fn ~= !T(mut ref a: T[], mut b:  T  ): &mut T[] __native(\"<fu/vec/concat_one.h>\", \"+=\");\n\n\n// Fun with views.\n\nfn view !T(ref a: T[:], type of)\n    case (typeof(a) -> &mut T[:] && T.is::reinterpretable && of.is::reinterpretable): &mut [of] __native(\"<fu/view.h>\", \"fu::view_of_mut<>\");\n    case (                          T.is::reinterpretable && of.is::reinterpretable): &    [of] __native(\"<fu/view.h>\", \"fu::view_of<>\");\n\ninfix fn .= !T(mut ref a: T[:], b: T[:]) case (T.is::copy): void __native(\"<fu/vec/view_assign.h>\", \"fu::view_assign\");\n\n// TODO not needed if swap(x, y) alias-ok's its two arguments:\nfn swap !T(mut ref a: T[:], i: int, j: int): void __native(\"<fu/vec/view_swap.h>\", \"fu::view_swap\");\n\nfn partition !T(mut ref a: T[:], predicate)\n{\n    let size = a.len;\n    mut keep = 0;\n    for (mut i = 0; i < size; i++)\n        if (!predicate(a[i])) {\n            if (i > keep)\n                a.swap(i, keep);\n\n            keep++;\n        }\n\n    return keep;\n}\n\nfn remove !T(mut ref a: T[], predicate)\n{\n    if (T.is::trivial)\n    {\n        let size = a.len;\n        mut keep = 0;\n        for (mut i = 0; i < size; i++) {\n            let here = a[i];\n            if (!predicate(here)) {\n                if (i > keep)\n                    a[keep] = here;\n\n                keep++;\n            }\n        }\n    }\n    else\n    {\n        a.shrink(a.partition(fn predicate));\n    }\n}\n\n\n// Stringifiables.\n\ninfix fn ~ (        a: [byte], b.str) a ~ b;\ninfix fn ~ (        a.str, b: [byte]) a ~ b;\ninfix fn ~=(mut ref a: string, b.str) a ~= b;\n\nfn str !T(n: T)\n    case (T.is::unsigned       ): string __native(\"<fu/decstr.h>\", \"fu::u64dec\");\n    case (T.is::integral       ): string __native(\"<fu/decstr.h>\", \"fu::i64dec\");\n    case (T -> bool            ): string __native(\"<fu/decstr.h>\", \"fu::booldec\");\n    case (T -> f32             ): string __native(\"<fu/decstr.h>\", \"fu::f32dec\");\n    case (T -> f64             ): string __native(\"<fu/decstr.h>\", \"fu::f64dec\");\n    case (T.is::enum)\n{\n    for (fieldname i: T)\n        if (n == \"i\")\n            return \"i\";\n\n    return n.i64.str; // TODO FIX use .integer or .arithmetic when we get these\n}\n    case (T.is::flags)\n{\n    mut res: string;\n    for (fieldname i: T)\n        if (n & \"i\")\n            res ~= \"i\" ~ \", \";\n\n    if (res)\n        res.shrink(res.len - 2);\n\n    return res;\n}\n\n\n// Assertions, bugs & fails.\n//  TODO i dont actually think we want to have nullary stuff in prelude,\n//   so TODO needs to take an arg, same with assert - perhaps a pass-through argument.\n\nfn throw(mut reason: string): never __native(\"<fu/never.h>\", \"fu::fail\",\n    \"|Fx_NotDeadCode\", \"|Fx_DontMoveDown\", \"|Fx_Throws\");\n\nfn assert(expression: bool): void __native(\"<fu/assert.h>\", \"fu_ASSERT\", \"|Fx_NotDeadCode\");\n\n\n// Printifiables = anything that implements print.\n\ninline fn print(x: string): string = x;\ninline fn print(x.str)    : string = x;\n\nfn println(parts.print[]: [string]): void __native(\"<fu/print.h>\", \"fu::println\",\n    \"|output\");\n\n\n// String commons.\n\nfn join !T(a: T[][:], sep?: T or T[:] or [])\n{\n    if (a.len < 2)\n        return a.len && a[0];\n\n    let N = typeof(sep) -> T[:] ? sep.len\n          : typeof(sep) ->  T   ? 1\n                                : 0;\n\n    mut size = a[0].len;\n    for (mut i = 1; i < a.len; i++)\n        size += N + a[i].len;\n\n    mut res: T[];\n    res.grow_junk(size);\n\n    let head = a[0];\n    size = head.len;\n    res[: head.len] .= head;\n    for (mut i = 1; i < a.len; i++)\n    {\n        let range = a[i];\n        if (typeof(sep) -> T[:])\n            res[size : size + N] .= sep;\n        else if (typeof(sep) -> T)\n            res[size] = sep;\n\n        size += N;\n        res[size : size + range.len] .= range;\n        size += range.len;\n    }\n\n    return res;\n}\n\nfn split !T(str: T[:], sep: T or T[:], each)\n{\n    mut last = 0;\n    mut next = 0;\n\n    let N = typeof(sep) -> T[:] ? sep.len : 1;\n    if (N) while ((next = str.find(sep, start: last)) >= 0)\n    {\n        each(str.slice(last, next), first?: !last, last?: false);\n        last = next + N;\n    }\n\n    if (last)\n        each(str.slice(last), first?: false, last?: true);\n    else\n        each(str, first?: true, last?: true);\n}\n\nfn split !T(str: T[], sep: T or T[:])\n{\n    mut result: T[][];\n    split(str, :sep, |substr| result ~= substr);\n    return result;\n}\n\n\n// TODO: .replace() is a faster impl of .split().join().\n//  How do we express this so that .split.joins are automatically promoted?\n//   This would be generally useful, e.g.\n//    .map.maps and .map.filters could use this to skip allocs.\n\nfn replace !T(str: T[], all: T or T[:], with: T or T[:] or [])\n{\n    mut result: T[];\n    split(str, sep: all, |substr, lax first, lax last|\n    {\n        if (!first)\n            typeof(with) -> [] ? with() : result ~= with;\n        else if (last)\n            return str;\n\n        result ~= substr;\n    });\n\n    return result;\n}\n\n\n//\n\ninfix fn <> !T(a: T, b: T)\ncase (T.is::primitive) = a < b ? -1 : a > b ? +1 : 0;\ncase (T -> _[:]) {\n    mut cmp = a.len <> b.len;\n    for (mut i = 0; i < a.len && !cmp; i++)\n        cmp = a[i] <> b[i];\n\n    return cmp;\n}\ndefault {\n    lax mut cmp = 0;\n\n    // TODO this would be better if it went through each member doing the trivial work first -\n    //  only then going through them again and looking at e.g. array contents etc,\n    //   this is a first approx but does not go recursively through structs.\n\n    for (fieldname i: T)\n        if (typeof(a.i).is::trivial)\n            if (cmp = a.i <> b.i)\n                return cmp;\n\n    for (fieldname i: T)\n        if !(typeof(a.i).is::trivial)\n            if (cmp = a.i <> b.i)\n                return cmp;\n\n    return 0;\n}\n\ninfix fn == !T(a: T, b: T)\n    case (T.is::primitive): bool __native;\n    default: bool = !(a <> b);\n\ninfix fn != !T(a: T, b: T)\n    case (T.is::primitive): bool __native;\n    default: bool = !!(a <> b);\n\n\n//\n\nfn map !T(a: T[:], fn)\n{\n    mut res: typeof( fn(T, i?: a.len) )[];\n    res.grow_junk(a.len);\n    for (mut i = 0; i < a.len; i++)\n        res[i] = fn(a[i], i?: i);\n\n    return res;\n}\n\nfn each !T(ref a: T[:], fn)\n    for (mut i = 0; i < a.len; i++)\n        fn(a[i], i?: i);\n\nfn reverse !T(mut ref a: T[:])\n{\n    let n1 = a.len - 1;\n    let n2 = a.len >> 1;\n    for (mut i = 0; i < n2; i++)\n        a.swap(i, n1 - i);\n}\n\nfn all !T(a: T[:], pred)\n{\n    a.each: |item, i|\n        if !(pred(item, i?: i))\n            return false;\n\n    return true;\n}\n\nfn some !T(a: T[:], pred)\n{\n    a.each: |item, i|\n        if (pred(item, i?: i))\n            return true;\n\n    return false;\n}\n\n\n\nfn only(ref s: <T>[..]) {\n    assert(s.len == 1);\n    return s[0];\n}\n\nfn first(ref s: <T>[..])\n    s[0];\n\nfn last(ref s: <T>[..])\n    s[s.len - 1];\n\nfn not_first(ref s: <T>[..])\n    s[s.len && 1 ..];\n\nfn not_last(ref s: <T>[..])\n    s[.. s.len && s.len - 1];\n\nfn if_only(ref s: <T>[..])\n    s.len == 1 && s[0];\n\nfn if_first(ref s: <T>[..])\n    s.len && s[0];\n\nfn if_last(ref s: <T>[..])\n    s.len && s[s.len - 1];\n\nfn TODO_REMOVE_bootstrap() true;\n"
+static const fu::str PRELUDE_SRC fu_INIT_PRIORITY(1011) = "\n\n\n// Arithmetics.\n\nprefix fn + !T(a: T) case (T.is::arithmetic): T __native;\nprefix fn - !T(a: T) case (T.is::arithmetic): T __native;\n\ninfix fn + !T(a: T, b: T) case (T.is::arithmetic): T __native;\ninfix fn - !T(a: T, b: T) case (T.is::arithmetic): T __native;\ninfix fn * !T(a: T, b: T) case (T.is::arithmetic): T __native;\ninfix fn / !T(a: T, b: T) case (T.is::arithmetic): T __native;\n\ninfix fn % !T(a: T, b: T)\n    case (T.is::integral): T __native;\n    case (T.is::floating_point): T __native(\"<cmath>\", \"std::fmod\");\n\nprefix fn ++ !T(mut ref a: T) case (T.is::arithmetic): &mut T __native;\nprefix fn -- !T(mut ref a: T) case (T.is::arithmetic): &mut T __native;\n\npostfix fn ++ !T(mut ref a: T) case (T.is::arithmetic): T __native;\npostfix fn -- !T(mut ref a: T) case (T.is::arithmetic): T __native;\n\ninfix fn += !T(mut ref a: T, b: T) case (T.is::arithmetic): &mut T __native;\ninfix fn -= !T(mut ref a: T, b: T) case (T.is::arithmetic): &mut T __native;\ninfix fn *= !T(mut ref a: T, b: T) case (T.is::arithmetic): &mut T __native;\ninfix fn /= !T(mut ref a: T, b: T) case (T.is::arithmetic): &mut T __native;\n\ninfix fn >  !T(a: T, b: T) case (T.is::primitive): bool __native;\ninfix fn <  !T(a: T, b: T) case (T.is::primitive): bool __native;\ninfix fn >= !T(a: T, b: T) case (T.is::primitive): bool __native;\ninfix fn <= !T(a: T, b: T) case (T.is::primitive): bool __native;\n\n\n// Bitwise.\n\nprefix fn ~ !T(a: T) case (T.is::bitfield): T __native;\n\ninfix fn & !T(a: T, b: T) case (T.is::bitfield): T __native;\ninfix fn | !T(a: T, b: T) case (T.is::bitfield): T __native;\ninfix fn ^ !T(a: T, b: T) case (T.is::bitfield): T __native;\n\ninfix fn &= !T(mut ref a: T, b: T) case (T.is::bitfield): &mut T __native;\ninfix fn |= !T(mut ref a: T, b: T) case (T.is::bitfield): &mut T __native;\ninfix fn ^= !T(mut ref a: T, b: T) case (T.is::bitfield): &mut T __native;\n\ninfix fn << !T(a: T, b: T) case (T.is::integral): T __native;\ninfix fn >> !T(a: T, b: T) case (T.is::integral): T __native;\n\ninfix fn <<= !T(mut ref a: T, b: T) case (T.is::integral): &mut T __native;\ninfix fn >>= !T(mut ref a: T, b: T) case (T.is::integral): &mut T __native;\n\n\n// Numeric conversions.\n/*  Sketch for making these programmable.\n\ninfix fn => !From(from: From, type Into)\n    case (Into.is::primitive && From.is::primitive)\n        __native(\"/prim_convert\");\n*/\n\nfn   i8 !T(v: T) case (T.is::primitive):   i8 __native(\"/prim/convert\");\nfn  i16 !T(v: T) case (T.is::primitive):  i16 __native(\"/prim/convert\");\nfn  i32 !T(v: T) case (T.is::primitive):  i32 __native(\"/prim/convert\");\nfn  i64 !T(v: T) case (T.is::primitive):  i64 __native(\"/prim/convert\");\nfn i128 !T(v: T) case (T.is::primitive): i128 __native(\"/prim/convert\");\n\nfn   u8 !T(v: T) case (T.is::primitive):   u8 __native(\"/prim/convert\");\nfn  u16 !T(v: T) case (T.is::primitive):  u16 __native(\"/prim/convert\");\nfn  u32 !T(v: T) case (T.is::primitive):  u32 __native(\"/prim/convert\");\nfn  u64 !T(v: T) case (T.is::primitive):  u64 __native(\"/prim/convert\");\nfn u128 !T(v: T) case (T.is::primitive): u128 __native(\"/prim/convert\");\n\nfn  f32 !T(v: T) case (T.is::primitive): f32 __native(\"/prim/convert\");\nfn  f64 !T(v: T) case (T.is::primitive): f64 __native(\"/prim/convert\");\n\nfn byte !T(v: T) case (T.is::primitive): byte __native(\"/prim/convert\");\n\nfn unsigned !T(v: T)\n    case (T -> i8)     v.u8;\n    case (T -> i16)    v.u16;\n    case (T -> i32)    v.u32;\n    case (T -> i64)    v.u64;\n    case (T -> i128)   v.u128;\n    case (T.is::integral && T.is::unsigned) v;\n\nfn signed !T(v: T)\n    case (T -> u8)     v.i8;\n    case (T -> u16)    v.i16;\n    case (T -> u32)    v.i32;\n    case (T -> u64)    v.i64;\n    case (T -> u128)   v.i128;\n    case (T.is::integral && !T.is::unsigned) v;\n\nfn MIN(type T)\n    case (T -> i8 )        -128;\n    case (T -> i16)        -32768;\n    case (T -> i32)        -2147483648;\n    case (T -> i64)        -9223372036854775808;\n    case (T.is::unsigned)  T(0);\n\nfn MAX(type T)\n    case (T -> i8 )        127;\n    case (T -> i16)        32767;\n    case (T -> i32)        2147483647;\n    case (T -> i64)        9223372036854775807;\n    case (T.is::unsigned)  ~T(0);\n\ntype  int   = i32; // These may become separate types\ntype uint   = u32; //  with a user-selectable size.\n\n\n// Math.\n\nfn abs !T(v: T)\n    case (T.is::floating_point): T __native(\"<cmath>\", \"std::fabs\");\n    case (T.is::arithmetic && !T.is::unsigned) v < 0 ? -v : v;\n\nfn max !T(a: T, b: T)\n    case (T.is::floating_point): T __native(\"<cmath>\", \"std::fmin\");\n    case (T.is::arithmetic) a >= b ? a : b;\n\nfn min !T(a: T, b: T)\n    case (T.is::floating_point): T __native(\"<cmath>\", \"std::fmax\");\n    case (T.is::arithmetic) a <= b ? a : b;\n\nfn exp   !T(a: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::exp\");\nfn exp2  !T(a: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::exp2\");\nfn log   !T(a: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::log\");\nfn log10 !T(a: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::log10\");\nfn log2  !T(a: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::log2\");\n\nfn pow   !T(a: T, b: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::pow\");\nfn sqrt  !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::sqrt\");\nfn cbrt  !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::cbrt\");\nfn hypot !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::hypot\");\n\nfn ceil  !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::ceil\");\nfn floor !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::floor\");\nfn trunc !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::trunc\");\nfn round !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::round\");\n\nfn sin !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::sin\");\nfn cos !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::cos\");\nfn tan !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::tan\");\n\nfn asin !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::asin\");\nfn acos !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::acos\");\nfn atan !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::atan\");\n\nfn atan2 !T(y: T, x: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::atan2\");\n\nfn PI (type T) case (T.is::floating_point): T __native(\"<math.h>\", \"static_cast<>(M_PI)\");\nfn E  (type T) case (T.is::floating_point): T __native(\"<math.h>\", \"static_cast<>(M_E)\");\nfn INF(type T) case (T.is::floating_point): T __native(\"<math.h>\", \"static_cast<>(INFINITY)\");\nfn NAN(type T) case (T.is::floating_point): T __native(\"<math.h>\", \"static_cast<>(NAN)\");\n\nfn nan    !T(v: T) case (T.is::floating_point): bool __native(\"<cmath>\", \"std::isnan\");\nfn inf    !T(v: T) case (T.is::floating_point): bool __native(\"<cmath>\", \"std::isinf\");\nfn finite !T(v: T) case (T.is::floating_point): bool __native(\"<cmath>\", \"std::isfinite\");\n\n\n// Assignment.\n\ninfix fn   = !T(mut ref a: T,    mut b: T): &mut T __native;\ninfix fn ||= !T(mut ref a: T, inline b: T): &mut T = a || (a = b);\ninfix fn &&= !T(mut ref a: T, inline b: T): &mut T = a && (a = b);\n\nfn swap !T(mut ref a: T, mut ref b: T): void __native(\n    \"hacks/soft_risk\",\n    \"<utility>\", \"std::swap\");\n\n\n\n// Arrays.\n//\n// TODO mutval .=,\n//  just like the assignments and splice.\n\nfn typeof !T(lax _: T) = T;\n\nfn  [] (type T) = typeof([] => T []);\nfn [:] (type T) = typeof([] => T[:]);\n\nnovec fn len !T(a: T[:]): int __native(\".size()\");\n\nnovec fn [] !T(ref a: T[:], i: int)\n    case (typeof(a) -> &mut T[:]): &mut T __native(\".mutref\");\n    default                      : &    T __native;\n\nnovec fn [:] !T(ref a: T[:], start!: int)\n    case (typeof(a) -> &mut T[:]): &mut T[:] __native(\"<fu/view.h>\", \"fu::get_view_mut\");\n    default                      : &    T[:] __native(\"<fu/view.h>\", \"fu::get_view\");\n\nnovec fn [:] !T(ref a: T[:], end!: int)\n    case (typeof(a) -> &mut T[:]): &mut T[:] __native(\"<fu/view.h>\", \"fu::get_view_start0_mut\");\n    default                      : &    T[:] __native(\"<fu/view.h>\", \"fu::get_view_start0\");\n\nnovec fn [:] !T(ref a: T[:], start: int, end: int)\n    case (typeof(a) -> &mut T[:]): &mut T[:] __native(\"<fu/view.h>\", \"fu::get_view_mut\");\n    default                      : &    T[:] __native(\"<fu/view.h>\", \"fu::get_view\");\n\nfn    push !T(mut ref a: T[], mut b: T): void __native(\".push\");\nfn unshift !T(mut ref a: T[], mut b: T): void __native(\".unshift\");\nfn  insert !T(mut ref a: T[], i: int, mut b: T): void __native(\".insert\");\n\nfn slice !T(const ref a: T[:], start: int, end: int)\n    case (typeof(a) -> T[]):  T[] __native(\"<fu/vec/LEGACY_slice.h>\", \"fu::slice\");\n    default                : T[:] __native(\"<fu/view.h>\", \"fu::get_view\");\n\nfn slice !T(const ref a: T[:], start: int)\n    case (typeof(a) -> T[]):  T[] __native(\"<fu/vec/LEGACY_slice.h>\", \"fu::slice\");\n    default                : T[:] __native(\"<fu/view.h>\", \"fu::get_view\");\n\nfn substr !T(a: T[], start: int, end: int): T[] __native(\"<fu/vec/LEGACY_slice.h>\", \"fu::substr\");\n\nfn splice !T(mut ref a: T[], start: int, count: int): void  __native(\".splice\");\nfn splice !T(mut ref a: T[], start: int, count: int, /*TODO FIX*/b: T[:]): void  __native(\".splice\");\n\nfn    pop !T(mut ref a: T[]): void __native(\".pop()\");\nfn  shift !T(mut ref a: T[]): void __native(\".shift()\");\n\nfn  clear !T(mut ref a: T[]): void __native(\".clear()\");\nfn shrink !T(mut ref a: T[], len: int): void __native(\".shrink\");\n\nfn resize !T(mut ref a: T[], len: int): void __native(\".resize\");\nfn   grow !T(mut ref a: T[], len: int): void __native(\".grow\");\n\nfn resize_junk !T(mut ref a: T[], len: int): void __native(\".resize<false>\");\nfn   grow_junk !T(mut ref a: T[], len: int): void __native(\".grow<false>\");\n\n\n// Sorts, via std::sort - fnptrs.\n\nfn sort !T(mut ref a: T[:]): void\n{\n    pragma include(\"<algorithm>\");\n    pragma emit(\n    `\n        auto* data = `a`.data_mut();\n        std::sort(data, data + `a`.size());\n    `);\n}\n\nfn sort !T(mut ref a: T[:], less/*: fn(a: T, b: T): bool*/): void\n{\n    noflow fn sort()\n    {\n        mut l: T;\n        mut r: T;\n        pragma include(\"<algorithm>\");\n        pragma emit(\n        `\n            (void) `l`;\n            (void) `r`;\n            auto* data = `a`.data_mut();\n            std::sort(data, data + `a`.size(), [&](auto& `l`, auto& `r`)\n            {\n        `);\n\n        mut lt: bool = less(l, r);\n        pragma emit(\n        `\n                return `lt`;\n            });\n        `);\n    }\n\n    sort();\n}\n\n\n// String likes.\n\nfn has(a: <T>[..], b: T[..] or T) = a.find(b) >= 0;\n\nfn find(haystack: <T>[..], needle: T[..] or T, start?: int or [], end?: int or []): int\n{\n    type Start  = typeof(start);\n    type End    = typeof(end);\n\n    // Keep things simple.\n    if !(Start -> [] && End -> [])\n    {\n        let slice = Start -> [] ? haystack[      .. end]\n                  : End   -> [] ? haystack[start ..    ]\n                                : haystack[start .. end];\n\n        let res = slice.find(needle);\n        return res + (res < 0 ? 0 : start);\n    }\n\n    // Char vs string.\n    if (typeof(needle) -> T)\n    {\n        for (mut i = 0; i < haystack.len; i++)\n            if (haystack[i] == needle)\n                return i;\n\n        return -1;\n    }\n\n    // Shorter haystack & empty needle.\n    if (haystack.len < needle.len || needle.len <= 0)\n        return needle.len ? -1 : 0;\n\n    // This is both a fast path for single-item needles,\n    //  and simplifies the loops below,\n    //   where the Booyer-Moore trick can rely on needle having at least two items.\n    if (needle.len == 1)\n        return haystack.find(needle[0]);\n\n\n    // Try to go for a whole needle comparison\n    //  if the needle is small enough to fit in an integer.\n    //\n    // This works, never measured if it speeds anything up though.\n\n    // if (T.is::primitive && !T.is::floating_point\n    //                     && needle.len * sizeof(T) <= 16)\n    // {\n    //     let shift       = (sizeof(T) * 8).u128;\n    //     let mask        = needle.len * sizeof(T) * 8;\n    //     shadow let mask =\n    //         mask < 128  ? ~(~(0.u128) << (needle.len * sizeof(T) * 8).u128)\n    //                     :   ~(0.u128);\n    //\n    //     mut reg_needle:     u128;\n    //     mut reg_haystack:   u128;\n    //     for (mut i = 0; i < needle.len; i++) {\n    //         reg_needle    <<= shift;\n    //         reg_haystack  <<= shift;\n    //         reg_needle     |= needle[i].u128;\n    //         reg_haystack   |= haystack[i].u128;\n    //     }\n    //\n    //     mut i = needle.len;\n    //     for (;;) {\n    //         if (reg_haystack == reg_needle)\n    //             return i - needle.len;\n    //\n    //         if !(i < haystack.len)\n    //             return -1;\n    //\n    //         reg_haystack  <<= shift;\n    //         reg_haystack   &= mask;\n    //         reg_haystack   |= haystack[i++].u128;\n    //     }\n    // }\n\n\n    // Booyer-Moore trick from FBString::find,\n    //  modified to avoid testing the last needle character twice.\n\n    let needle_len_m1       = needle.len - 1;\n    let needle_last_char    = needle[needle_len_m1];\n\n    // How many bytes are skipped when a mismatch is found after tail matches -\n    //  if needle is 'aa', then skip would be 1, if needle doesn't repeat the tail byte,\n    //   skip would be needle.len.\n    mut skip = 0;\n\n    for (mut i = needle_len_m1;\n             i < haystack.len; )\n    {\n        // Scan for a the tail char of the needle,\n        //  consider using strchr here or something.\n        while (haystack[i] != needle_last_char)\n            if (++i == haystack.len)\n                return -1;\n\n        // Match the rest of the needle,\n        //  consider randomizing this part, should help with crafted needles.\n        for (mut j = 0;; )\n        {\n            // Mismatch halfway through the needle?\n            if (haystack[i - needle_len_m1 + j] != needle[j])\n            {\n                // Init the skip value.\n                if !(skip)\n                {\n                    // Scan the needle backwards,\n                    //  break on first match with needle tail.\n                    skip = needle.len;\n                    for (shadow mut j = needle_len_m1; j --> 0; ) {\n                        if (needle[j] == needle_last_char) {\n                            skip = needle_len_m1 - j;\n                            break;\n                        }\n                    }\n                }\n\n                // Skip over to the next possible tail-char position.\n                i += skip;\n                break;\n            }\n\n            // Entire needle matches?\n            if (++j == needle_len_m1)\n                return i - needle_len_m1;\n        }\n    }\n\n    return -1;\n}\n\n\n// Find char.\n\nfn starts !T(a: T[:], with: T): bool\n{\n    return a.len && a[0] == with;\n}\n\nfn ends !T(a: T[:], with: T): bool\n{\n    return a.len && a[a.len - 1] == with;\n}\n\nfn starts !T(a: T[:], with: T[:]): bool\n{\n    return a.len >= with.len\n        && a[: with.len] == with;\n}\n\nfn ends !T(a: T[:], with: T[:]): bool\n{\n    return a.len >= with.len\n        && a[a.len - with.len : a.len] == with;\n}\n\n// Strings.\n\ntype string = byte[];\n\ninfix fn  >(a: <T>[..], b: T[..]) case (T -> byte) = a <> b > 0;\ninfix fn  <(a: <T>[..], b: T[..]) case (T -> byte) = a <> b < 0;\ninfix fn >=(a: <T>[..], b: T[..]) case (T -> byte) = a <> b >= 0;\ninfix fn <=(a: <T>[..], b: T[..]) case (T -> byte) = a <> b <= 0;\n\n\n// D-style concats.\n//\n// TODO FIX these concats hide copies\n//  which also means they dont work correctly for nocopy stuff\n//\ninfix fn ~ !T(a: T[:], b: T[:]): T[] __native(\"<fu/vec/concat.h>\",     \"+\");\ninfix fn ~ !T(a: T[:], b:  T  ): T[] __native(\"<fu/vec/concat_one.h>\", \"+\");\ninfix fn ~ !T(a:  T  , b: T[:]): T[] __native(\"<fu/vec/concat_one.h>\", \"+\");\n\ninfix fn ~= !T(mut ref a: T[],     b: T[:]): &mut T[] __native(\"<fu/vec/concat.h>\",     \"+=\");\ninfix fn ~= !T(mut ref a: T[], mut b:  T  ): &mut T[] __native(\"<fu/vec/concat_one.h>\", \"+=\");\n\n\n// Fun with views.\n\nfn view !T(ref a: T[:], type of)\n    case (typeof(a) -> &mut T[:] && T.is::reinterpretable && of.is::reinterpretable): &mut [of] __native(\"<fu/view.h>\", \"fu::view_of_mut<>\");\n    case (                          T.is::reinterpretable && of.is::reinterpretable): &    [of] __native(\"<fu/view.h>\", \"fu::view_of<>\");\n\ninfix fn .= !T(mut ref a: T[:], b: T[:]) case (T.is::copy): void __native(\"<fu/vec/view_assign.h>\", \"fu::view_assign\");\n\n// TODO not needed if swap(x, y) alias-ok's its two arguments:\nfn swap !T(mut ref a: T[:], i: int, j: int): void __native(\"<fu/vec/view_swap.h>\", \"fu::view_swap\");\n\nfn partition !T(mut ref a: T[:], predicate)\n{\n    let size = a.len;\n    mut keep = 0;\n    for (mut i = 0; i < size; i++)\n        if (!predicate(a[i])) {\n            if (i > keep)\n                a.swap(i, keep);\n\n            keep++;\n        }\n\n    return keep;\n}\n\nfn remove !T(mut ref a: T[], predicate)\n{\n    if (T.is::trivial)\n    {\n        let size = a.len;\n        mut keep = 0;\n        for (mut i = 0; i < size; i++) {\n            let here = a[i];\n            if (!predicate(here)) {\n                if (i > keep)\n                    a[keep] = here;\n\n                keep++;\n            }\n        }\n    }\n    else\n    {\n        a.shrink(a.partition(fn predicate));\n    }\n}\n\n\n// Stringifiables.\n\ninfix fn ~ (        a: [byte], b.str) a ~ b;\ninfix fn ~ (        a.str, b: [byte]) a ~ b;\ninfix fn ~=(mut ref a: string, b.str) a ~= b;\n\nfn str !T(n: T)\n    case (T.is::unsigned       ): string __native(\"<fu/decstr.h>\", \"fu::u64dec\");\n    case (T.is::integral       ): string __native(\"<fu/decstr.h>\", \"fu::i64dec\");\n    case (T -> bool            ): string __native(\"<fu/decstr.h>\", \"fu::booldec\");\n    case (T -> f32             ): string __native(\"<fu/decstr.h>\", \"fu::f32dec\");\n    case (T -> f64             ): string __native(\"<fu/decstr.h>\", \"fu::f64dec\");\n    case (T.is::enum)\n{\n    for (fieldname i: T)\n        if (n == \"i\")\n            return \"i\";\n\n    return n.i64.str; // TODO FIX use .integer or .arithmetic when we get these\n}\n    case (T.is::flags)\n{\n    mut res: string;\n    for (fieldname i: T)\n        if (n & \"i\")\n            res ~= \"i\" ~ \", \";\n\n    if (res)\n        res.shrink(res.len - 2);\n\n    return res;\n}\n\n\n// Assertions, bugs & fails.\n//  TODO i dont actually think we want to have nullary stuff in prelude,\n//   so TODO needs to take an arg, same with assert - perhaps a pass-through argument.\n\nfn throw(mut reason: string): never __native(\"<fu/never.h>\", \"fu::fail\",\n    \"|Fx_NotDeadCode\", \"|Fx_DontMoveDown\", \"|Fx_Throws\");\n\nfn assert(expression: bool): void __native(\"<fu/assert.h>\", \"fu_ASSERT\", \"|Fx_NotDeadCode\");\n\n\n// Printifiables = anything that implements print.\n\ninline fn print(x: string): string = x;\ninline fn print(x.str)    : string = x;\n\nfn println(parts.print[]: [string]): void __native(\"<fu/print.h>\", \"fu::println\",\n    \"|output\");\n\n\n// String commons.\n\nfn join !T(a: T[][:], sep?: T or T[:] or [])\n{\n    if (a.len < 2)\n        return a.len && a[0];\n\n    let N = typeof(sep) -> T[:] ? sep.len\n          : typeof(sep) ->  T   ? 1\n                                : 0;\n\n    mut size = a[0].len;\n    for (mut i = 1; i < a.len; i++)\n        size += N + a[i].len;\n\n    mut res: T[];\n    res.grow_junk(size);\n\n    let head = a[0];\n    size = head.len;\n    res[: head.len] .= head;\n    for (mut i = 1; i < a.len; i++)\n    {\n        let range = a[i];\n        if (typeof(sep) -> T[:])\n            res[size : size + N] .= sep;\n        else if (typeof(sep) -> T)\n            res[size] = sep;\n\n        size += N;\n        res[size : size + range.len] .= range;\n        size += range.len;\n    }\n\n    return res;\n}\n\nfn split !T(str: T[:], sep: T or T[:], each)\n{\n    mut last = 0;\n    mut next = 0;\n\n    let N = typeof(sep) -> T[:] ? sep.len : 1;\n    if (N) while ((next = str.find(sep, start: last)) >= 0)\n    {\n        each(str.slice(last, next), first?: !last, last?: false);\n        last = next + N;\n    }\n\n    if (last)\n        each(str.slice(last), first?: false, last?: true);\n    else\n        each(str, first?: true, last?: true);\n}\n\nfn split !T(str: T[], sep: T or T[:])\n{\n    mut result: T[][];\n    split(str, :sep, |substr| result ~= substr);\n    return result;\n}\n\n\n// TODO: .replace() is a faster impl of .split().join().\n//  How do we express this so that .split.joins are automatically promoted?\n//   This would be generally useful, e.g.\n//    .map.maps and .map.filters could use this to skip allocs.\n\nfn replace !T(str: T[], all: T or T[:], with: T or T[:] or [])\n{\n    mut result: T[];\n    split(str, sep: all, |substr, lax first, lax last|\n    {\n        if (!first)\n            typeof(with) -> [] ? with() : result ~= with;\n        else if (last)\n            return str;\n\n        result ~= substr;\n    });\n\n    return result;\n}\n\n\n//\n\ninfix fn <> !T(a: T, b: T)\ncase (T.is::primitive) = a < b ? -1 : a > b ? +1 : 0;\ncase (T -> _[:]) {\n    mut cmp = a.len <> b.len;\n    for (mut i = 0; i < a.len && !cmp; i++)\n        cmp = a[i] <> b[i];\n\n    return cmp;\n}\ndefault {\n    lax mut cmp = 0;\n\n    // TODO this would be better if it went through each member doing the trivial work first -\n    //  only then going through them again and looking at e.g. array contents etc,\n    //   this is a first approx but does not go recursively through structs.\n\n    for (fieldname i: T)\n        if (typeof(a.i).is::trivial)\n            if (cmp = a.i <> b.i)\n                return cmp;\n\n    for (fieldname i: T)\n        if !(typeof(a.i).is::trivial)\n            if (cmp = a.i <> b.i)\n                return cmp;\n\n    return 0;\n}\n\ninfix fn == !T(a: T, b: T)\n    case (T.is::primitive): bool __native;\n    default: bool = !(a <> b);\n\ninfix fn != !T(a: T, b: T)\n    case (T.is::primitive): bool __native;\n    default: bool = !!(a <> b);\n\n\n//\n\nfn map !T(a: T[:], fn)\n{\n    mut res: typeof( fn(T, i?: a.len) )[];\n    res.grow_junk(a.len);\n    for (mut i = 0; i < a.len; i++)\n        res[i] = fn(a[i], i?: i);\n\n    return res;\n}\n\nfn each !T(ref a: T[:], fn)\n    for (mut i = 0; i < a.len; i++)\n        fn(a[i], i?: i);\n\nfn reverse !T(mut ref a: T[:])\n{\n    let n1 = a.len - 1;\n    let n2 = a.len >> 1;\n    for (mut i = 0; i < n2; i++)\n        a.swap(i, n1 - i);\n}\n\nfn all !T(a: T[:], pred)\n{\n    a.each: |item, i|\n        if !(pred(item, i?: i))\n            return false;\n\n    return true;\n}\n\nfn some !T(a: T[:], pred)\n{\n    a.each: |item, i|\n        if (pred(item, i?: i))\n            return true;\n\n    return false;\n}\n\n\n\nfn only(ref s: <T>[..]) {\n    assert(s.len == 1);\n    return s[0];\n}\n\nfn first(ref s: <T>[..])\n    s[0];\n\nfn last(ref s: <T>[..])\n    s[s.len - 1];\n\nfn not_first(ref s: <T>[..])\n    s[s.len && 1 ..];\n\nfn not_last(ref s: <T>[..])\n    s[.. s.len && s.len - 1];\n\nfn if_only(ref s: <T>[..])\n    s.len == 1 && s[0];\n\nfn if_first(ref s: <T>[..])\n    s.len && s[0];\n\nfn if_last(ref s: <T>[..])\n    s.len && s[s.len - 1];\n\nfn TODO_REMOVE_bootstrap() true;\n"
     "fn steal(ref v: <T>) { mut ret: T; swap(v, ret); return ret; } fn steal(ref a: <T>[], start!: int, end!: int) { let size = end - start; mut ret: T[]; ret.resize(size); for (mut i = 0; i < size; i++) swap(ret[i], a[i + start]); a.splice(start, count: size); return ret; } fn steal(ref a: <T>[], start!: int) { mut ret: T[]; ret.resize(a.len - start); for (mut i = 0; i < ret.len; i++) swap(ret[i], a[i + start]); a.shrink(start); return ret; }\n"_fu;
 
 s_Context solvePrelude_eRdBm7hX()
-- 
2.43.0


From 53c1cb725306c223c7c1283d0d6e99f5a8334111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:33 +0000
Subject: [PATCH 21/46] fix: floating point min and max were swapped in the
 bootstrap prelude

---
 src/prelude.fu.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prelude.fu.cpp b/src/prelude.fu.cpp
index 46cded4..297396b 100644
--- a/src/prelude.fu.cpp
+++ b/src/prelude.fu.cpp
@@ -1349,7 +1349,7 @@ inline s_Module clone_G5fNGz6v(const s_Module& a)
 }
                                 #endif
 
-static const fu::str PRELUDE_SRC fu_INIT_PRIORITY(1011) = "\n\n\n// Arithmetics.\n\nprefix fn + !T(a: T) case (T.is::arithmetic): T __native;\nprefix fn - !T(a: T) case (T.is::arithmetic): T __native;\n\ninfix fn + !T(a: T, b: T) case (T.is::arithmetic): T __native;\ninfix fn - !T(a: T, b: T) case (T.is::arithmetic): T __native;\ninfix fn * !T(a: T, b: T) case (T.is::arithmetic): T __native;\ninfix fn / !T(a: T, b: T) case (T.is::arithmetic): T __native;\n\ninfix fn % !T(a: T, b: T)\n    case (T.is::integral): T __native;\n    case (T.is::floating_point): T __native(\"<cmath>\", \"std::fmod\");\n\nprefix fn ++ !T(mut ref a: T) case (T.is::arithmetic): &mut T __native;\nprefix fn -- !T(mut ref a: T) case (T.is::arithmetic): &mut T __native;\n\npostfix fn ++ !T(mut ref a: T) case (T.is::arithmetic): T __native;\npostfix fn -- !T(mut ref a: T) case (T.is::arithmetic): T __native;\n\ninfix fn += !T(mut ref a: T, b: T) case (T.is::arithmetic): &mut T __native;\ninfix fn -= !T(mut ref a: T, b: T) case (T.is::arithmetic): &mut T __native;\ninfix fn *= !T(mut ref a: T, b: T) case (T.is::arithmetic): &mut T __native;\ninfix fn /= !T(mut ref a: T, b: T) case (T.is::arithmetic): &mut T __native;\n\ninfix fn >  !T(a: T, b: T) case (T.is::primitive): bool __native;\ninfix fn <  !T(a: T, b: T) case (T.is::primitive): bool __native;\ninfix fn >= !T(a: T, b: T) case (T.is::primitive): bool __native;\ninfix fn <= !T(a: T, b: T) case (T.is::primitive): bool __native;\n\n\n// Bitwise.\n\nprefix fn ~ !T(a: T) case (T.is::bitfield): T __native;\n\ninfix fn & !T(a: T, b: T) case (T.is::bitfield): T __native;\ninfix fn | !T(a: T, b: T) case (T.is::bitfield): T __native;\ninfix fn ^ !T(a: T, b: T) case (T.is::bitfield): T __native;\n\ninfix fn &= !T(mut ref a: T, b: T) case (T.is::bitfield): &mut T __native;\ninfix fn |= !T(mut ref a: T, b: T) case (T.is::bitfield): &mut T __native;\ninfix fn ^= !T(mut ref a: T, b: T) case (T.is::bitfield): &mut T __native;\n\ninfix fn << !T(a: T, b: T) case (T.is::integral): T __native;\ninfix fn >> !T(a: T, b: T) case (T.is::integral): T __native;\n\ninfix fn <<= !T(mut ref a: T, b: T) case (T.is::integral): &mut T __native;\ninfix fn >>= !T(mut ref a: T, b: T) case (T.is::integral): &mut T __native;\n\n\n// Numeric conversions.\n/*  Sketch for making these programmable.\n\ninfix fn => !From(from: From, type Into)\n    case (Into.is::primitive && From.is::primitive)\n        __native(\"/prim_convert\");\n*/\n\nfn   i8 !T(v: T) case (T.is::primitive):   i8 __native(\"/prim/convert\");\nfn  i16 !T(v: T) case (T.is::primitive):  i16 __native(\"/prim/convert\");\nfn  i32 !T(v: T) case (T.is::primitive):  i32 __native(\"/prim/convert\");\nfn  i64 !T(v: T) case (T.is::primitive):  i64 __native(\"/prim/convert\");\nfn i128 !T(v: T) case (T.is::primitive): i128 __native(\"/prim/convert\");\n\nfn   u8 !T(v: T) case (T.is::primitive):   u8 __native(\"/prim/convert\");\nfn  u16 !T(v: T) case (T.is::primitive):  u16 __native(\"/prim/convert\");\nfn  u32 !T(v: T) case (T.is::primitive):  u32 __native(\"/prim/convert\");\nfn  u64 !T(v: T) case (T.is::primitive):  u64 __native(\"/prim/convert\");\nfn u128 !T(v: T) case (T.is::primitive): u128 __native(\"/prim/convert\");\n\nfn  f32 !T(v: T) case (T.is::primitive): f32 __native(\"/prim/convert\");\nfn  f64 !T(v: T) case (T.is::primitive): f64 __native(\"/prim/convert\");\n\nfn byte !T(v: T) case (T.is::primitive): byte __native(\"/prim/convert\");\n\nfn unsigned !T(v: T)\n    case (T -> i8)     v.u8;\n    case (T -> i16)    v.u16;\n    case (T -> i32)    v.u32;\n    case (T -> i64)    v.u64;\n    case (T -> i128)   v.u128;\n    case (T.is::integral && T.is::unsigned) v;\n\nfn signed !T(v: T)\n    case (T -> u8)     v.i8;\n    case (T -> u16)    v.i16;\n    case (T -> u32)    v.i32;\n    case (T -> u64)    v.i64;\n    case (T -> u128)   v.i128;\n    case (T.is::integral && !T.is::unsigned) v;\n\nfn MIN(type T)\n    case (T -> i8 )        -128;\n    case (T -> i16)        -32768;\n    case (T -> i32)        -2147483648;\n    case (T -> i64)        -9223372036854775808;\n    case (T.is::unsigned)  T(0);\n\nfn MAX(type T)\n    case (T -> i8 )        127;\n    case (T -> i16)        32767;\n    case (T -> i32)        2147483647;\n    case (T -> i64)        9223372036854775807;\n    case (T.is::unsigned)  ~T(0);\n\ntype  int   = i32; // These may become separate types\ntype uint   = u32; //  with a user-selectable size.\n\n\n// Math.\n\nfn abs !T(v: T)\n    case (T.is::floating_point): T __native(\"<cmath>\", \"std::fabs\");\n    case (T.is::arithmetic && !T.is::unsigned) v < 0 ? -v : v;\n\nfn max !T(a: T, b: T)\n    case (T.is::floating_point): T __native(\"<cmath>\", \"std::fmin\");\n    case (T.is::arithmetic) a >= b ? a : b;\n\nfn min !T(a: T, b: T)\n    case (T.is::floating_point): T __native(\"<cmath>\", \"std::fmax\");\n    case (T.is::arithmetic) a <= b ? a : b;\n\nfn exp   !T(a: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::exp\");\nfn exp2  !T(a: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::exp2\");\nfn log   !T(a: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::log\");\nfn log10 !T(a: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::log10\");\nfn log2  !T(a: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::log2\");\n\nfn pow   !T(a: T, b: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::pow\");\nfn sqrt  !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::sqrt\");\nfn cbrt  !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::cbrt\");\nfn hypot !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::hypot\");\n\nfn ceil  !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::ceil\");\nfn floor !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::floor\");\nfn trunc !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::trunc\");\nfn round !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::round\");\n\nfn sin !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::sin\");\nfn cos !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::cos\");\nfn tan !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::tan\");\n\nfn asin !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::asin\");\nfn acos !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::acos\");\nfn atan !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::atan\");\n\nfn atan2 !T(y: T, x: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::atan2\");\n\nfn PI (type T) case (T.is::floating_point): T __native(\"<math.h>\", \"static_cast<>(M_PI)\");\nfn E  (type T) case (T.is::floating_point): T __native(\"<math.h>\", \"static_cast<>(M_E)\");\nfn INF(type T) case (T.is::floating_point): T __native(\"<math.h>\", \"static_cast<>(INFINITY)\");\nfn NAN(type T) case (T.is::floating_point): T __native(\"<math.h>\", \"static_cast<>(NAN)\");\n\nfn nan    !T(v: T) case (T.is::floating_point): bool __native(\"<cmath>\", \"std::isnan\");\nfn inf    !T(v: T) case (T.is::floating_point): bool __native(\"<cmath>\", \"std::isinf\");\nfn finite !T(v: T) case (T.is::floating_point): bool __native(\"<cmath>\", \"std::isfinite\");\n\n\n// Assignment.\n\ninfix fn   = !T(mut ref a: T,    mut b: T): &mut T __native;\ninfix fn ||= !T(mut ref a: T, inline b: T): &mut T = a || (a = b);\ninfix fn &&= !T(mut ref a: T, inline b: T): &mut T = a && (a = b);\n\nfn swap !T(mut ref a: T, mut ref b: T): void __native(\n    \"hacks/soft_risk\",\n    \"<utility>\", \"std::swap\");\n\n\n\n// Arrays.\n//\n// TODO mutval .=,\n//  just like the assignments and splice.\n\nfn typeof !T(lax _: T) = T;\n\nfn  [] (type T) = typeof([] => T []);\nfn [:] (type T) = typeof([] => T[:]);\n\nnovec fn len !T(a: T[:]): int __native(\".size()\");\n\nnovec fn [] !T(ref a: T[:], i: int)\n    case (typeof(a) -> &mut T[:]): &mut T __native(\".mutref\");\n    default                      : &    T __native;\n\nnovec fn [:] !T(ref a: T[:], start!: int)\n    case (typeof(a) -> &mut T[:]): &mut T[:] __native(\"<fu/view.h>\", \"fu::get_view_mut\");\n    default                      : &    T[:] __native(\"<fu/view.h>\", \"fu::get_view\");\n\nnovec fn [:] !T(ref a: T[:], end!: int)\n    case (typeof(a) -> &mut T[:]): &mut T[:] __native(\"<fu/view.h>\", \"fu::get_view_start0_mut\");\n    default                      : &    T[:] __native(\"<fu/view.h>\", \"fu::get_view_start0\");\n\nnovec fn [:] !T(ref a: T[:], start: int, end: int)\n    case (typeof(a) -> &mut T[:]): &mut T[:] __native(\"<fu/view.h>\", \"fu::get_view_mut\");\n    default                      : &    T[:] __native(\"<fu/view.h>\", \"fu::get_view\");\n\nfn    push !T(mut ref a: T[], mut b: T): void __native(\".push\");\nfn unshift !T(mut ref a: T[], mut b: T): void __native(\".unshift\");\nfn  insert !T(mut ref a: T[], i: int, mut b: T): void __native(\".insert\");\n\nfn slice !T(const ref a: T[:], start: int, end: int)\n    case (typeof(a) -> T[]):  T[] __native(\"<fu/vec/LEGACY_slice.h>\", \"fu::slice\");\n    default                : T[:] __native(\"<fu/view.h>\", \"fu::get_view\");\n\nfn slice !T(const ref a: T[:], start: int)\n    case (typeof(a) -> T[]):  T[] __native(\"<fu/vec/LEGACY_slice.h>\", \"fu::slice\");\n    default                : T[:] __native(\"<fu/view.h>\", \"fu::get_view\");\n\nfn substr !T(a: T[], start: int, end: int): T[] __native(\"<fu/vec/LEGACY_slice.h>\", \"fu::substr\");\n\nfn splice !T(mut ref a: T[], start: int, count: int): void  __native(\".splice\");\nfn splice !T(mut ref a: T[], start: int, count: int, /*TODO FIX*/b: T[:]): void  __native(\".splice\");\n\nfn    pop !T(mut ref a: T[]): void __native(\".pop()\");\nfn  shift !T(mut ref a: T[]): void __native(\".shift()\");\n\nfn  clear !T(mut ref a: T[]): void __native(\".clear()\");\nfn shrink !T(mut ref a: T[], len: int): void __native(\".shrink\");\n\nfn resize !T(mut ref a: T[], len: int): void __native(\".resize\");\nfn   grow !T(mut ref a: T[], len: int): void __native(\".grow\");\n\nfn resize_junk !T(mut ref a: T[], len: int): void __native(\".resize<false>\");\nfn   grow_junk !T(mut ref a: T[], len: int): void __native(\".grow<false>\");\n\n\n// Sorts, via std::sort - fnptrs.\n\nfn sort !T(mut ref a: T[:]): void\n{\n    pragma include(\"<algorithm>\");\n    pragma emit(\n    `\n        auto* data = `a`.data_mut();\n        std::sort(data, data + `a`.size());\n    `);\n}\n\nfn sort !T(mut ref a: T[:], less/*: fn(a: T, b: T): bool*/): void\n{\n    noflow fn sort()\n    {\n        mut l: T;\n        mut r: T;\n        pragma include(\"<algorithm>\");\n        pragma emit(\n        `\n            (void) `l`;\n            (void) `r`;\n            auto* data = `a`.data_mut();\n            std::sort(data, data + `a`.size(), [&](auto& `l`, auto& `r`)\n            {\n        `);\n\n        mut lt: bool = less(l, r);\n        pragma emit(\n        `\n                return `lt`;\n            });\n        `);\n    }\n\n    sort();\n}\n\n\n// String likes.\n\nfn has(a: <T>[..], b: T[..] or T) = a.find(b) >= 0;\n\nfn find(haystack: <T>[..], needle: T[..] or T, start?: int or [], end?: int or []): int\n{\n    type Start  = typeof(start);\n    type End    = typeof(end);\n\n    // Keep things simple.\n    if !(Start -> [] && End -> [])\n    {\n        let slice = Start -> [] ? haystack[      .. end]\n                  : End   -> [] ? haystack[start ..    ]\n                                : haystack[start .. end];\n\n        let res = slice.find(needle);\n        return res + (res < 0 ? 0 : start);\n    }\n\n    // Char vs string.\n    if (typeof(needle) -> T)\n    {\n        for (mut i = 0; i < haystack.len; i++)\n            if (haystack[i] == needle)\n                return i;\n\n        return -1;\n    }\n\n    // Shorter haystack & empty needle.\n    if (haystack.len < needle.len || needle.len <= 0)\n        return needle.len ? -1 : 0;\n\n    // This is both a fast path for single-item needles,\n    //  and simplifies the loops below,\n    //   where the Booyer-Moore trick can rely on needle having at least two items.\n    if (needle.len == 1)\n        return haystack.find(needle[0]);\n\n\n    // Try to go for a whole needle comparison\n    //  if the needle is small enough to fit in an integer.\n    //\n    // This works, never measured if it speeds anything up though.\n\n    // if (T.is::primitive && !T.is::floating_point\n    //                     && needle.len * sizeof(T) <= 16)\n    // {\n    //     let shift       = (sizeof(T) * 8).u128;\n    //     let mask        = needle.len * sizeof(T) * 8;\n    //     shadow let mask =\n    //         mask < 128  ? ~(~(0.u128) << (needle.len * sizeof(T) * 8).u128)\n    //                     :   ~(0.u128);\n    //\n    //     mut reg_needle:     u128;\n    //     mut reg_haystack:   u128;\n    //     for (mut i = 0; i < needle.len; i++) {\n    //         reg_needle    <<= shift;\n    //         reg_haystack  <<= shift;\n    //         reg_needle     |= needle[i].u128;\n    //         reg_haystack   |= haystack[i].u128;\n    //     }\n    //\n    //     mut i = needle.len;\n    //     for (;;) {\n    //         if (reg_haystack == reg_needle)\n    //             return i - needle.len;\n    //\n    //         if !(i < haystack.len)\n    //             return -1;\n    //\n    //         reg_haystack  <<= shift;\n    //         reg_haystack   &= mask;\n    //         reg_haystack   |= haystack[i++].u128;\n    //     }\n    // }\n\n\n    // Booyer-Moore trick from FBString::find,\n    //  modified to avoid testing the last needle character twice.\n\n    let needle_len_m1       = needle.len - 1;\n    let needle_last_char    = needle[needle_len_m1];\n\n    // How many bytes are skipped when a mismatch is found after tail matches -\n    //  if needle is 'aa', then skip would be 1, if needle doesn't repeat the tail byte,\n    //   skip would be needle.len.\n    mut skip = 0;\n\n    for (mut i = needle_len_m1;\n             i < haystack.len; )\n    {\n        // Scan for a the tail char of the needle,\n        //  consider using strchr here or something.\n        while (haystack[i] != needle_last_char)\n            if (++i == haystack.len)\n                return -1;\n\n        // Match the rest of the needle,\n        //  consider randomizing this part, should help with crafted needles.\n        for (mut j = 0;; )\n        {\n            // Mismatch halfway through the needle?\n            if (haystack[i - needle_len_m1 + j] != needle[j])\n            {\n                // Init the skip value.\n                if !(skip)\n                {\n                    // Scan the needle backwards,\n                    //  break on first match with needle tail.\n                    skip = needle.len;\n                    for (shadow mut j = needle_len_m1; j --> 0; ) {\n                        if (needle[j] == needle_last_char) {\n                            skip = needle_len_m1 - j;\n                            break;\n                        }\n                    }\n                }\n\n                // Skip over to the next possible tail-char position.\n                i += skip;\n                break;\n            }\n\n            // Entire needle matches?\n            if (++j == needle_len_m1)\n                return i - needle_len_m1;\n        }\n    }\n\n    return -1;\n}\n\n\n// Find char.\n\nfn starts !T(a: T[:], with: T): bool\n{\n    return a.len && a[0] == with;\n}\n\nfn ends !T(a: T[:], with: T): bool\n{\n    return a.len && a[a.len - 1] == with;\n}\n\nfn starts !T(a: T[:], with: T[:]): bool\n{\n    return a.len >= with.len\n        && a[: with.len] == with;\n}\n\nfn ends !T(a: T[:], with: T[:]): bool\n{\n    return a.len >= with.len\n        && a[a.len - with.len : a.len] == with;\n}\n\n// Strings.\n\ntype string = byte[];\n\ninfix fn  >(a: <T>[..], b: T[..]) case (T -> byte) = a <> b > 0;\ninfix fn  <(a: <T>[..], b: T[..]) case (T -> byte) = a <> b < 0;\ninfix fn >=(a: <T>[..], b: T[..]) case (T -> byte) = a <> b >= 0;\ninfix fn <=(a: <T>[..], b: T[..]) case (T -> byte) = a <> b <= 0;\n\n\n// D-style concats.\n//\n// TODO FIX these concats hide copies\n//  which also means they dont work correctly for nocopy stuff\n//\ninfix fn ~ !T(a: T[:], b: T[:]): T[] __native(\"<fu/vec/concat.h>\",     \"+\");\ninfix fn ~ !T(a: T[:], b:  T  ): T[] __native(\"<fu/vec/concat_one.h>\", \"+\");\ninfix fn ~ !T(a:  T  , b: T[:]): T[] __native(\"<fu/vec/concat_one.h>\", \"+\");\n\ninfix fn ~= !T(mut ref a: T[],     b: T[:]): &mut T[] __native(\"<fu/vec/concat.h>\",     \"+=\");\ninfix fn ~= !T(mut ref a: T[], mut b:  T  ): &mut T[] __native(\"<fu/vec/concat_one.h>\", \"+=\");\n\n\n// Fun with views.\n\nfn view !T(ref a: T[:], type of)\n    case (typeof(a) -> &mut T[:] && T.is::reinterpretable && of.is::reinterpretable): &mut [of] __native(\"<fu/view.h>\", \"fu::view_of_mut<>\");\n    case (                          T.is::reinterpretable && of.is::reinterpretable): &    [of] __native(\"<fu/view.h>\", \"fu::view_of<>\");\n\ninfix fn .= !T(mut ref a: T[:], b: T[:]) case (T.is::copy): void __native(\"<fu/vec/view_assign.h>\", \"fu::view_assign\");\n\n// TODO not needed if swap(x, y) alias-ok's its two arguments:\nfn swap !T(mut ref a: T[:], i: int, j: int): void __native(\"<fu/vec/view_swap.h>\", \"fu::view_swap\");\n\nfn partition !T(mut ref a: T[:], predicate)\n{\n    let size = a.len;\n    mut keep = 0;\n    for (mut i = 0; i < size; i++)\n        if (!predicate(a[i])) {\n            if (i > keep)\n                a.swap(i, keep);\n\n            keep++;\n        }\n\n    return keep;\n}\n\nfn remove !T(mut ref a: T[], predicate)\n{\n    if (T.is::trivial)\n    {\n        let size = a.len;\n        mut keep = 0;\n        for (mut i = 0; i < size; i++) {\n            let here = a[i];\n            if (!predicate(here)) {\n                if (i > keep)\n                    a[keep] = here;\n\n                keep++;\n            }\n        }\n    }\n    else\n    {\n        a.shrink(a.partition(fn predicate));\n    }\n}\n\n\n// Stringifiables.\n\ninfix fn ~ (        a: [byte], b.str) a ~ b;\ninfix fn ~ (        a.str, b: [byte]) a ~ b;\ninfix fn ~=(mut ref a: string, b.str) a ~= b;\n\nfn str !T(n: T)\n    case (T.is::unsigned       ): string __native(\"<fu/decstr.h>\", \"fu::u64dec\");\n    case (T.is::integral       ): string __native(\"<fu/decstr.h>\", \"fu::i64dec\");\n    case (T -> bool            ): string __native(\"<fu/decstr.h>\", \"fu::booldec\");\n    case (T -> f32             ): string __native(\"<fu/decstr.h>\", \"fu::f32dec\");\n    case (T -> f64             ): string __native(\"<fu/decstr.h>\", \"fu::f64dec\");\n    case (T.is::enum)\n{\n    for (fieldname i: T)\n        if (n == \"i\")\n            return \"i\";\n\n    return n.i64.str; // TODO FIX use .integer or .arithmetic when we get these\n}\n    case (T.is::flags)\n{\n    mut res: string;\n    for (fieldname i: T)\n        if (n & \"i\")\n            res ~= \"i\" ~ \", \";\n\n    if (res)\n        res.shrink(res.len - 2);\n\n    return res;\n}\n\n\n// Assertions, bugs & fails.\n//  TODO i dont actually think we want to have nullary stuff in prelude,\n//   so TODO needs to take an arg, same with assert - perhaps a pass-through argument.\n\nfn throw(mut reason: string): never __native(\"<fu/never.h>\", \"fu::fail\",\n    \"|Fx_NotDeadCode\", \"|Fx_DontMoveDown\", \"|Fx_Throws\");\n\nfn assert(expression: bool): void __native(\"<fu/assert.h>\", \"fu_ASSERT\", \"|Fx_NotDeadCode\");\n\n\n// Printifiables = anything that implements print.\n\ninline fn print(x: string): string = x;\ninline fn print(x.str)    : string = x;\n\nfn println(parts.print[]: [string]): void __native(\"<fu/print.h>\", \"fu::println\",\n    \"|output\");\n\n\n// String commons.\n\nfn join !T(a: T[][:], sep?: T or T[:] or [])\n{\n    if (a.len < 2)\n        return a.len && a[0];\n\n    let N = typeof(sep) -> T[:] ? sep.len\n          : typeof(sep) ->  T   ? 1\n                                : 0;\n\n    mut size = a[0].len;\n    for (mut i = 1; i < a.len; i++)\n        size += N + a[i].len;\n\n    mut res: T[];\n    res.grow_junk(size);\n\n    let head = a[0];\n    size = head.len;\n    res[: head.len] .= head;\n    for (mut i = 1; i < a.len; i++)\n    {\n        let range = a[i];\n        if (typeof(sep) -> T[:])\n            res[size : size + N] .= sep;\n        else if (typeof(sep) -> T)\n            res[size] = sep;\n\n        size += N;\n        res[size : size + range.len] .= range;\n        size += range.len;\n    }\n\n    return res;\n}\n\nfn split !T(str: T[:], sep: T or T[:], each)\n{\n    mut last = 0;\n    mut next = 0;\n\n    let N = typeof(sep) -> T[:] ? sep.len : 1;\n    if (N) while ((next = str.find(sep, start: last)) >= 0)\n    {\n        each(str.slice(last, next), first?: !last, last?: false);\n        last = next + N;\n    }\n\n    if (last)\n        each(str.slice(last), first?: false, last?: true);\n    else\n        each(str, first?: true, last?: true);\n}\n\nfn split !T(str: T[], sep: T or T[:])\n{\n    mut result: T[][];\n    split(str, :sep, |substr| result ~= substr);\n    return result;\n}\n\n\n// TODO: .replace() is a faster impl of .split().join().\n//  How do we express this so that .split.joins are automatically promoted?\n//   This would be generally useful, e.g.\n//    .map.maps and .map.filters could use this to skip allocs.\n\nfn replace !T(str: T[], all: T or T[:], with: T or T[:] or [])\n{\n    mut result: T[];\n    split(str, sep: all, |substr, lax first, lax last|\n    {\n        if (!first)\n            typeof(with) -> [] ? with() : result ~= with;\n        else if (last)\n            return str;\n\n        result ~= substr;\n    });\n\n    return result;\n}\n\n\n//\n\ninfix fn <> !T(a: T, b: T)\ncase (T.is::primitive) = a < b ? -1 : a > b ? +1 : 0;\ncase (T -> _[:]) {\n    mut cmp = a.len <> b.len;\n    for (mut i = 0; i < a.len && !cmp; i++)\n        cmp = a[i] <> b[i];\n\n    return cmp;\n}\ndefault {\n    lax mut cmp = 0;\n\n    // TODO this would be better if it went through each member doing the trivial work first -\n    //  only then going through them again and looking at e.g. array contents etc,\n    //   this is a first approx but does not go recursively through structs.\n\n    for (fieldname i: T)\n        if (typeof(a.i).is::trivial)\n            if (cmp = a.i <> b.i)\n                return cmp;\n\n    for (fieldname i: T)\n        if !(typeof(a.i).is::trivial)\n            if (cmp = a.i <> b.i)\n                return cmp;\n\n    return 0;\n}\n\ninfix fn == !T(a: T, b: T)\n    case (T.is::primitive): bool __native;\n    default: bool = !(a <> b);\n\ninfix fn != !T(a: T, b: T)\n    case (T.is::primitive): bool __native;\n    default: bool = !!(a <> b);\n\n\n//\n\nfn map !T(a: T[:], fn)\n{\n    mut res: typeof( fn(T, i?: a.len) )[];\n    res.grow_junk(a.len);\n    for (mut i = 0; i < a.len; i++)\n        res[i] = fn(a[i], i?: i);\n\n    return res;\n}\n\nfn each !T(ref a: T[:], fn)\n    for (mut i = 0; i < a.len; i++)\n        fn(a[i], i?: i);\n\nfn reverse !T(mut ref a: T[:])\n{\n    let n1 = a.len - 1;\n    let n2 = a.len >> 1;\n    for (mut i = 0; i < n2; i++)\n        a.swap(i, n1 - i);\n}\n\nfn all !T(a: T[:], pred)\n{\n    a.each: |item, i|\n        if !(pred(item, i?: i))\n            return false;\n\n    return true;\n}\n\nfn some !T(a: T[:], pred)\n{\n    a.each: |item, i|\n        if (pred(item, i?: i))\n            return true;\n\n    return false;\n}\n\n\n\nfn only(ref s: <T>[..]) {\n    assert(s.len == 1);\n    return s[0];\n}\n\nfn first(ref s: <T>[..])\n    s[0];\n\nfn last(ref s: <T>[..])\n    s[s.len - 1];\n\nfn not_first(ref s: <T>[..])\n    s[s.len && 1 ..];\n\nfn not_last(ref s: <T>[..])\n    s[.. s.len && s.len - 1];\n\nfn if_only(ref s: <T>[..])\n    s.len == 1 && s[0];\n\nfn if_first(ref s: <T>[..])\n    s.len && s[0];\n\nfn if_last(ref s: <T>[..])\n    s.len && s[s.len - 1];\n\nfn TODO_REMOVE_bootstrap() true;\n"
+static const fu::str PRELUDE_SRC fu_INIT_PRIORITY(1011) = "\n\n\n// Arithmetics.\n\nprefix fn + !T(a: T) case (T.is::arithmetic): T __native;\nprefix fn - !T(a: T) case (T.is::arithmetic): T __native;\n\ninfix fn + !T(a: T, b: T) case (T.is::arithmetic): T __native;\ninfix fn - !T(a: T, b: T) case (T.is::arithmetic): T __native;\ninfix fn * !T(a: T, b: T) case (T.is::arithmetic): T __native;\ninfix fn / !T(a: T, b: T) case (T.is::arithmetic): T __native;\n\ninfix fn % !T(a: T, b: T)\n    case (T.is::integral): T __native;\n    case (T.is::floating_point): T __native(\"<cmath>\", \"std::fmod\");\n\nprefix fn ++ !T(mut ref a: T) case (T.is::arithmetic): &mut T __native;\nprefix fn -- !T(mut ref a: T) case (T.is::arithmetic): &mut T __native;\n\npostfix fn ++ !T(mut ref a: T) case (T.is::arithmetic): T __native;\npostfix fn -- !T(mut ref a: T) case (T.is::arithmetic): T __native;\n\ninfix fn += !T(mut ref a: T, b: T) case (T.is::arithmetic): &mut T __native;\ninfix fn -= !T(mut ref a: T, b: T) case (T.is::arithmetic): &mut T __native;\ninfix fn *= !T(mut ref a: T, b: T) case (T.is::arithmetic): &mut T __native;\ninfix fn /= !T(mut ref a: T, b: T) case (T.is::arithmetic): &mut T __native;\n\ninfix fn >  !T(a: T, b: T) case (T.is::primitive): bool __native;\ninfix fn <  !T(a: T, b: T) case (T.is::primitive): bool __native;\ninfix fn >= !T(a: T, b: T) case (T.is::primitive): bool __native;\ninfix fn <= !T(a: T, b: T) case (T.is::primitive): bool __native;\n\n\n// Bitwise.\n\nprefix fn ~ !T(a: T) case (T.is::bitfield): T __native;\n\ninfix fn & !T(a: T, b: T) case (T.is::bitfield): T __native;\ninfix fn | !T(a: T, b: T) case (T.is::bitfield): T __native;\ninfix fn ^ !T(a: T, b: T) case (T.is::bitfield): T __native;\n\ninfix fn &= !T(mut ref a: T, b: T) case (T.is::bitfield): &mut T __native;\ninfix fn |= !T(mut ref a: T, b: T) case (T.is::bitfield): &mut T __native;\ninfix fn ^= !T(mut ref a: T, b: T) case (T.is::bitfield): &mut T __native;\n\ninfix fn << !T(a: T, b: T) case (T.is::integral): T __native;\ninfix fn >> !T(a: T, b: T) case (T.is::integral): T __native;\n\ninfix fn <<= !T(mut ref a: T, b: T) case (T.is::integral): &mut T __native;\ninfix fn >>= !T(mut ref a: T, b: T) case (T.is::integral): &mut T __native;\n\n\n// Numeric conversions.\n/*  Sketch for making these programmable.\n\ninfix fn => !From(from: From, type Into)\n    case (Into.is::primitive && From.is::primitive)\n        __native(\"/prim_convert\");\n*/\n\nfn   i8 !T(v: T) case (T.is::primitive):   i8 __native(\"/prim/convert\");\nfn  i16 !T(v: T) case (T.is::primitive):  i16 __native(\"/prim/convert\");\nfn  i32 !T(v: T) case (T.is::primitive):  i32 __native(\"/prim/convert\");\nfn  i64 !T(v: T) case (T.is::primitive):  i64 __native(\"/prim/convert\");\nfn i128 !T(v: T) case (T.is::primitive): i128 __native(\"/prim/convert\");\n\nfn   u8 !T(v: T) case (T.is::primitive):   u8 __native(\"/prim/convert\");\nfn  u16 !T(v: T) case (T.is::primitive):  u16 __native(\"/prim/convert\");\nfn  u32 !T(v: T) case (T.is::primitive):  u32 __native(\"/prim/convert\");\nfn  u64 !T(v: T) case (T.is::primitive):  u64 __native(\"/prim/convert\");\nfn u128 !T(v: T) case (T.is::primitive): u128 __native(\"/prim/convert\");\n\nfn  f32 !T(v: T) case (T.is::primitive): f32 __native(\"/prim/convert\");\nfn  f64 !T(v: T) case (T.is::primitive): f64 __native(\"/prim/convert\");\n\nfn byte !T(v: T) case (T.is::primitive): byte __native(\"/prim/convert\");\n\nfn unsigned !T(v: T)\n    case (T -> i8)     v.u8;\n    case (T -> i16)    v.u16;\n    case (T -> i32)    v.u32;\n    case (T -> i64)    v.u64;\n    case (T -> i128)   v.u128;\n    case (T.is::integral && T.is::unsigned) v;\n\nfn signed !T(v: T)\n    case (T -> u8)     v.i8;\n    case (T -> u16)    v.i16;\n    case (T -> u32)    v.i32;\n    case (T -> u64)    v.i64;\n    case (T -> u128)   v.i128;\n    case (T.is::integral && !T.is::unsigned) v;\n\nfn MIN(type T)\n    case (T -> i8 )        -128;\n    case (T -> i16)        -32768;\n    case (T -> i32)        -2147483648;\n    case (T -> i64)        -9223372036854775808;\n    case (T.is::unsigned)  T(0);\n\nfn MAX(type T)\n    case (T -> i8 )        127;\n    case (T -> i16)        32767;\n    case (T -> i32)        2147483647;\n    case (T -> i64)        9223372036854775807;\n    case (T.is::unsigned)  ~T(0);\n\ntype  int   = i32; // These may become separate types\ntype uint   = u32; //  with a user-selectable size.\n\n\n// Math.\n\nfn abs !T(v: T)\n    case (T.is::floating_point): T __native(\"<cmath>\", \"std::fabs\");\n    case (T.is::arithmetic && !T.is::unsigned) v < 0 ? -v : v;\n\nfn max !T(a: T, b: T)\n    case (T.is::floating_point): T __native(\"<cmath>\", \"std::fmax\");\n    case (T.is::arithmetic) a >= b ? a : b;\n\nfn min !T(a: T, b: T)\n    case (T.is::floating_point): T __native(\"<cmath>\", \"std::fmin\");\n    case (T.is::arithmetic) a <= b ? a : b;\n\nfn exp   !T(a: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::exp\");\nfn exp2  !T(a: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::exp2\");\nfn log   !T(a: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::log\");\nfn log10 !T(a: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::log10\");\nfn log2  !T(a: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::log2\");\n\nfn pow   !T(a: T, b: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::pow\");\nfn sqrt  !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::sqrt\");\nfn cbrt  !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::cbrt\");\nfn hypot !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::hypot\");\n\nfn ceil  !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::ceil\");\nfn floor !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::floor\");\nfn trunc !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::trunc\");\nfn round !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::round\");\n\nfn sin !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::sin\");\nfn cos !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::cos\");\nfn tan !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::tan\");\n\nfn asin !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::asin\");\nfn acos !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::acos\");\nfn atan !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::atan\");\n\nfn atan2 !T(y: T, x: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::atan2\");\n\nfn PI (type T) case (T.is::floating_point): T __native(\"<math.h>\", \"static_cast<>(M_PI)\");\nfn E  (type T) case (T.is::floating_point): T __native(\"<math.h>\", \"static_cast<>(M_E)\");\nfn INF(type T) case (T.is::floating_point): T __native(\"<math.h>\", \"static_cast<>(INFINITY)\");\nfn NAN(type T) case (T.is::floating_point): T __native(\"<math.h>\", \"static_cast<>(NAN)\");\n\nfn nan    !T(v: T) case (T.is::floating_point): bool __native(\"<cmath>\", \"std::isnan\");\nfn inf    !T(v: T) case (T.is::floating_point): bool __native(\"<cmath>\", \"std::isinf\");\nfn finite !T(v: T) case (T.is::floating_point): bool __native(\"<cmath>\", \"std::isfinite\");\n\n\n// Assignment.\n\ninfix fn   = !T(mut ref a: T,    mut b: T): &mut T __native;\ninfix fn ||= !T(mut ref a: T, inline b: T): &mut T = a || (a = b);\ninfix fn &&= !T(mut ref a: T, inline b: T): &mut T = a && (a = b);\n\nfn swap !T(mut ref a: T, mut ref b: T): void __native(\n    \"hacks/soft_risk\",\n    \"<utility>\", \"std::swap\");\n\n\n\n// Arrays.\n//\n// TODO mutval .=,\n//  just like the assignments and splice.\n\nfn typeof !T(lax _: T) = T;\n\nfn  [] (type T) = typeof([] => T []);\nfn [:] (type T) = typeof([] => T[:]);\n\nnovec fn len !T(a: T[:]): int __native(\".size()\");\n\nnovec fn [] !T(ref a: T[:], i: int)\n    case (typeof(a) -> &mut T[:]): &mut T __native(\".mutref\");\n    default                      : &    T __native;\n\nnovec fn [:] !T(ref a: T[:], start!: int)\n    case (typeof(a) -> &mut T[:]): &mut T[:] __native(\"<fu/view.h>\", \"fu::get_view_mut\");\n    default                      : &    T[:] __native(\"<fu/view.h>\", \"fu::get_view\");\n\nnovec fn [:] !T(ref a: T[:], end!: int)\n    case (typeof(a) -> &mut T[:]): &mut T[:] __native(\"<fu/view.h>\", \"fu::get_view_start0_mut\");\n    default                      : &    T[:] __native(\"<fu/view.h>\", \"fu::get_view_start0\");\n\nnovec fn [:] !T(ref a: T[:], start: int, end: int)\n    case (typeof(a) -> &mut T[:]): &mut T[:] __native(\"<fu/view.h>\", \"fu::get_view_mut\");\n    default                      : &    T[:] __native(\"<fu/view.h>\", \"fu::get_view\");\n\nfn    push !T(mut ref a: T[], mut b: T): void __native(\".push\");\nfn unshift !T(mut ref a: T[], mut b: T): void __native(\".unshift\");\nfn  insert !T(mut ref a: T[], i: int, mut b: T): void __native(\".insert\");\n\nfn slice !T(const ref a: T[:], start: int, end: int)\n    case (typeof(a) -> T[]):  T[] __native(\"<fu/vec/LEGACY_slice.h>\", \"fu::slice\");\n    default                : T[:] __native(\"<fu/view.h>\", \"fu::get_view\");\n\nfn slice !T(const ref a: T[:], start: int)\n    case (typeof(a) -> T[]):  T[] __native(\"<fu/vec/LEGACY_slice.h>\", \"fu::slice\");\n    default                : T[:] __native(\"<fu/view.h>\", \"fu::get_view\");\n\nfn substr !T(a: T[], start: int, end: int): T[] __native(\"<fu/vec/LEGACY_slice.h>\", \"fu::substr\");\n\nfn splice !T(mut ref a: T[], start: int, count: int): void  __native(\".splice\");\nfn splice !T(mut ref a: T[], start: int, count: int, /*TODO FIX*/b: T[:]): void  __native(\".splice\");\n\nfn    pop !T(mut ref a: T[]): void __native(\".pop()\");\nfn  shift !T(mut ref a: T[]): void __native(\".shift()\");\n\nfn  clear !T(mut ref a: T[]): void __native(\".clear()\");\nfn shrink !T(mut ref a: T[], len: int): void __native(\".shrink\");\n\nfn resize !T(mut ref a: T[], len: int): void __native(\".resize\");\nfn   grow !T(mut ref a: T[], len: int): void __native(\".grow\");\n\nfn resize_junk !T(mut ref a: T[], len: int): void __native(\".resize<false>\");\nfn   grow_junk !T(mut ref a: T[], len: int): void __native(\".grow<false>\");\n\n\n// Sorts, via std::sort - fnptrs.\n\nfn sort !T(mut ref a: T[:]): void\n{\n    pragma include(\"<algorithm>\");\n    pragma emit(\n    `\n        auto* data = `a`.data_mut();\n        std::sort(data, data + `a`.size());\n    `);\n}\n\nfn sort !T(mut ref a: T[:], less/*: fn(a: T, b: T): bool*/): void\n{\n    noflow fn sort()\n    {\n        mut l: T;\n        mut r: T;\n        pragma include(\"<algorithm>\");\n        pragma emit(\n        `\n            (void) `l`;\n            (void) `r`;\n            auto* data = `a`.data_mut();\n            std::sort(data, data + `a`.size(), [&](auto& `l`, auto& `r`)\n            {\n        `);\n\n        mut lt: bool = less(l, r);\n        pragma emit(\n        `\n                return `lt`;\n            });\n        `);\n    }\n\n    sort();\n}\n\n\n// String likes.\n\nfn has(a: <T>[..], b: T[..] or T) = a.find(b) >= 0;\n\nfn find(haystack: <T>[..], needle: T[..] or T, start?: int or [], end?: int or []): int\n{\n    type Start  = typeof(start);\n    type End    = typeof(end);\n\n    // Keep things simple.\n    if !(Start -> [] && End -> [])\n    {\n        let slice = Start -> [] ? haystack[      .. end]\n                  : End   -> [] ? haystack[start ..    ]\n                                : haystack[start .. end];\n\n        let res = slice.find(needle);\n        return res + (res < 0 ? 0 : start);\n    }\n\n    // Char vs string.\n    if (typeof(needle) -> T)\n    {\n        for (mut i = 0; i < haystack.len; i++)\n            if (haystack[i] == needle)\n                return i;\n\n        return -1;\n    }\n\n    // Shorter haystack & empty needle.\n    if (haystack.len < needle.len || needle.len <= 0)\n        return needle.len ? -1 : 0;\n\n    // This is both a fast path for single-item needles,\n    //  and simplifies the loops below,\n    //   where the Booyer-Moore trick can rely on needle having at least two items.\n    if (needle.len == 1)\n        return haystack.find(needle[0]);\n\n\n    // Try to go for a whole needle comparison\n    //  if the needle is small enough to fit in an integer.\n    //\n    // This works, never measured if it speeds anything up though.\n\n    // if (T.is::primitive && !T.is::floating_point\n    //                     && needle.len * sizeof(T) <= 16)\n    // {\n    //     let shift       = (sizeof(T) * 8).u128;\n    //     let mask        = needle.len * sizeof(T) * 8;\n    //     shadow let mask =\n    //         mask < 128  ? ~(~(0.u128) << (needle.len * sizeof(T) * 8).u128)\n    //                     :   ~(0.u128);\n    //\n    //     mut reg_needle:     u128;\n    //     mut reg_haystack:   u128;\n    //     for (mut i = 0; i < needle.len; i++) {\n    //         reg_needle    <<= shift;\n    //         reg_haystack  <<= shift;\n    //         reg_needle     |= needle[i].u128;\n    //         reg_haystack   |= haystack[i].u128;\n    //     }\n    //\n    //     mut i = needle.len;\n    //     for (;;) {\n    //         if (reg_haystack == reg_needle)\n    //             return i - needle.len;\n    //\n    //         if !(i < haystack.len)\n    //             return -1;\n    //\n    //         reg_haystack  <<= shift;\n    //         reg_haystack   &= mask;\n    //         reg_haystack   |= haystack[i++].u128;\n    //     }\n    // }\n\n\n    // Booyer-Moore trick from FBString::find,\n    //  modified to avoid testing the last needle character twice.\n\n    let needle_len_m1       = needle.len - 1;\n    let needle_last_char    = needle[needle_len_m1];\n\n    // How many bytes are skipped when a mismatch is found after tail matches -\n    //  if needle is 'aa', then skip would be 1, if needle doesn't repeat the tail byte,\n    //   skip would be needle.len.\n    mut skip = 0;\n\n    for (mut i = needle_len_m1;\n             i < haystack.len; )\n    {\n        // Scan for a the tail char of the needle,\n        //  consider using strchr here or something.\n        while (haystack[i] != needle_last_char)\n            if (++i == haystack.len)\n                return -1;\n\n        // Match the rest of the needle,\n        //  consider randomizing this part, should help with crafted needles.\n        for (mut j = 0;; )\n        {\n            // Mismatch halfway through the needle?\n            if (haystack[i - needle_len_m1 + j] != needle[j])\n            {\n                // Init the skip value.\n                if !(skip)\n                {\n                    // Scan the needle backwards,\n                    //  break on first match with needle tail.\n                    skip = needle.len;\n                    for (shadow mut j = needle_len_m1; j --> 0; ) {\n                        if (needle[j] == needle_last_char) {\n                            skip = needle_len_m1 - j;\n                            break;\n                        }\n                    }\n                }\n\n                // Skip over to the next possible tail-char position.\n                i += skip;\n                break;\n            }\n\n            // Entire needle matches?\n            if (++j == needle_len_m1)\n                return i - needle_len_m1;\n        }\n    }\n\n    return -1;\n}\n\n\n// Find char.\n\nfn starts !T(a: T[:], with: T): bool\n{\n    return a.len && a[0] == with;\n}\n\nfn ends !T(a: T[:], with: T): bool\n{\n    return a.len && a[a.len - 1] == with;\n}\n\nfn starts !T(a: T[:], with: T[:]): bool\n{\n    return a.len >= with.len\n        && a[: with.len] == with;\n}\n\nfn ends !T(a: T[:], with: T[:]): bool\n{\n    return a.len >= with.len\n        && a[a.len - with.len : a.len] == with;\n}\n\n// Strings.\n\ntype string = byte[];\n\ninfix fn  >(a: <T>[..], b: T[..]) case (T -> byte) = a <> b > 0;\ninfix fn  <(a: <T>[..], b: T[..]) case (T -> byte) = a <> b < 0;\ninfix fn >=(a: <T>[..], b: T[..]) case (T -> byte) = a <> b >= 0;\ninfix fn <=(a: <T>[..], b: T[..]) case (T -> byte) = a <> b <= 0;\n\n\n// D-style concats.\n//\n// TODO FIX these concats hide copies\n//  which also means they dont work correctly for nocopy stuff\n//\ninfix fn ~ !T(a: T[:], b: T[:]): T[] __native(\"<fu/vec/concat.h>\",     \"+\");\ninfix fn ~ !T(a: T[:], b:  T  ): T[] __native(\"<fu/vec/concat_one.h>\", \"+\");\ninfix fn ~ !T(a:  T  , b: T[:]): T[] __native(\"<fu/vec/concat_one.h>\", \"+\");\n\ninfix fn ~= !T(mut ref a: T[],     b: T[:]): &mut T[] __native(\"<fu/vec/concat.h>\",     \"+=\");\ninfix fn ~= !T(mut ref a: T[], mut b:  T  ): &mut T[] __native(\"<fu/vec/concat_one.h>\", \"+=\");\n\n\n// Fun with views.\n\nfn view !T(ref a: T[:], type of)\n    case (typeof(a) -> &mut T[:] && T.is::reinterpretable && of.is::reinterpretable): &mut [of] __native(\"<fu/view.h>\", \"fu::view_of_mut<>\");\n    case (                          T.is::reinterpretable && of.is::reinterpretable): &    [of] __native(\"<fu/view.h>\", \"fu::view_of<>\");\n\ninfix fn .= !T(mut ref a: T[:], b: T[:]) case (T.is::copy): void __native(\"<fu/vec/view_assign.h>\", \"fu::view_assign\");\n\n// TODO not needed if swap(x, y) alias-ok's its two arguments:\nfn swap !T(mut ref a: T[:], i: int, j: int): void __native(\"<fu/vec/view_swap.h>\", \"fu::view_swap\");\n\nfn partition !T(mut ref a: T[:], predicate)\n{\n    let size = a.len;\n    mut keep = 0;\n    for (mut i = 0; i < size; i++)\n        if (!predicate(a[i])) {\n            if (i > keep)\n                a.swap(i, keep);\n\n            keep++;\n        }\n\n    return keep;\n}\n\nfn remove !T(mut ref a: T[], predicate)\n{\n    if (T.is::trivial)\n    {\n        let size = a.len;\n        mut keep = 0;\n        for (mut i = 0; i < size; i++) {\n            let here = a[i];\n            if (!predicate(here)) {\n                if (i > keep)\n                    a[keep] = here;\n\n                keep++;\n            }\n        }\n    }\n    else\n    {\n        a.shrink(a.partition(fn predicate));\n    }\n}\n\n\n// Stringifiables.\n\ninfix fn ~ (        a: [byte], b.str) a ~ b;\ninfix fn ~ (        a.str, b: [byte]) a ~ b;\ninfix fn ~=(mut ref a: string, b.str) a ~= b;\n\nfn str !T(n: T)\n    case (T.is::unsigned       ): string __native(\"<fu/decstr.h>\", \"fu::u64dec\");\n    case (T.is::integral       ): string __native(\"<fu/decstr.h>\", \"fu::i64dec\");\n    case (T -> bool            ): string __native(\"<fu/decstr.h>\", \"fu::booldec\");\n    case (T -> f32             ): string __native(\"<fu/decstr.h>\", \"fu::f32dec\");\n    case (T -> f64             ): string __native(\"<fu/decstr.h>\", \"fu::f64dec\");\n    case (T.is::enum)\n{\n    for (fieldname i: T)\n        if (n == \"i\")\n            return \"i\";\n\n    return n.i64.str; // TODO FIX use .integer or .arithmetic when we get these\n}\n    case (T.is::flags)\n{\n    mut res: string;\n    for (fieldname i: T)\n        if (n & \"i\")\n            res ~= \"i\" ~ \", \";\n\n    if (res)\n        res.shrink(res.len - 2);\n\n    return res;\n}\n\n\n// Assertions, bugs & fails.\n//  TODO i dont actually think we want to have nullary stuff in prelude,\n//   so TODO needs to take an arg, same with assert - perhaps a pass-through argument.\n\nfn throw(mut reason: string): never __native(\"<fu/never.h>\", \"fu::fail\",\n    \"|Fx_NotDeadCode\", \"|Fx_DontMoveDown\", \"|Fx_Throws\");\n\nfn assert(expression: bool): void __native(\"<fu/assert.h>\", \"fu_ASSERT\", \"|Fx_NotDeadCode\");\n\n\n// Printifiables = anything that implements print.\n\ninline fn print(x: string): string = x;\ninline fn print(x.str)    : string = x;\n\nfn println(parts.print[]: [string]): void __native(\"<fu/print.h>\", \"fu::println\",\n    \"|output\");\n\n\n// String commons.\n\nfn join !T(a: T[][:], sep?: T or T[:] or [])\n{\n    if (a.len < 2)\n        return a.len && a[0];\n\n    let N = typeof(sep) -> T[:] ? sep.len\n          : typeof(sep) ->  T   ? 1\n                                : 0;\n\n    mut size = a[0].len;\n    for (mut i = 1; i < a.len; i++)\n        size += N + a[i].len;\n\n    mut res: T[];\n    res.grow_junk(size);\n\n    let head = a[0];\n    size = head.len;\n    res[: head.len] .= head;\n    for (mut i = 1; i < a.len; i++)\n    {\n        let range = a[i];\n        if (typeof(sep) -> T[:])\n            res[size : size + N] .= sep;\n        else if (typeof(sep) -> T)\n            res[size] = sep;\n\n        size += N;\n        res[size : size + range.len] .= range;\n        size += range.len;\n    }\n\n    return res;\n}\n\nfn split !T(str: T[:], sep: T or T[:], each)\n{\n    mut last = 0;\n    mut next = 0;\n\n    let N = typeof(sep) -> T[:] ? sep.len : 1;\n    if (N) while ((next = str.find(sep, start: last)) >= 0)\n    {\n        each(str.slice(last, next), first?: !last, last?: false);\n        last = next + N;\n    }\n\n    if (last)\n        each(str.slice(last), first?: false, last?: true);\n    else\n        each(str, first?: true, last?: true);\n}\n\nfn split !T(str: T[], sep: T or T[:])\n{\n    mut result: T[][];\n    split(str, :sep, |substr| result ~= substr);\n    return result;\n}\n\n\n// TODO: .replace() is a faster impl of .split().join().\n//  How do we express this so that .split.joins are automatically promoted?\n//   This would be generally useful, e.g.\n//    .map.maps and .map.filters could use this to skip allocs.\n\nfn replace !T(str: T[], all: T or T[:], with: T or T[:] or [])\n{\n    mut result: T[];\n    split(str, sep: all, |substr, lax first, lax last|\n    {\n        if (!first)\n            typeof(with) -> [] ? with() : result ~= with;\n        else if (last)\n            return str;\n\n        result ~= substr;\n    });\n\n    return result;\n}\n\n\n//\n\ninfix fn <> !T(a: T, b: T)\ncase (T.is::primitive) = a < b ? -1 : a > b ? +1 : 0;\ncase (T -> _[:]) {\n    mut cmp = a.len <> b.len;\n    for (mut i = 0; i < a.len && !cmp; i++)\n        cmp = a[i] <> b[i];\n\n    return cmp;\n}\ndefault {\n    lax mut cmp = 0;\n\n    // TODO this would be better if it went through each member doing the trivial work first -\n    //  only then going through them again and looking at e.g. array contents etc,\n    //   this is a first approx but does not go recursively through structs.\n\n    for (fieldname i: T)\n        if (typeof(a.i).is::trivial)\n            if (cmp = a.i <> b.i)\n                return cmp;\n\n    for (fieldname i: T)\n        if !(typeof(a.i).is::trivial)\n            if (cmp = a.i <> b.i)\n                return cmp;\n\n    return 0;\n}\n\ninfix fn == !T(a: T, b: T)\n    case (T.is::primitive): bool __native;\n    default: bool = !(a <> b);\n\ninfix fn != !T(a: T, b: T)\n    case (T.is::primitive): bool __native;\n    default: bool = !!(a <> b);\n\n\n//\n\nfn map !T(a: T[:], fn)\n{\n    mut res: typeof( fn(T, i?: a.len) )[];\n    res.grow_junk(a.len);\n    for (mut i = 0; i < a.len; i++)\n        res[i] = fn(a[i], i?: i);\n\n    return res;\n}\n\nfn each !T(ref a: T[:], fn)\n    for (mut i = 0; i < a.len; i++)\n        fn(a[i], i?: i);\n\nfn reverse !T(mut ref a: T[:])\n{\n    let n1 = a.len - 1;\n    let n2 = a.len >> 1;\n    for (mut i = 0; i < n2; i++)\n        a.swap(i, n1 - i);\n}\n\nfn all !T(a: T[:], pred)\n{\n    a.each: |item, i|\n        if !(pred(item, i?: i))\n            return false;\n\n    return true;\n}\n\nfn some !T(a: T[:], pred)\n{\n    a.each: |item, i|\n        if (pred(item, i?: i))\n            return true;\n\n    return false;\n}\n\n\n\nfn only(ref s: <T>[..]) {\n    assert(s.len == 1);\n    return s[0];\n}\n\nfn first(ref s: <T>[..])\n    s[0];\n\nfn last(ref s: <T>[..])\n    s[s.len - 1];\n\nfn not_first(ref s: <T>[..])\n    s[s.len && 1 ..];\n\nfn not_last(ref s: <T>[..])\n    s[.. s.len && s.len - 1];\n\nfn if_only(ref s: <T>[..])\n    s.len == 1 && s[0];\n\nfn if_first(ref s: <T>[..])\n    s.len && s[0];\n\nfn if_last(ref s: <T>[..])\n    s.len && s[s.len - 1];\n\nfn TODO_REMOVE_bootstrap() true;\n"
     "fn steal(ref v: <T>) { mut ret: T; swap(v, ret); return ret; } fn steal(ref a: <T>[], start!: int, end!: int) { let size = end - start; mut ret: T[]; ret.resize(size); for (mut i = 0; i < size; i++) swap(ret[i], a[i + start]); a.splice(start, count: size); return ret; } fn steal(ref a: <T>[], start!: int) { mut ret: T[]; ret.resize(a.len - start); for (mut i = 0; i < ret.len; i++) swap(ret[i], a[i + start]); a.shrink(start); return ret; }\n"_fu;
 
 s_Context solvePrelude_eRdBm7hX()
-- 
2.43.0


From 74890208f20c5390f25245c92563a8bb2d8c7663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:33 +0000
Subject: [PATCH 22/46] fix: remove of items of a trivial type must shrink the
 array

---
 src/prelude.fu     | 6 ++----
 src/prelude.fu.cpp | 2 +-
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/prelude.fu b/src/prelude.fu
index 09a9a10..a748751 100644
--- a/src/prelude.fu
+++ b/src/prelude.fu
@@ -540,13 +540,11 @@ fn remove(mut ref a: <T>[], predicate, mut start!keep = 0)
             }
         }
 
-        // TODO FIX this doesn't seem to shrink the array.
-        // TODO FAILCASE appears to be unused.
-        assert(false);
+        a.shrink(keep);
     }
     else
     {
-        a.shrink(a.partition(fn predicate));
+        a.shrink(a.partition(fn predicate, start: keep));
     }
 }
 
diff --git a/src/prelude.fu.cpp b/src/prelude.fu.cpp
index 297396b..00a8035 100644
--- a/src/prelude.fu.cpp
+++ b/src/prelude.fu.cpp
@@ -1349,7 +1349,7 @@ inline s_Module clone_G5fNGz6v(const s_Module& a)
 }
                                 #endif
 
-static const fu::str PRELUDE_SRC fu_INIT_PRIORITY(1011) = "\n\n\n// Arithmetics.\n\nprefix fn + !T(a: T) case (T.is::arithmetic): T __native;\nprefix fn - !T(a: T) case (T.is::arithmetic): T __native;\n\ninfix fn + !T(a: T, b: T) case (T.is::arithmetic): T __native;\ninfix fn - !T(a: T, b: T) case (T.is::arithmetic): T __native;\ninfix fn * !T(a: T, b: T) case (T.is::arithmetic): T __native;\ninfix fn / !T(a: T, b: T) case (T.is::arithmetic): T __native;\n\ninfix fn % !T(a: T, b: T)\n    case (T.is::integral): T __native;\n    case (T.is::floating_point): T __native(\"<cmath>\", \"std::fmod\");\n\nprefix fn ++ !T(mut ref a: T) case (T.is::arithmetic): &mut T __native;\nprefix fn -- !T(mut ref a: T) case (T.is::arithmetic): &mut T __native;\n\npostfix fn ++ !T(mut ref a: T) case (T.is::arithmetic): T __native;\npostfix fn -- !T(mut ref a: T) case (T.is::arithmetic): T __native;\n\ninfix fn += !T(mut ref a: T, b: T) case (T.is::arithmetic): &mut T __native;\ninfix fn -= !T(mut ref a: T, b: T) case (T.is::arithmetic): &mut T __native;\ninfix fn *= !T(mut ref a: T, b: T) case (T.is::arithmetic): &mut T __native;\ninfix fn /= !T(mut ref a: T, b: T) case (T.is::arithmetic): &mut T __native;\n\ninfix fn >  !T(a: T, b: T) case (T.is::primitive): bool __native;\ninfix fn <  !T(a: T, b: T) case (T.is::primitive): bool __native;\ninfix fn >= !T(a: T, b: T) case (T.is::primitive): bool __native;\ninfix fn <= !T(a: T, b: T) case (T.is::primitive): bool __native;\n\n\n// Bitwise.\n\nprefix fn ~ !T(a: T) case (T.is::bitfield): T __native;\n\ninfix fn & !T(a: T, b: T) case (T.is::bitfield): T __native;\ninfix fn | !T(a: T, b: T) case (T.is::bitfield): T __native;\ninfix fn ^ !T(a: T, b: T) case (T.is::bitfield): T __native;\n\ninfix fn &= !T(mut ref a: T, b: T) case (T.is::bitfield): &mut T __native;\ninfix fn |= !T(mut ref a: T, b: T) case (T.is::bitfield): &mut T __native;\ninfix fn ^= !T(mut ref a: T, b: T) case (T.is::bitfield): &mut T __native;\n\ninfix fn << !T(a: T, b: T) case (T.is::integral): T __native;\ninfix fn >> !T(a: T, b: T) case (T.is::integral): T __native;\n\ninfix fn <<= !T(mut ref a: T, b: T) case (T.is::integral): &mut T __native;\ninfix fn >>= !T(mut ref a: T, b: T) case (T.is::integral): &mut T __native;\n\n\n// Numeric conversions.\n/*  Sketch for making these programmable.\n\ninfix fn => !From(from: From, type Into)\n    case (Into.is::primitive && From.is::primitive)\n        __native(\"/prim_convert\");\n*/\n\nfn   i8 !T(v: T) case (T.is::primitive):   i8 __native(\"/prim/convert\");\nfn  i16 !T(v: T) case (T.is::primitive):  i16 __native(\"/prim/convert\");\nfn  i32 !T(v: T) case (T.is::primitive):  i32 __native(\"/prim/convert\");\nfn  i64 !T(v: T) case (T.is::primitive):  i64 __native(\"/prim/convert\");\nfn i128 !T(v: T) case (T.is::primitive): i128 __native(\"/prim/convert\");\n\nfn   u8 !T(v: T) case (T.is::primitive):   u8 __native(\"/prim/convert\");\nfn  u16 !T(v: T) case (T.is::primitive):  u16 __native(\"/prim/convert\");\nfn  u32 !T(v: T) case (T.is::primitive):  u32 __native(\"/prim/convert\");\nfn  u64 !T(v: T) case (T.is::primitive):  u64 __native(\"/prim/convert\");\nfn u128 !T(v: T) case (T.is::primitive): u128 __native(\"/prim/convert\");\n\nfn  f32 !T(v: T) case (T.is::primitive): f32 __native(\"/prim/convert\");\nfn  f64 !T(v: T) case (T.is::primitive): f64 __native(\"/prim/convert\");\n\nfn byte !T(v: T) case (T.is::primitive): byte __native(\"/prim/convert\");\n\nfn unsigned !T(v: T)\n    case (T -> i8)     v.u8;\n    case (T -> i16)    v.u16;\n    case (T -> i32)    v.u32;\n    case (T -> i64)    v.u64;\n    case (T -> i128)   v.u128;\n    case (T.is::integral && T.is::unsigned) v;\n\nfn signed !T(v: T)\n    case (T -> u8)     v.i8;\n    case (T -> u16)    v.i16;\n    case (T -> u32)    v.i32;\n    case (T -> u64)    v.i64;\n    case (T -> u128)   v.i128;\n    case (T.is::integral && !T.is::unsigned) v;\n\nfn MIN(type T)\n    case (T -> i8 )        -128;\n    case (T -> i16)        -32768;\n    case (T -> i32)        -2147483648;\n    case (T -> i64)        -9223372036854775808;\n    case (T.is::unsigned)  T(0);\n\nfn MAX(type T)\n    case (T -> i8 )        127;\n    case (T -> i16)        32767;\n    case (T -> i32)        2147483647;\n    case (T -> i64)        9223372036854775807;\n    case (T.is::unsigned)  ~T(0);\n\ntype  int   = i32; // These may become separate types\ntype uint   = u32; //  with a user-selectable size.\n\n\n// Math.\n\nfn abs !T(v: T)\n    case (T.is::floating_point): T __native(\"<cmath>\", \"std::fabs\");\n    case (T.is::arithmetic && !T.is::unsigned) v < 0 ? -v : v;\n\nfn max !T(a: T, b: T)\n    case (T.is::floating_point): T __native(\"<cmath>\", \"std::fmax\");\n    case (T.is::arithmetic) a >= b ? a : b;\n\nfn min !T(a: T, b: T)\n    case (T.is::floating_point): T __native(\"<cmath>\", \"std::fmin\");\n    case (T.is::arithmetic) a <= b ? a : b;\n\nfn exp   !T(a: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::exp\");\nfn exp2  !T(a: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::exp2\");\nfn log   !T(a: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::log\");\nfn log10 !T(a: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::log10\");\nfn log2  !T(a: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::log2\");\n\nfn pow   !T(a: T, b: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::pow\");\nfn sqrt  !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::sqrt\");\nfn cbrt  !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::cbrt\");\nfn hypot !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::hypot\");\n\nfn ceil  !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::ceil\");\nfn floor !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::floor\");\nfn trunc !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::trunc\");\nfn round !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::round\");\n\nfn sin !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::sin\");\nfn cos !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::cos\");\nfn tan !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::tan\");\n\nfn asin !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::asin\");\nfn acos !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::acos\");\nfn atan !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::atan\");\n\nfn atan2 !T(y: T, x: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::atan2\");\n\nfn PI (type T) case (T.is::floating_point): T __native(\"<math.h>\", \"static_cast<>(M_PI)\");\nfn E  (type T) case (T.is::floating_point): T __native(\"<math.h>\", \"static_cast<>(M_E)\");\nfn INF(type T) case (T.is::floating_point): T __native(\"<math.h>\", \"static_cast<>(INFINITY)\");\nfn NAN(type T) case (T.is::floating_point): T __native(\"<math.h>\", \"static_cast<>(NAN)\");\n\nfn nan    !T(v: T) case (T.is::floating_point): bool __native(\"<cmath>\", \"std::isnan\");\nfn inf    !T(v: T) case (T.is::floating_point): bool __native(\"<cmath>\", \"std::isinf\");\nfn finite !T(v: T) case (T.is::floating_point): bool __native(\"<cmath>\", \"std::isfinite\");\n\n\n// Assignment.\n\ninfix fn   = !T(mut ref a: T,    mut b: T): &mut T __native;\ninfix fn ||= !T(mut ref a: T, inline b: T): &mut T = a || (a = b);\ninfix fn &&= !T(mut ref a: T, inline b: T): &mut T = a && (a = b);\n\nfn swap !T(mut ref a: T, mut ref b: T): void __native(\n    \"hacks/soft_risk\",\n    \"<utility>\", \"std::swap\");\n\n\n\n// Arrays.\n//\n// TODO mutval .=,\n//  just like the assignments and splice.\n\nfn typeof !T(lax _: T) = T;\n\nfn  [] (type T) = typeof([] => T []);\nfn [:] (type T) = typeof([] => T[:]);\n\nnovec fn len !T(a: T[:]): int __native(\".size()\");\n\nnovec fn [] !T(ref a: T[:], i: int)\n    case (typeof(a) -> &mut T[:]): &mut T __native(\".mutref\");\n    default                      : &    T __native;\n\nnovec fn [:] !T(ref a: T[:], start!: int)\n    case (typeof(a) -> &mut T[:]): &mut T[:] __native(\"<fu/view.h>\", \"fu::get_view_mut\");\n    default                      : &    T[:] __native(\"<fu/view.h>\", \"fu::get_view\");\n\nnovec fn [:] !T(ref a: T[:], end!: int)\n    case (typeof(a) -> &mut T[:]): &mut T[:] __native(\"<fu/view.h>\", \"fu::get_view_start0_mut\");\n    default                      : &    T[:] __native(\"<fu/view.h>\", \"fu::get_view_start0\");\n\nnovec fn [:] !T(ref a: T[:], start: int, end: int)\n    case (typeof(a) -> &mut T[:]): &mut T[:] __native(\"<fu/view.h>\", \"fu::get_view_mut\");\n    default                      : &    T[:] __native(\"<fu/view.h>\", \"fu::get_view\");\n\nfn    push !T(mut ref a: T[], mut b: T): void __native(\".push\");\nfn unshift !T(mut ref a: T[], mut b: T): void __native(\".unshift\");\nfn  insert !T(mut ref a: T[], i: int, mut b: T): void __native(\".insert\");\n\nfn slice !T(const ref a: T[:], start: int, end: int)\n    case (typeof(a) -> T[]):  T[] __native(\"<fu/vec/LEGACY_slice.h>\", \"fu::slice\");\n    default                : T[:] __native(\"<fu/view.h>\", \"fu::get_view\");\n\nfn slice !T(const ref a: T[:], start: int)\n    case (typeof(a) -> T[]):  T[] __native(\"<fu/vec/LEGACY_slice.h>\", \"fu::slice\");\n    default                : T[:] __native(\"<fu/view.h>\", \"fu::get_view\");\n\nfn substr !T(a: T[], start: int, end: int): T[] __native(\"<fu/vec/LEGACY_slice.h>\", \"fu::substr\");\n\nfn splice !T(mut ref a: T[], start: int, count: int): void  __native(\".splice\");\nfn splice !T(mut ref a: T[], start: int, count: int, /*TODO FIX*/b: T[:]): void  __native(\".splice\");\n\nfn    pop !T(mut ref a: T[]): void __native(\".pop()\");\nfn  shift !T(mut ref a: T[]): void __native(\".shift()\");\n\nfn  clear !T(mut ref a: T[]): void __native(\".clear()\");\nfn shrink !T(mut ref a: T[], len: int): void __native(\".shrink\");\n\nfn resize !T(mut ref a: T[], len: int): void __native(\".resize\");\nfn   grow !T(mut ref a: T[], len: int): void __native(\".grow\");\n\nfn resize_junk !T(mut ref a: T[], len: int): void __native(\".resize<false>\");\nfn   grow_junk !T(mut ref a: T[], len: int): void __native(\".grow<false>\");\n\n\n// Sorts, via std::sort - fnptrs.\n\nfn sort !T(mut ref a: T[:]): void\n{\n    pragma include(\"<algorithm>\");\n    pragma emit(\n    `\n        auto* data = `a`.data_mut();\n        std::sort(data, data + `a`.size());\n    `);\n}\n\nfn sort !T(mut ref a: T[:], less/*: fn(a: T, b: T): bool*/): void\n{\n    noflow fn sort()\n    {\n        mut l: T;\n        mut r: T;\n        pragma include(\"<algorithm>\");\n        pragma emit(\n        `\n            (void) `l`;\n            (void) `r`;\n            auto* data = `a`.data_mut();\n            std::sort(data, data + `a`.size(), [&](auto& `l`, auto& `r`)\n            {\n        `);\n\n        mut lt: bool = less(l, r);\n        pragma emit(\n        `\n                return `lt`;\n            });\n        `);\n    }\n\n    sort();\n}\n\n\n// String likes.\n\nfn has(a: <T>[..], b: T[..] or T) = a.find(b) >= 0;\n\nfn find(haystack: <T>[..], needle: T[..] or T, start?: int or [], end?: int or []): int\n{\n    type Start  = typeof(start);\n    type End    = typeof(end);\n\n    // Keep things simple.\n    if !(Start -> [] && End -> [])\n    {\n        let slice = Start -> [] ? haystack[      .. end]\n                  : End   -> [] ? haystack[start ..    ]\n                                : haystack[start .. end];\n\n        let res = slice.find(needle);\n        return res + (res < 0 ? 0 : start);\n    }\n\n    // Char vs string.\n    if (typeof(needle) -> T)\n    {\n        for (mut i = 0; i < haystack.len; i++)\n            if (haystack[i] == needle)\n                return i;\n\n        return -1;\n    }\n\n    // Shorter haystack & empty needle.\n    if (haystack.len < needle.len || needle.len <= 0)\n        return needle.len ? -1 : 0;\n\n    // This is both a fast path for single-item needles,\n    //  and simplifies the loops below,\n    //   where the Booyer-Moore trick can rely on needle having at least two items.\n    if (needle.len == 1)\n        return haystack.find(needle[0]);\n\n\n    // Try to go for a whole needle comparison\n    //  if the needle is small enough to fit in an integer.\n    //\n    // This works, never measured if it speeds anything up though.\n\n    // if (T.is::primitive && !T.is::floating_point\n    //                     && needle.len * sizeof(T) <= 16)\n    // {\n    //     let shift       = (sizeof(T) * 8).u128;\n    //     let mask        = needle.len * sizeof(T) * 8;\n    //     shadow let mask =\n    //         mask < 128  ? ~(~(0.u128) << (needle.len * sizeof(T) * 8).u128)\n    //                     :   ~(0.u128);\n    //\n    //     mut reg_needle:     u128;\n    //     mut reg_haystack:   u128;\n    //     for (mut i = 0; i < needle.len; i++) {\n    //         reg_needle    <<= shift;\n    //         reg_haystack  <<= shift;\n    //         reg_needle     |= needle[i].u128;\n    //         reg_haystack   |= haystack[i].u128;\n    //     }\n    //\n    //     mut i = needle.len;\n    //     for (;;) {\n    //         if (reg_haystack == reg_needle)\n    //             return i - needle.len;\n    //\n    //         if !(i < haystack.len)\n    //             return -1;\n    //\n    //         reg_haystack  <<= shift;\n    //         reg_haystack   &= mask;\n    //         reg_haystack   |= haystack[i++].u128;\n    //     }\n    // }\n\n\n    // Booyer-Moore trick from FBString::find,\n    //  modified to avoid testing the last needle character twice.\n\n    let needle_len_m1       = needle.len - 1;\n    let needle_last_char    = needle[needle_len_m1];\n\n    // How many bytes are skipped when a mismatch is found after tail matches -\n    //  if needle is 'aa', then skip would be 1, if needle doesn't repeat the tail byte,\n    //   skip would be needle.len.\n    mut skip = 0;\n\n    for (mut i = needle_len_m1;\n             i < haystack.len; )\n    {\n        // Scan for a the tail char of the needle,\n        //  consider using strchr here or something.\n        while (haystack[i] != needle_last_char)\n            if (++i == haystack.len)\n                return -1;\n\n        // Match the rest of the needle,\n        //  consider randomizing this part, should help with crafted needles.\n        for (mut j = 0;; )\n        {\n            // Mismatch halfway through the needle?\n            if (haystack[i - needle_len_m1 + j] != needle[j])\n            {\n                // Init the skip value.\n                if !(skip)\n                {\n                    // Scan the needle backwards,\n                    //  break on first match with needle tail.\n                    skip = needle.len;\n                    for (shadow mut j = needle_len_m1; j --> 0; ) {\n                        if (needle[j] == needle_last_char) {\n                            skip = needle_len_m1 - j;\n                            break;\n                        }\n                    }\n                }\n\n                // Skip over to the next possible tail-char position.\n                i += skip;\n                break;\n            }\n\n            // Entire needle matches?\n            if (++j == needle_len_m1)\n                return i - needle_len_m1;\n        }\n    }\n\n    return -1;\n}\n\n\n// Find char.\n\nfn starts !T(a: T[:], with: T): bool\n{\n    return a.len && a[0] == with;\n}\n\nfn ends !T(a: T[:], with: T): bool\n{\n    return a.len && a[a.len - 1] == with;\n}\n\nfn starts !T(a: T[:], with: T[:]): bool\n{\n    return a.len >= with.len\n        && a[: with.len] == with;\n}\n\nfn ends !T(a: T[:], with: T[:]): bool\n{\n    return a.len >= with.len\n        && a[a.len - with.len : a.len] == with;\n}\n\n// Strings.\n\ntype string = byte[];\n\ninfix fn  >(a: <T>[..], b: T[..]) case (T -> byte) = a <> b > 0;\ninfix fn  <(a: <T>[..], b: T[..]) case (T -> byte) = a <> b < 0;\ninfix fn >=(a: <T>[..], b: T[..]) case (T -> byte) = a <> b >= 0;\ninfix fn <=(a: <T>[..], b: T[..]) case (T -> byte) = a <> b <= 0;\n\n\n// D-style concats.\n//\n// TODO FIX these concats hide copies\n//  which also means they dont work correctly for nocopy stuff\n//\ninfix fn ~ !T(a: T[:], b: T[:]): T[] __native(\"<fu/vec/concat.h>\",     \"+\");\ninfix fn ~ !T(a: T[:], b:  T  ): T[] __native(\"<fu/vec/concat_one.h>\", \"+\");\ninfix fn ~ !T(a:  T  , b: T[:]): T[] __native(\"<fu/vec/concat_one.h>\", \"+\");\n\ninfix fn ~= !T(mut ref a: T[],     b: T[:]): &mut T[] __native(\"<fu/vec/concat.h>\",     \"+=\");\ninfix fn ~= !T(mut ref a: T[], mut b:  T  ): &mut T[] __native(\"<fu/vec/concat_one.h>\", \"+=\");\n\n\n// Fun with views.\n\nfn view !T(ref a: T[:], type of)\n    case (typeof(a) -> &mut T[:] && T.is::reinterpretable && of.is::reinterpretable): &mut [of] __native(\"<fu/view.h>\", \"fu::view_of_mut<>\");\n    case (                          T.is::reinterpretable && of.is::reinterpretable): &    [of] __native(\"<fu/view.h>\", \"fu::view_of<>\");\n\ninfix fn .= !T(mut ref a: T[:], b: T[:]) case (T.is::copy): void __native(\"<fu/vec/view_assign.h>\", \"fu::view_assign\");\n\n// TODO not needed if swap(x, y) alias-ok's its two arguments:\nfn swap !T(mut ref a: T[:], i: int, j: int): void __native(\"<fu/vec/view_swap.h>\", \"fu::view_swap\");\n\nfn partition !T(mut ref a: T[:], predicate)\n{\n    let size = a.len;\n    mut keep = 0;\n    for (mut i = 0; i < size; i++)\n        if (!predicate(a[i])) {\n            if (i > keep)\n                a.swap(i, keep);\n\n            keep++;\n        }\n\n    return keep;\n}\n\nfn remove !T(mut ref a: T[], predicate)\n{\n    if (T.is::trivial)\n    {\n        let size = a.len;\n        mut keep = 0;\n        for (mut i = 0; i < size; i++) {\n            let here = a[i];\n            if (!predicate(here)) {\n                if (i > keep)\n                    a[keep] = here;\n\n                keep++;\n            }\n        }\n    }\n    else\n    {\n        a.shrink(a.partition(fn predicate));\n    }\n}\n\n\n// Stringifiables.\n\ninfix fn ~ (        a: [byte], b.str) a ~ b;\ninfix fn ~ (        a.str, b: [byte]) a ~ b;\ninfix fn ~=(mut ref a: string, b.str) a ~= b;\n\nfn str !T(n: T)\n    case (T.is::unsigned       ): string __native(\"<fu/decstr.h>\", \"fu::u64dec\");\n    case (T.is::integral       ): string __native(\"<fu/decstr.h>\", \"fu::i64dec\");\n    case (T -> bool            ): string __native(\"<fu/decstr.h>\", \"fu::booldec\");\n    case (T -> f32             ): string __native(\"<fu/decstr.h>\", \"fu::f32dec\");\n    case (T -> f64             ): string __native(\"<fu/decstr.h>\", \"fu::f64dec\");\n    case (T.is::enum)\n{\n    for (fieldname i: T)\n        if (n == \"i\")\n            return \"i\";\n\n    return n.i64.str; // TODO FIX use .integer or .arithmetic when we get these\n}\n    case (T.is::flags)\n{\n    mut res: string;\n    for (fieldname i: T)\n        if (n & \"i\")\n            res ~= \"i\" ~ \", \";\n\n    if (res)\n        res.shrink(res.len - 2);\n\n    return res;\n}\n\n\n// Assertions, bugs & fails.\n//  TODO i dont actually think we want to have nullary stuff in prelude,\n//   so TODO needs to take an arg, same with assert - perhaps a pass-through argument.\n\nfn throw(mut reason: string): never __native(\"<fu/never.h>\", \"fu::fail\",\n    \"|Fx_NotDeadCode\", \"|Fx_DontMoveDown\", \"|Fx_Throws\");\n\nfn assert(expression: bool): void __native(\"<fu/assert.h>\", \"fu_ASSERT\", \"|Fx_NotDeadCode\");\n\n\n// Printifiables = anything that implements print.\n\ninline fn print(x: string): string = x;\ninline fn print(x.str)    : string = x;\n\nfn println(parts.print[]: [string]): void __native(\"<fu/print.h>\", \"fu::println\",\n    \"|output\");\n\n\n// String commons.\n\nfn join !T(a: T[][:], sep?: T or T[:] or [])\n{\n    if (a.len < 2)\n        return a.len && a[0];\n\n    let N = typeof(sep) -> T[:] ? sep.len\n          : typeof(sep) ->  T   ? 1\n                                : 0;\n\n    mut size = a[0].len;\n    for (mut i = 1; i < a.len; i++)\n        size += N + a[i].len;\n\n    mut res: T[];\n    res.grow_junk(size);\n\n    let head = a[0];\n    size = head.len;\n    res[: head.len] .= head;\n    for (mut i = 1; i < a.len; i++)\n    {\n        let range = a[i];\n        if (typeof(sep) -> T[:])\n            res[size : size + N] .= sep;\n        else if (typeof(sep) -> T)\n            res[size] = sep;\n\n        size += N;\n        res[size : size + range.len] .= range;\n        size += range.len;\n    }\n\n    return res;\n}\n\nfn split !T(str: T[:], sep: T or T[:], each)\n{\n    mut last = 0;\n    mut next = 0;\n\n    let N = typeof(sep) -> T[:] ? sep.len : 1;\n    if (N) while ((next = str.find(sep, start: last)) >= 0)\n    {\n        each(str.slice(last, next), first?: !last, last?: false);\n        last = next + N;\n    }\n\n    if (last)\n        each(str.slice(last), first?: false, last?: true);\n    else\n        each(str, first?: true, last?: true);\n}\n\nfn split !T(str: T[], sep: T or T[:])\n{\n    mut result: T[][];\n    split(str, :sep, |substr| result ~= substr);\n    return result;\n}\n\n\n// TODO: .replace() is a faster impl of .split().join().\n//  How do we express this so that .split.joins are automatically promoted?\n//   This would be generally useful, e.g.\n//    .map.maps and .map.filters could use this to skip allocs.\n\nfn replace !T(str: T[], all: T or T[:], with: T or T[:] or [])\n{\n    mut result: T[];\n    split(str, sep: all, |substr, lax first, lax last|\n    {\n        if (!first)\n            typeof(with) -> [] ? with() : result ~= with;\n        else if (last)\n            return str;\n\n        result ~= substr;\n    });\n\n    return result;\n}\n\n\n//\n\ninfix fn <> !T(a: T, b: T)\ncase (T.is::primitive) = a < b ? -1 : a > b ? +1 : 0;\ncase (T -> _[:]) {\n    mut cmp = a.len <> b.len;\n    for (mut i = 0; i < a.len && !cmp; i++)\n        cmp = a[i] <> b[i];\n\n    return cmp;\n}\ndefault {\n    lax mut cmp = 0;\n\n    // TODO this would be better if it went through each member doing the trivial work first -\n    //  only then going through them again and looking at e.g. array contents etc,\n    //   this is a first approx but does not go recursively through structs.\n\n    for (fieldname i: T)\n        if (typeof(a.i).is::trivial)\n            if (cmp = a.i <> b.i)\n                return cmp;\n\n    for (fieldname i: T)\n        if !(typeof(a.i).is::trivial)\n            if (cmp = a.i <> b.i)\n                return cmp;\n\n    return 0;\n}\n\ninfix fn == !T(a: T, b: T)\n    case (T.is::primitive): bool __native;\n    default: bool = !(a <> b);\n\ninfix fn != !T(a: T, b: T)\n    case (T.is::primitive): bool __native;\n    default: bool = !!(a <> b);\n\n\n//\n\nfn map !T(a: T[:], fn)\n{\n    mut res: typeof( fn(T, i?: a.len) )[];\n    res.grow_junk(a.len);\n    for (mut i = 0; i < a.len; i++)\n        res[i] = fn(a[i], i?: i);\n\n    return res;\n}\n\nfn each !T(ref a: T[:], fn)\n    for (mut i = 0; i < a.len; i++)\n        fn(a[i], i?: i);\n\nfn reverse !T(mut ref a: T[:])\n{\n    let n1 = a.len - 1;\n    let n2 = a.len >> 1;\n    for (mut i = 0; i < n2; i++)\n        a.swap(i, n1 - i);\n}\n\nfn all !T(a: T[:], pred)\n{\n    a.each: |item, i|\n        if !(pred(item, i?: i))\n            return false;\n\n    return true;\n}\n\nfn some !T(a: T[:], pred)\n{\n    a.each: |item, i|\n        if (pred(item, i?: i))\n            return true;\n\n    return false;\n}\n\n\n\nfn only(ref s: <T>[..]) {\n    assert(s.len == 1);\n    return s[0];\n}\n\nfn first(ref s: <T>[..])\n    s[0];\n\nfn last(ref s: <T>[..])\n    s[s.len - 1];\n\nfn not_first(ref s: <T>[..])\n    s[s.len && 1 ..];\n\nfn not_last(ref s: <T>[..])\n    s[.. s.len && s.len - 1];\n\nfn if_only(ref s: <T>[..])\n    s.len == 1 && s[0];\n\nfn if_first(ref s: <T>[..])\n    s.len && s[0];\n\nfn if_last(ref s: <T>[..])\n    s.len && s[s.len - 1];\n\nfn TODO_REMOVE_bootstrap() true;\n"
+static const fu::str PRELUDE_SRC fu_INIT_PRIORITY(1011) = "\n\n\n// Arithmetics.\n\nprefix fn + !T(a: T) case (T.is::arithmetic): T __native;\nprefix fn - !T(a: T) case (T.is::arithmetic): T __native;\n\ninfix fn + !T(a: T, b: T) case (T.is::arithmetic): T __native;\ninfix fn - !T(a: T, b: T) case (T.is::arithmetic): T __native;\ninfix fn * !T(a: T, b: T) case (T.is::arithmetic): T __native;\ninfix fn / !T(a: T, b: T) case (T.is::arithmetic): T __native;\n\ninfix fn % !T(a: T, b: T)\n    case (T.is::integral): T __native;\n    case (T.is::floating_point): T __native(\"<cmath>\", \"std::fmod\");\n\nprefix fn ++ !T(mut ref a: T) case (T.is::arithmetic): &mut T __native;\nprefix fn -- !T(mut ref a: T) case (T.is::arithmetic): &mut T __native;\n\npostfix fn ++ !T(mut ref a: T) case (T.is::arithmetic): T __native;\npostfix fn -- !T(mut ref a: T) case (T.is::arithmetic): T __native;\n\ninfix fn += !T(mut ref a: T, b: T) case (T.is::arithmetic): &mut T __native;\ninfix fn -= !T(mut ref a: T, b: T) case (T.is::arithmetic): &mut T __native;\ninfix fn *= !T(mut ref a: T, b: T) case (T.is::arithmetic): &mut T __native;\ninfix fn /= !T(mut ref a: T, b: T) case (T.is::arithmetic): &mut T __native;\n\ninfix fn >  !T(a: T, b: T) case (T.is::primitive): bool __native;\ninfix fn <  !T(a: T, b: T) case (T.is::primitive): bool __native;\ninfix fn >= !T(a: T, b: T) case (T.is::primitive): bool __native;\ninfix fn <= !T(a: T, b: T) case (T.is::primitive): bool __native;\n\n\n// Bitwise.\n\nprefix fn ~ !T(a: T) case (T.is::bitfield): T __native;\n\ninfix fn & !T(a: T, b: T) case (T.is::bitfield): T __native;\ninfix fn | !T(a: T, b: T) case (T.is::bitfield): T __native;\ninfix fn ^ !T(a: T, b: T) case (T.is::bitfield): T __native;\n\ninfix fn &= !T(mut ref a: T, b: T) case (T.is::bitfield): &mut T __native;\ninfix fn |= !T(mut ref a: T, b: T) case (T.is::bitfield): &mut T __native;\ninfix fn ^= !T(mut ref a: T, b: T) case (T.is::bitfield): &mut T __native;\n\ninfix fn << !T(a: T, b: T) case (T.is::integral): T __native;\ninfix fn >> !T(a: T, b: T) case (T.is::integral): T __native;\n\ninfix fn <<= !T(mut ref a: T, b: T) case (T.is::integral): &mut T __native;\ninfix fn >>= !T(mut ref a: T, b: T) case (T.is::integral): &mut T __native;\n\n\n// Numeric conversions.\n/*  Sketch for making these programmable.\n\ninfix fn => !From(from: From, type Into)\n    case (Into.is::primitive && From.is::primitive)\n        __native(\"/prim_convert\");\n*/\n\nfn   i8 !T(v: T) case (T.is::primitive):   i8 __native(\"/prim/convert\");\nfn  i16 !T(v: T) case (T.is::primitive):  i16 __native(\"/prim/convert\");\nfn  i32 !T(v: T) case (T.is::primitive):  i32 __native(\"/prim/convert\");\nfn  i64 !T(v: T) case (T.is::primitive):  i64 __native(\"/prim/convert\");\nfn i128 !T(v: T) case (T.is::primitive): i128 __native(\"/prim/convert\");\n\nfn   u8 !T(v: T) case (T.is::primitive):   u8 __native(\"/prim/convert\");\nfn  u16 !T(v: T) case (T.is::primitive):  u16 __native(\"/prim/convert\");\nfn  u32 !T(v: T) case (T.is::primitive):  u32 __native(\"/prim/convert\");\nfn  u64 !T(v: T) case (T.is::primitive):  u64 __native(\"/prim/convert\");\nfn u128 !T(v: T) case (T.is::primitive): u128 __native(\"/prim/convert\");\n\nfn  f32 !T(v: T) case (T.is::primitive): f32 __native(\"/prim/convert\");\nfn  f64 !T(v: T) case (T.is::primitive): f64 __native(\"/prim/convert\");\n\nfn byte !T(v: T) case (T.is::primitive): byte __native(\"/prim/convert\");\n\nfn unsigned !T(v: T)\n    case (T -> i8)     v.u8;\n    case (T -> i16)    v.u16;\n    case (T -> i32)    v.u32;\n    case (T -> i64)    v.u64;\n    case (T -> i128)   v.u128;\n    case (T.is::integral && T.is::unsigned) v;\n\nfn signed !T(v: T)\n    case (T -> u8)     v.i8;\n    case (T -> u16)    v.i16;\n    case (T -> u32)    v.i32;\n    case (T -> u64)    v.i64;\n    case (T -> u128)   v.i128;\n    case (T.is::integral && !T.is::unsigned) v;\n\nfn MIN(type T)\n    case (T -> i8 )        -128;\n    case (T -> i16)        -32768;\n    case (T -> i32)        -2147483648;\n    case (T -> i64)        -9223372036854775808;\n    case (T.is::unsigned)  T(0);\n\nfn MAX(type T)\n    case (T -> i8 )        127;\n    case (T -> i16)        32767;\n    case (T -> i32)        2147483647;\n    case (T -> i64)        9223372036854775807;\n    case (T.is::unsigned)  ~T(0);\n\ntype  int   = i32; // These may become separate types\ntype uint   = u32; //  with a user-selectable size.\n\n\n// Math.\n\nfn abs !T(v: T)\n    case (T.is::floating_point): T __native(\"<cmath>\", \"std::fabs\");\n    case (T.is::arithmetic && !T.is::unsigned) v < 0 ? -v : v;\n\nfn max !T(a: T, b: T)\n    case (T.is::floating_point): T __native(\"<cmath>\", \"std::fmax\");\n    case (T.is::arithmetic) a >= b ? a : b;\n\nfn min !T(a: T, b: T)\n    case (T.is::floating_point): T __native(\"<cmath>\", \"std::fmin\");\n    case (T.is::arithmetic) a <= b ? a : b;\n\nfn exp   !T(a: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::exp\");\nfn exp2  !T(a: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::exp2\");\nfn log   !T(a: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::log\");\nfn log10 !T(a: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::log10\");\nfn log2  !T(a: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::log2\");\n\nfn pow   !T(a: T, b: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::pow\");\nfn sqrt  !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::sqrt\");\nfn cbrt  !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::cbrt\");\nfn hypot !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::hypot\");\n\nfn ceil  !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::ceil\");\nfn floor !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::floor\");\nfn trunc !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::trunc\");\nfn round !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::round\");\n\nfn sin !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::sin\");\nfn cos !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::cos\");\nfn tan !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::tan\");\n\nfn asin !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::asin\");\nfn acos !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::acos\");\nfn atan !T(v: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::atan\");\n\nfn atan2 !T(y: T, x: T) case (T.is::floating_point): T __native(\"<cmath>\", \"std::atan2\");\n\nfn PI (type T) case (T.is::floating_point): T __native(\"<math.h>\", \"static_cast<>(M_PI)\");\nfn E  (type T) case (T.is::floating_point): T __native(\"<math.h>\", \"static_cast<>(M_E)\");\nfn INF(type T) case (T.is::floating_point): T __native(\"<math.h>\", \"static_cast<>(INFINITY)\");\nfn NAN(type T) case (T.is::floating_point): T __native(\"<math.h>\", \"static_cast<>(NAN)\");\n\nfn nan    !T(v: T) case (T.is::floating_point): bool __native(\"<cmath>\", \"std::isnan\");\nfn inf    !T(v: T) case (T.is::floating_point): bool __native(\"<cmath>\", \"std::isinf\");\nfn finite !T(v: T) case (T.is::floating_point): bool __native(\"<cmath>\", \"std::isfinite\");\n\n\n// Assignment.\n\ninfix fn   = !T(mut ref a: T,    mut b: T): &mut T __native;\ninfix fn ||= !T(mut ref a: T, inline b: T): &mut T = a || (a = b);\ninfix fn &&= !T(mut ref a: T, inline b: T): &mut T = a && (a = b);\n\nfn swap !T(mut ref a: T, mut ref b: T): void __native(\n    \"hacks/soft_risk\",\n    \"<utility>\", \"std::swap\");\n\n\n\n// Arrays.\n//\n// TODO mutval .=,\n//  just like the assignments and splice.\n\nfn typeof !T(lax _: T) = T;\n\nfn  [] (type T) = typeof([] => T []);\nfn [:] (type T) = typeof([] => T[:]);\n\nnovec fn len !T(a: T[:]): int __native(\".size()\");\n\nnovec fn [] !T(ref a: T[:], i: int)\n    case (typeof(a) -> &mut T[:]): &mut T __native(\".mutref\");\n    default                      : &    T __native;\n\nnovec fn [:] !T(ref a: T[:], start!: int)\n    case (typeof(a) -> &mut T[:]): &mut T[:] __native(\"<fu/view.h>\", \"fu::get_view_mut\");\n    default                      : &    T[:] __native(\"<fu/view.h>\", \"fu::get_view\");\n\nnovec fn [:] !T(ref a: T[:], end!: int)\n    case (typeof(a) -> &mut T[:]): &mut T[:] __native(\"<fu/view.h>\", \"fu::get_view_start0_mut\");\n    default                      : &    T[:] __native(\"<fu/view.h>\", \"fu::get_view_start0\");\n\nnovec fn [:] !T(ref a: T[:], start: int, end: int)\n    case (typeof(a) -> &mut T[:]): &mut T[:] __native(\"<fu/view.h>\", \"fu::get_view_mut\");\n    default                      : &    T[:] __native(\"<fu/view.h>\", \"fu::get_view\");\n\nfn    push !T(mut ref a: T[], mut b: T): void __native(\".push\");\nfn unshift !T(mut ref a: T[], mut b: T): void __native(\".unshift\");\nfn  insert !T(mut ref a: T[], i: int, mut b: T): void __native(\".insert\");\n\nfn slice !T(const ref a: T[:], start: int, end: int)\n    case (typeof(a) -> T[]):  T[] __native(\"<fu/vec/LEGACY_slice.h>\", \"fu::slice\");\n    default                : T[:] __native(\"<fu/view.h>\", \"fu::get_view\");\n\nfn slice !T(const ref a: T[:], start: int)\n    case (typeof(a) -> T[]):  T[] __native(\"<fu/vec/LEGACY_slice.h>\", \"fu::slice\");\n    default                : T[:] __native(\"<fu/view.h>\", \"fu::get_view\");\n\nfn substr !T(a: T[], start: int, end: int): T[] __native(\"<fu/vec/LEGACY_slice.h>\", \"fu::substr\");\n\nfn splice !T(mut ref a: T[], start: int, count: int): void  __native(\".splice\");\nfn splice !T(mut ref a: T[], start: int, count: int, /*TODO FIX*/b: T[:]): void  __native(\".splice\");\n\nfn    pop !T(mut ref a: T[]): void __native(\".pop()\");\nfn  shift !T(mut ref a: T[]): void __native(\".shift()\");\n\nfn  clear !T(mut ref a: T[]): void __native(\".clear()\");\nfn shrink !T(mut ref a: T[], len: int): void __native(\".shrink\");\n\nfn resize !T(mut ref a: T[], len: int): void __native(\".resize\");\nfn   grow !T(mut ref a: T[], len: int): void __native(\".grow\");\n\nfn resize_junk !T(mut ref a: T[], len: int): void __native(\".resize<false>\");\nfn   grow_junk !T(mut ref a: T[], len: int): void __native(\".grow<false>\");\n\n\n// Sorts, via std::sort - fnptrs.\n\nfn sort !T(mut ref a: T[:]): void\n{\n    pragma include(\"<algorithm>\");\n    pragma emit(\n    `\n        auto* data = `a`.data_mut();\n        std::sort(data, data + `a`.size());\n    `);\n}\n\nfn sort !T(mut ref a: T[:], less/*: fn(a: T, b: T): bool*/): void\n{\n    noflow fn sort()\n    {\n        mut l: T;\n        mut r: T;\n        pragma include(\"<algorithm>\");\n        pragma emit(\n        `\n            (void) `l`;\n            (void) `r`;\n            auto* data = `a`.data_mut();\n            std::sort(data, data + `a`.size(), [&](auto& `l`, auto& `r`)\n            {\n        `);\n\n        mut lt: bool = less(l, r);\n        pragma emit(\n        `\n                return `lt`;\n            });\n        `);\n    }\n\n    sort();\n}\n\n\n// String likes.\n\nfn has(a: <T>[..], b: T[..] or T) = a.find(b) >= 0;\n\nfn find(haystack: <T>[..], needle: T[..] or T, start?: int or [], end?: int or []): int\n{\n    type Start  = typeof(start);\n    type End    = typeof(end);\n\n    // Keep things simple.\n    if !(Start -> [] && End -> [])\n    {\n        let slice = Start -> [] ? haystack[      .. end]\n                  : End   -> [] ? haystack[start ..    ]\n                                : haystack[start .. end];\n\n        let res = slice.find(needle);\n        return res + (res < 0 ? 0 : start);\n    }\n\n    // Char vs string.\n    if (typeof(needle) -> T)\n    {\n        for (mut i = 0; i < haystack.len; i++)\n            if (haystack[i] == needle)\n                return i;\n\n        return -1;\n    }\n\n    // Shorter haystack & empty needle.\n    if (haystack.len < needle.len || needle.len <= 0)\n        return needle.len ? -1 : 0;\n\n    // This is both a fast path for single-item needles,\n    //  and simplifies the loops below,\n    //   where the Booyer-Moore trick can rely on needle having at least two items.\n    if (needle.len == 1)\n        return haystack.find(needle[0]);\n\n\n    // Try to go for a whole needle comparison\n    //  if the needle is small enough to fit in an integer.\n    //\n    // This works, never measured if it speeds anything up though.\n\n    // if (T.is::primitive && !T.is::floating_point\n    //                     && needle.len * sizeof(T) <= 16)\n    // {\n    //     let shift       = (sizeof(T) * 8).u128;\n    //     let mask        = needle.len * sizeof(T) * 8;\n    //     shadow let mask =\n    //         mask < 128  ? ~(~(0.u128) << (needle.len * sizeof(T) * 8).u128)\n    //                     :   ~(0.u128);\n    //\n    //     mut reg_needle:     u128;\n    //     mut reg_haystack:   u128;\n    //     for (mut i = 0; i < needle.len; i++) {\n    //         reg_needle    <<= shift;\n    //         reg_haystack  <<= shift;\n    //         reg_needle     |= needle[i].u128;\n    //         reg_haystack   |= haystack[i].u128;\n    //     }\n    //\n    //     mut i = needle.len;\n    //     for (;;) {\n    //         if (reg_haystack == reg_needle)\n    //             return i - needle.len;\n    //\n    //         if !(i < haystack.len)\n    //             return -1;\n    //\n    //         reg_haystack  <<= shift;\n    //         reg_haystack   &= mask;\n    //         reg_haystack   |= haystack[i++].u128;\n    //     }\n    // }\n\n\n    // Booyer-Moore trick from FBString::find,\n    //  modified to avoid testing the last needle character twice.\n\n    let needle_len_m1       = needle.len - 1;\n    let needle_last_char    = needle[needle_len_m1];\n\n    // How many bytes are skipped when a mismatch is found after tail matches -\n    //  if needle is 'aa', then skip would be 1, if needle doesn't repeat the tail byte,\n    //   skip would be needle.len.\n    mut skip = 0;\n\n    for (mut i = needle_len_m1;\n             i < haystack.len; )\n    {\n        // Scan for a the tail char of the needle,\n        //  consider using strchr here or something.\n        while (haystack[i] != needle_last_char)\n            if (++i == haystack.len)\n                return -1;\n\n        // Match the rest of the needle,\n        //  consider randomizing this part, should help with crafted needles.\n        for (mut j = 0;; )\n        {\n            // Mismatch halfway through the needle?\n            if (haystack[i - needle_len_m1 + j] != needle[j])\n            {\n                // Init the skip value.\n                if !(skip)\n                {\n                    // Scan the needle backwards,\n                    //  break on first match with needle tail.\n                    skip = needle.len;\n                    for (shadow mut j = needle_len_m1; j --> 0; ) {\n                        if (needle[j] == needle_last_char) {\n                            skip = needle_len_m1 - j;\n                            break;\n                        }\n                    }\n                }\n\n                // Skip over to the next possible tail-char position.\n                i += skip;\n                break;\n            }\n\n            // Entire needle matches?\n            if (++j == needle_len_m1)\n                return i - needle_len_m1;\n        }\n    }\n\n    return -1;\n}\n\n\n// Find char.\n\nfn starts !T(a: T[:], with: T): bool\n{\n    return a.len && a[0] == with;\n}\n\nfn ends !T(a: T[:], with: T): bool\n{\n    return a.len && a[a.len - 1] == with;\n}\n\nfn starts !T(a: T[:], with: T[:]): bool\n{\n    return a.len >= with.len\n        && a[: with.len] == with;\n}\n\nfn ends !T(a: T[:], with: T[:]): bool\n{\n    return a.len >= with.len\n        && a[a.len - with.len : a.len] == with;\n}\n\n// Strings.\n\ntype string = byte[];\n\ninfix fn  >(a: <T>[..], b: T[..]) case (T -> byte) = a <> b > 0;\ninfix fn  <(a: <T>[..], b: T[..]) case (T -> byte) = a <> b < 0;\ninfix fn >=(a: <T>[..], b: T[..]) case (T -> byte) = a <> b >= 0;\ninfix fn <=(a: <T>[..], b: T[..]) case (T -> byte) = a <> b <= 0;\n\n\n// D-style concats.\n//\n// TODO FIX these concats hide copies\n//  which also means they dont work correctly for nocopy stuff\n//\ninfix fn ~ !T(a: T[:], b: T[:]): T[] __native(\"<fu/vec/concat.h>\",     \"+\");\ninfix fn ~ !T(a: T[:], b:  T  ): T[] __native(\"<fu/vec/concat_one.h>\", \"+\");\ninfix fn ~ !T(a:  T  , b: T[:]): T[] __native(\"<fu/vec/concat_one.h>\", \"+\");\n\ninfix fn ~= !T(mut ref a: T[],     b: T[:]): &mut T[] __native(\"<fu/vec/concat.h>\",     \"+=\");\ninfix fn ~= !T(mut ref a: T[], mut b:  T  ): &mut T[] __native(\"<fu/vec/concat_one.h>\", \"+=\");\n\n\n// Fun with views.\n\nfn view !T(ref a: T[:], type of)\n    case (typeof(a) -> &mut T[:] && T.is::reinterpretable && of.is::reinterpretable): &mut [of] __native(\"<fu/view.h>\", \"fu::view_of_mut<>\");\n    case (                          T.is::reinterpretable && of.is::reinterpretable): &    [of] __native(\"<fu/view.h>\", \"fu::view_of<>\");\n\ninfix fn .= !T(mut ref a: T[:], b: T[:]) case (T.is::copy): void __native(\"<fu/vec/view_assign.h>\", \"fu::view_assign\");\n\n// TODO not needed if swap(x, y) alias-ok's its two arguments:\nfn swap !T(mut ref a: T[:], i: int, j: int): void __native(\"<fu/vec/view_swap.h>\", \"fu::view_swap\");\n\nfn partition !T(mut ref a: T[:], predicate)\n{\n    let size = a.len;\n    mut keep = 0;\n    for (mut i = 0; i < size; i++)\n        if (!predicate(a[i])) {\n            if (i > keep)\n                a.swap(i, keep);\n\n            keep++;\n        }\n\n    return keep;\n}\n\nfn remove !T(mut ref a: T[], predicate)\n{\n    if (T.is::trivial)\n    {\n        let size = a.len;\n        mut keep = 0;\n        for (mut i = 0; i < size; i++) {\n            let here = a[i];\n            if (!predicate(here)) {\n                if (i > keep)\n                    a[keep] = here;\n\n                keep++;\n            }\n        }\n\n        a.shrink(keep);\n    }\n    else\n    {\n        a.shrink(a.partition(fn predicate));\n    }\n}\n\n\n// Stringifiables.\n\ninfix fn ~ (        a: [byte], b.str) a ~ b;\ninfix fn ~ (        a.str, b: [byte]) a ~ b;\ninfix fn ~=(mut ref a: string, b.str) a ~= b;\n\nfn str !T(n: T)\n    case (T.is::unsigned       ): string __native(\"<fu/decstr.h>\", \"fu::u64dec\");\n    case (T.is::integral       ): string __native(\"<fu/decstr.h>\", \"fu::i64dec\");\n    case (T -> bool            ): string __native(\"<fu/decstr.h>\", \"fu::booldec\");\n    case (T -> f32             ): string __native(\"<fu/decstr.h>\", \"fu::f32dec\");\n    case (T -> f64             ): string __native(\"<fu/decstr.h>\", \"fu::f64dec\");\n    case (T.is::enum)\n{\n    for (fieldname i: T)\n        if (n == \"i\")\n            return \"i\";\n\n    return n.i64.str; // TODO FIX use .integer or .arithmetic when we get these\n}\n    case (T.is::flags)\n{\n    mut res: string;\n    for (fieldname i: T)\n        if (n & \"i\")\n            res ~= \"i\" ~ \", \";\n\n    if (res)\n        res.shrink(res.len - 2);\n\n    return res;\n}\n\n\n// Assertions, bugs & fails.\n//  TODO i dont actually think we want to have nullary stuff in prelude,\n//   so TODO needs to take an arg, same with assert - perhaps a pass-through argument.\n\nfn throw(mut reason: string): never __native(\"<fu/never.h>\", \"fu::fail\",\n    \"|Fx_NotDeadCode\", \"|Fx_DontMoveDown\", \"|Fx_Throws\");\n\nfn assert(expression: bool): void __native(\"<fu/assert.h>\", \"fu_ASSERT\", \"|Fx_NotDeadCode\");\n\n\n// Printifiables = anything that implements print.\n\ninline fn print(x: string): string = x;\ninline fn print(x.str)    : string = x;\n\nfn println(parts.print[]: [string]): void __native(\"<fu/print.h>\", \"fu::println\",\n    \"|output\");\n\n\n// String commons.\n\nfn join !T(a: T[][:], sep?: T or T[:] or [])\n{\n    if (a.len < 2)\n        return a.len && a[0];\n\n    let N = typeof(sep) -> T[:] ? sep.len\n          : typeof(sep) ->  T   ? 1\n                                : 0;\n\n    mut size = a[0].len;\n    for (mut i = 1; i < a.len; i++)\n        size += N + a[i].len;\n\n    mut res: T[];\n    res.grow_junk(size);\n\n    let head = a[0];\n    size = head.len;\n    res[: head.len] .= head;\n    for (mut i = 1; i < a.len; i++)\n    {\n        let range = a[i];\n        if (typeof(sep) -> T[:])\n            res[size : size + N] .= sep;\n        else if (typeof(sep) -> T)\n            res[size] = sep;\n\n        size += N;\n        res[size : size + range.len] .= range;\n        size += range.len;\n    }\n\n    return res;\n}\n\nfn split !T(str: T[:], sep: T or T[:], each)\n{\n    mut last = 0;\n    mut next = 0;\n\n    let N = typeof(sep) -> T[:] ? sep.len : 1;\n    if (N) while ((next = str.find(sep, start: last)) >= 0)\n    {\n        each(str.slice(last, next), first?: !last, last?: false);\n        last = next + N;\n    }\n\n    if (last)\n        each(str.slice(last), first?: false, last?: true);\n    else\n        each(str, first?: true, last?: true);\n}\n\nfn split !T(str: T[], sep: T or T[:])\n{\n    mut result: T[][];\n    split(str, :sep, |substr| result ~= substr);\n    return result;\n}\n\n\n// TODO: .replace() is a faster impl of .split().join().\n//  How do we express this so that .split.joins are automatically promoted?\n//   This would be generally useful, e.g.\n//    .map.maps and .map.filters could use this to skip allocs.\n\nfn replace !T(str: T[], all: T or T[:], with: T or T[:] or [])\n{\n    mut result: T[];\n    split(str, sep: all, |substr, lax first, lax last|\n    {\n        if (!first)\n            typeof(with) -> [] ? with() : result ~= with;\n        else if (last)\n            return str;\n\n        result ~= substr;\n    });\n\n    return result;\n}\n\n\n//\n\ninfix fn <> !T(a: T, b: T)\ncase (T.is::primitive) = a < b ? -1 : a > b ? +1 : 0;\ncase (T -> _[:]) {\n    mut cmp = a.len <> b.len;\n    for (mut i = 0; i < a.len && !cmp; i++)\n        cmp = a[i] <> b[i];\n\n    return cmp;\n}\ndefault {\n    lax mut cmp = 0;\n\n    // TODO this would be better if it went through each member doing the trivial work first -\n    //  only then going through them again and looking at e.g. array contents etc,\n    //   this is a first approx but does not go recursively through structs.\n\n    for (fieldname i: T)\n        if (typeof(a.i).is::trivial)\n            if (cmp = a.i <> b.i)\n                return cmp;\n\n    for (fieldname i: T)\n        if !(typeof(a.i).is::trivial)\n            if (cmp = a.i <> b.i)\n                return cmp;\n\n    return 0;\n}\n\ninfix fn == !T(a: T, b: T)\n    case (T.is::primitive): bool __native;\n    default: bool = !(a <> b);\n\ninfix fn != !T(a: T, b: T)\n    case (T.is::primitive): bool __native;\n    default: bool = !!(a <> b);\n\n\n//\n\nfn map !T(a: T[:], fn)\n{\n    mut res: typeof( fn(T, i?: a.len) )[];\n    res.grow_junk(a.len);\n    for (mut i = 0; i < a.len; i++)\n        res[i] = fn(a[i], i?: i);\n\n    return res;\n}\n\nfn each !T(ref a: T[:], fn)\n    for (mut i = 0; i < a.len; i++)\n        fn(a[i], i?: i);\n\nfn reverse !T(mut ref a: T[:])\n{\n    let n1 = a.len - 1;\n    let n2 = a.len >> 1;\n    for (mut i = 0; i < n2; i++)\n        a.swap(i, n1 - i);\n}\n\nfn all !T(a: T[:], pred)\n{\n    a.each: |item, i|\n        if !(pred(item, i?: i))\n            return false;\n\n    return true;\n}\n\nfn some !T(a: T[:], pred)\n{\n    a.each: |item, i|\n        if (pred(item, i?: i))\n            return true;\n\n    return false;\n}\n\n\n\nfn only(ref s: <T>[..]) {\n    assert(s.len == 1);\n    return s[0];\n}\n\nfn first(ref s: <T>[..])\n    s[0];\n\nfn last(ref s: <T>[..])\n    s[s.len - 1];\n\nfn not_first(ref s: <T>[..])\n    s[s.len && 1 ..];\n\nfn not_last(ref s: <T>[..])\n    s[.. s.len && s.len - 1];\n\nfn if_only(ref s: <T>[..])\n    s.len == 1 && s[0];\n\nfn if_first(ref s: <T>[..])\n    s.len && s[0];\n\nfn if_last(ref s: <T>[..])\n    s.len && s[s.len - 1];\n\nfn TODO_REMOVE_bootstrap() true;\n"
     "fn steal(ref v: <T>) { mut ret: T; swap(v, ret); return ret; } fn steal(ref a: <T>[], start!: int, end!: int) { let size = end - start; mut ret: T[]; ret.resize(size); for (mut i = 0; i < size; i++) swap(ret[i], a[i + start]); a.splice(start, count: size); return ret; } fn steal(ref a: <T>[], start!: int) { mut ret: T[]; ret.resize(a.len - start); for (mut i = 0; i < ret.len; i++) swap(ret[i], a[i + start]); a.shrink(start); return ret; }\n"_fu;
 
 s_Context solvePrelude_eRdBm7hX()
-- 
2.43.0


From 3644bd69090e3eecb058dae32977b3e1b285b861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:32 +0000
Subject: [PATCH 23/46] fix: loops nested in a branch must not detach its else

---
 src/codegen.fu     | 2 +-
 src/codegen.fu.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codegen.fu b/src/codegen.fu
index b125860..9091c28 100644
--- a/src/codegen.fu
+++ b/src/codegen.fu
@@ -962,7 +962,7 @@ pub fn cpp_codegen(
             let line = lines[i];
             if (line)
                 src ~= (line.if_first == '\n' ? '\n' ~ line : _indent ~ line)
-                     ~ (line.if_last == ';' ? '\n' : ';');
+                     ~ (line.if_last == ';' || line.if_last == '\n' ? '\n' : ';');
         }
 
         return src;
diff --git a/src/codegen.fu.cpp b/src/codegen.fu.cpp
index 06aa19c..80732ff 100644
--- a/src/codegen.fu.cpp
+++ b/src/codegen.fu.cpp
@@ -5485,7 +5485,7 @@ static fu::str cgStatements_5NLNdYe4(fu::view<s_SolvedNode> nodes, int& count, f
         fu::view<char> line = lines[i];
         if (line)
         {
-            src += (((if_first_uwKwzsvZ(line) == '\n') ? ('\n' + line) : (outputs._indent + line)) + ((if_last_uwKwzsvZ(line) == ';') ? '\n' : ';'));
+            src += (((if_first_uwKwzsvZ(line) == '\n') ? ('\n' + line) : (outputs._indent + line)) + (((if_last_uwKwzsvZ(line) == ';') || (if_last_uwKwzsvZ(line) == '\n')) ? '\n' : ';'));
         };
     };
     return /*NRVO*/ src;
-- 
2.43.0


From 0e6e5803b8a58897d280808a54d0b7bae5193b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:06 +0000
Subject: [PATCH 24/46] fix: path noext of a path without an extension is the
 path

---
 lib/path.fu     | 2 +-
 lib/path.fu.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/path.fu b/lib/path.fu
index 229f074..43e4716 100644
--- a/lib/path.fu
+++ b/lib/path.fu
@@ -20,7 +20,7 @@ fn noext(path: string): string
         if (c == '/') break;
     }
 
-    return "";
+    return path;
 }
 
 fn dirname(path: string): string
diff --git a/lib/path.fu.cpp b/lib/path.fu.cpp
index 956b2c3..ff3f5fb 100644
--- a/lib/path.fu.cpp
+++ b/lib/path.fu.cpp
@@ -34,7 +34,7 @@ fu::str noext_8Oo0Zp26(const fu::str& path)
             break;
 
     };
-    return ""_fu;
+    return fu::str(path);
 }
 
 fu::str dirname_8Oo0Zp26(const fu::str& path)
-- 
2.43.0


From 7c320c53518a7af869a1f5f6148023121c5c470e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:06 +0000
Subject: [PATCH 25/46] fix: path join with an empty path must not make an
 absolute one

---
 lib/path.fu     | 2 +-
 lib/path.fu.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/path.fu b/lib/path.fu
index 43e4716..d0b6133 100644
--- a/lib/path.fu
+++ b/lib/path.fu
@@ -90,6 +90,6 @@ fn relative(from: string, to: string): string
 fn join(a: string, b: string): string
 {
     return normalize (b.starts  (with: '/') ?           b
-                    : a.ends    (with: '/') ? a       ~ b
+           : !a    || a.ends    (with: '/') ? a       ~ b
                                             : a ~ '/' ~ b);
 }
diff --git a/lib/path.fu.cpp b/lib/path.fu.cpp
index ff3f5fb..769d0f7 100644
--- a/lib/path.fu.cpp
+++ b/lib/path.fu.cpp
@@ -261,7 +261,7 @@ inline bool ends_Db9eGFmC(fu::view<char> a, const char with)
 
 fu::str join_8GxtVDhD(fu::view<char> a, const fu::str& b)
 {
-    return normalize_yoYXJgEn((starts_Db9eGFmC(b, '/') ? fu::str(b) : (ends_Db9eGFmC(a, '/') ? (a + b) : ((a + '/') + b))));
+    return normalize_yoYXJgEn((starts_Db9eGFmC(b, '/') ? fu::str(b) : ((!a || ends_Db9eGFmC(a, '/')) ? (a + b) : ((a + '/') + b))));
 }
 
 #endif
-- 
2.43.0


From e80e33e12f2a798595c19b7b6a74dc4785622aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:06 +0000
Subject: [PATCH 26/46] fix: path normalize must keep leading .. parts and the
 root

---
 lib/path.fu     | 14 ++++++++++++++
 lib/path.fu.cpp | 36 ++++++++++++++++++++++++------------
 2 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/lib/path.fu b/lib/path.fu
index d0b6133..0f860ad 100644
--- a/lib/path.fu
+++ b/lib/path.fu
@@ -54,11 +54,25 @@ fn normalize(p: string): string
     for (mut i = 1; i < path.len; i++) {
         if (path[i] == "..")
         {
+            // Nothing to go up from yet: keep it.
+            if (path[i - 1] == "..")
+                continue;
+
+            // The root is its own parent.
+            if (!path[i - 1]) {
+                path.splice(i--, 1);
+                continue;
+            }
+
             path.splice(--i, 2);
             if (i) i--;
         }
     }
 
+    // Only the root is left.
+    if (path.len == 1 && p.starts(with: '/'))
+        return "/";
+
     return path.join('/');
 }
 
diff --git a/lib/path.fu.cpp b/lib/path.fu.cpp
index 769d0f7..3ec4399 100644
--- a/lib/path.fu.cpp
+++ b/lib/path.fu.cpp
@@ -195,6 +195,14 @@ inline fu::str join_zqpLPm5h(fu::view<fu::str> a, const char sep)
 }
                                 #endif
 
+                                #ifndef DEF_starts_Db9eGFmCKDj
+                                #define DEF_starts_Db9eGFmCKDj
+inline bool starts_Db9eGFmC(fu::view<char> a, const char with)
+{
+    return a.size() && (a[0] == with);
+}
+                                #endif
+
 fu::str normalize_yoYXJgEn(const fu::str& p)
 {
     fu::vec<fu::str> path = split_42u6frOY(p, '/');
@@ -209,12 +217,24 @@ fu::str normalize_yoYXJgEn(const fu::str& p)
     {
         if (path[i_1] == ".."_fu)
         {
-            path.splice(--i_1, 2);
-            if (i_1)
-                i_1--;
-
+            if (path[(i_1 - 1)] == ".."_fu)
+                continue;
+            else if (!path[(i_1 - 1)])
+            {
+                path.splice(i_1--, 1);
+                continue;
+            }
+            else
+            {
+                path.splice(--i_1, 2);
+                if (i_1)
+                    i_1--;
+
+            };
         };
     };
+    if ((path.size() == 1) && starts_Db9eGFmC(p, '/'))
+        return "/"_fu;
     return join_zqpLPm5h(path, '/');
 }
 
@@ -243,14 +263,6 @@ fu::str relative_PkLpPlOh(fu::view<char> from, const fu::str& to)
     return /*NRVO*/ res;
 }
 
-                                #ifndef DEF_starts_Db9eGFmCKDj
-                                #define DEF_starts_Db9eGFmCKDj
-inline bool starts_Db9eGFmC(fu::view<char> a, const char with)
-{
-    return a.size() && (a[0] == with);
-}
-                                #endif
-
                                 #ifndef DEF_ends_Db9eGFmCKDj
                                 #define DEF_ends_Db9eGFmCKDj
 inline bool ends_Db9eGFmC(fu::view<char> a, const char with)
-- 
2.43.0


From 5f8fab20e86cac91f4005f0885c96a72f523e350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:01 +0000
Subject: [PATCH 27/46] fix: reading a file in several parts must not overwrite
 the earlier ones

---
 lib/file.fu     | 1 +
 lib/file.fu.cpp | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/file.fu b/lib/file.fu
index 142f700..19be907 100644
--- a/lib/file.fu
+++ b/lib/file.fu
@@ -194,6 +194,7 @@ fn read(mut path: string, ref into!output: string, mut size?: i64): Errno
                 }
 
                 `len0` += (decltype(`len0`)) count;
+                buf += count;
             }
         `);
     }
diff --git a/lib/file.fu.cpp b/lib/file.fu.cpp
index fa49495..ec7457f 100644
--- a/lib/file.fu.cpp
+++ b/lib/file.fu.cpp
@@ -96,7 +96,7 @@ int read_Zg7Moiy2(fu::str&& path, fu::str& output, int64_t size)
             err = ERANGE;
         });
         output.grow(int(len1));
-        auto* buf = output.data_mut();
+        auto* buf = output.data_mut() + len0;
 
         ssize_t check = output.capa() > len1 ? 1 : 0;
         ssize_t request;
@@ -115,6 +115,7 @@ int read_Zg7Moiy2(fu::str&& path, fu::str& output, int64_t size)
             }
 
             len0 += (decltype(len0)) count;
+            buf += count;
         };
     };
     return err;
-- 
2.43.0


From 48cc7693e93499000e673e22bbb7e4941ce202a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:01 +0000
Subject: [PATCH 28/46] fix: fs executable must not end in what was left on the
 stack

---
 lib/fs.fu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fs.fu b/lib/fs.fu
index 3bf20e8..9b0880b 100644
--- a/lib/fs.fu
+++ b/lib/fs.fu
@@ -128,7 +128,7 @@ pub fn executable(): string
             char buf[PATH_MAX];
             auto nbytes = readlink("/proc/self/exe", buf, PATH_MAX);
             if (nbytes > 0 && nbytes < PATH_MAX)
-                executable.UNSAFE__init_copy(buf, PATH_MAX);
+                executable.UNSAFE__init_copy(buf, fu::i(nbytes));
 
             /*
                 readlink("/proc/self/exe", buf, bufsize) (Linux)
-- 
2.43.0


From ad9819651f6831f70b8f288ec4333807f4a300e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:01 +0000
Subject: [PATCH 29/46] fix: fs readdir took a successful close for a failed
 one

---
 lib/fs.fu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fs.fu b/lib/fs.fu
index 9b0880b..133b11a 100644
--- a/lib/fs.fu
+++ b/lib/fs.fu
@@ -196,7 +196,7 @@ pub fn readdir(mut path: string, yield): Errno
 
     defer pragma emit(
     `
-        if (!closedir(DIR_ptr))
+        if (closedir(DIR_ptr) && !`err`)
             `err` = errno;
     `);
 
-- 
2.43.0


From 6bf0ff9582f0b05acde1bf7227183ffbb4eedf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:01 +0000
Subject: [PATCH 30/46] fix: mkdir_p must create all missing directories and
 report success

---
 lib/fs.fu     | 13 +++++--------
 lib/fs.fu.cpp |  6 +++---
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/lib/fs.fu b/lib/fs.fu
index 133b11a..9a066ba 100644
--- a/lib/fs.fu
+++ b/lib/fs.fu
@@ -35,14 +35,11 @@ pub fn mkdir_p(mut path: string, mode = RWX_RWX_RWX): Errno
                 continue;
 
             ref parent = path[.. i + 1];
-            if (parent.visit() == 0)
-            {
-                pragma emit(`
-
-                    if (mkdir(`path`.data(), mode_t(`mode`)))
-                        `err` = errno;
-                `);
-            }
+            let parent_err = parent.visit();
+            pragma output(`
+                if (!`parent_err` || `parent_err` == EEXIST)
+                    `err` = mkdir(`path`.data(), mode_t(`mode`)) ? errno : 0;
+            `);
 
             break;
         }
diff --git a/lib/fs.fu.cpp b/lib/fs.fu.cpp
index 06633b2..d197dd1 100644
--- a/lib/fs.fu.cpp
+++ b/lib/fs.fu.cpp
@@ -41,11 +41,11 @@ static int visit_DQYlPKj1(fu::view_mut<char> path, const unsigned mode)
             if (!(path[i] != '/'))
             {
                 fu::view_mut<char> parent = fu::get_view_start0_mut(path, (i + 1));
-                if (visit_DQYlPKj1(parent, mode) == 0)
+                const int parent_err = visit_DQYlPKj1(parent, mode);
+                if (!parent_err || (parent_err == EEXIST))
                 {
 
-                                        if (mkdir(path.data(), mode_t(mode)))
-                                            err = errno;
+                                        err = mkdir(path.data(), mode_t(mode)) ? errno : 0;
 
                 };
                 break;
-- 
2.43.0


From 96b12a3fbb5464e381d3ec7fabbe308c6fe11475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:21 +0000
Subject: [PATCH 31/46] fix: ignored streams of a child must lead to /dev/null,
 not be closed

---
 lib/spawn.fu | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/spawn.fu b/lib/spawn.fu
index 5cc30cb..bba968c 100644
--- a/lib/spawn.fu
+++ b/lib/spawn.fu
@@ -223,8 +223,8 @@ pub fn spawn(
                         else {
                             posix_spawn_file_actions_addopen(&file_actions, which,
                                 "/dev/null", which == STDIN_FILENO
-                                    ? O_RDONLY                  | O_CLOEXEC
-                                    : O_WRONLY | O_APPEND       | O_CLOEXEC,
+                                    ? O_RDONLY
+                                    : O_WRONLY | O_APPEND,
                                 0);
                         }
                     };
-- 
2.43.0


From d338806283cbbe534b47b821beb27ffef71490f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:21 +0000
Subject: [PATCH 32/46] fix: children must not get non-blocking pipes for their
 output

---
 lib/spawn.fu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/spawn.fu b/lib/spawn.fu
index bba968c..4463b05 100644
--- a/lib/spawn.fu
+++ b/lib/spawn.fu
@@ -477,7 +477,7 @@ pub fn spawn(
 
     mut err: Errno;
     mut child: Child;
-    if ((err = spawn(:child, :argv, stdout: cs, stderr: cs, blocking: false)))
+    if ((err = spawn(:child, :argv, stdout: cs, stderr: cs, blocking: true)))
         return err;
 
     defer close(:child, :status);
-- 
2.43.0


From 4a573d3636625312b75fe91a766dd5303adc1e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:21 +0000
Subject: [PATCH 33/46] fix: spawn must collect all output when one stream
 closes before the other

---
 lib/spawn.fu     | 16 +++++++++-------
 lib/spawn.fu.cpp | 16 +++++++++-------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/lib/spawn.fu b/lib/spawn.fu
index 4463b05..791d6bf 100644
--- a/lib/spawn.fu
+++ b/lib/spawn.fu
@@ -532,8 +532,11 @@ pub fn spawn(
 
         const auto& ReadPollFD = [&](pollfd& pfd, auto&& out)
         {
-            return pfd.revents & POLLIN
-                && ReadFD(pfd.fd, out);
+            // Done with this end on hang up or error,
+            //  while the other one may still have things to say.
+            //
+            if (pfd.revents && !(pfd.revents & POLLIN && ReadFD(pfd.fd, out)))
+                pfd.fd = -1;
         };
 
         const size_t N = 2;
@@ -558,12 +561,11 @@ pub fn spawn(
                 break;
             }
 
-            // Don't short circuit here.
-            if (  int(!ReadPollFD(poll_fds[0], `stdout_buf`))
-                & int(!ReadPollFD(poll_fds[1], `stderr_buf`)))
-            {
+            ReadPollFD(poll_fds[0], `stdout_buf`);
+            ReadPollFD(poll_fds[1], `stderr_buf`);
+
+            if (poll_fds[0].fd < 0 && poll_fds[1].fd < 0)
                 break;
-            }
         }
     `);
 
diff --git a/lib/spawn.fu.cpp b/lib/spawn.fu.cpp
index bb3e2e7..2073696 100644
--- a/lib/spawn.fu.cpp
+++ b/lib/spawn.fu.cpp
@@ -270,8 +270,11 @@ int spawn_Q72PXxQP(fu::vec<fu::str>&& argv, fu::str& stdout, fu::str& stderr, in
 
                         const auto& ReadPollFD = [&](pollfd& pfd, fu::str& out)
                         {
-                            return pfd.revents & POLLIN
-                                && ReadFD(pfd.fd, out);
+                            // Done with this end on hang up or error,
+                            //  while the other one may still have things to say.
+                            //
+                            if (pfd.revents && !(pfd.revents & POLLIN && ReadFD(pfd.fd, out)))
+                                pfd.fd = -1;
                         };
 
                         const size_t N = 2;
@@ -294,12 +297,11 @@ int spawn_Q72PXxQP(fu::vec<fu::str>&& argv, fu::str& stdout, fu::str& stderr, in
                                 break;
                             }
 
-                            // Don't short circuit here.
-                            if (  int(!ReadPollFD(poll_fds[0], stdout))
-                                & int(!ReadPollFD(poll_fds[1], stderr)))
-                            {
+                            ReadPollFD(poll_fds[0], stdout);
+                            ReadPollFD(poll_fds[1], stderr);
+
+                            if (poll_fds[0].fd < 0 && poll_fds[1].fd < 0)
                                 break;
-                            }
                         };
                     };
                 };
-- 
2.43.0


From 02264b71db639f30f0f2743a67644ed274d4ad0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:24 +0000
Subject: [PATCH 34/46] fix: adding a range to a longer bit set must keep the
 members beyond it

---
 lib/BitSet.fu         | 6 ++++--
 src/lib/bitset.fu.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/BitSet.fu b/lib/BitSet.fu
index b081400..aad0ad3 100644
--- a/lib/BitSet.fu
+++ b/lib/BitSet.fu
@@ -133,7 +133,9 @@ pub fn add_range(using ref _: BitSet, end!: int)
     let floorBytes  =  end      >> 3 | no_neg;
     let ceilBytes   = (end + 7) >> 3 | no_neg;
 
-    _data.grow(ceilBytes);
+    if (_data.len < ceilBytes)
+        _data.grow(ceilBytes);
+
     for (mut i = 0; i < floorBytes; i++)
         _data[i] = 0xff;
 
@@ -145,7 +147,7 @@ pub fn add_range(using ref _: BitSet, end!: int)
         do  tail |= 1 << (i & 7).u8;
         while (++i < end);
 
-        _data[floorBytes] = tail;
+        _data[floorBytes] |= tail;
     }
 }
 
diff --git a/src/lib/bitset.fu.cpp b/src/lib/bitset.fu.cpp
index ea12775..b9fe142 100644
--- a/src/lib/bitset.fu.cpp
+++ b/src/lib/bitset.fu.cpp
@@ -168,7 +168,9 @@ void add_range_y5kfkU4t(s_BitSet& _, const int end)
     const int no_neg = (end & MIN_5Mxm22OP());
     const int floorBytes = ((end >> 3) | no_neg);
     const int ceilBytes = (((end + 7) >> 3) | no_neg);
-    _._data.grow(ceilBytes);
+    if (_._data.size() < ceilBytes)
+        _._data.grow(ceilBytes);
+
     for (int i = 0; i < floorBytes; i++)
         _._data.mutref(i) = fu::u8(0xffu);
 
@@ -179,7 +181,7 @@ void add_range_y5kfkU4t(s_BitSet& _, const int end)
         do
             tail |= fu::u8((fu::u8(1u) << fu::u8(unsigned((i_1 & 7)))));
         while ((++i_1 < end));
-        _._data.mutref(floorBytes) = tail;
+        _._data.mutref(floorBytes) |= tail;
     };
 }
 
-- 
2.43.0


From c5142004055cfecce30547751ac1053c6c8e9cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:24 +0000
Subject: [PATCH 35/46] fix: bit set has_missing read the other set beyond its
 end

---
 lib/BitSet.fu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/BitSet.fu b/lib/BitSet.fu
index aad0ad3..61971c2 100644
--- a/lib/BitSet.fu
+++ b/lib/BitSet.fu
@@ -217,7 +217,7 @@ pub fn has_missing(a: BitSet, b: BitSet)
     if (a._data.len < b._data.len)
         return true;
 
-    for (mut i = 0; i < a._data.len; i++)
+    for (mut i = 0; i < b._data.len; i++)
         if (~a._data[i] & b._data[i])
             return true;
 
-- 
2.43.0


From 17245e727fa8db0ca3622a6f96793df7af7581a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:24 +0000
Subject: [PATCH 36/46] fix: map probing must not overflow on hashes near the
 largest int

---
 lib/hash.fu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hash.fu b/lib/hash.fu
index 8ab5fff..8788810 100644
--- a/lib/hash.fu
+++ b/lib/hash.fu
@@ -131,7 +131,7 @@ inline fn probe(
              probe < max_probes;
              probe++)
     {
-        let i           = (hash + probe) & mask
+        let i           = ((hash & mask) + probe) & mask
         ref index_entry = index[i]
 
         visit(?:index_entry, ?:i, ?:probe)
-- 
2.43.0


From f967e83bab9a2cea46fc28a75a6ae7e2c7692c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:19 +0000
Subject: [PATCH 37/46] fix: errors in multiline string literals named a place
 before the line

---
 src/lexer.fu     | 7 +++++++
 src/lexer.fu.cpp | 9 ++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/lexer.fu b/src/lexer.fu
index bb58565..e84ec42 100644
--- a/src/lexer.fu
+++ b/src/lexer.fu
@@ -67,6 +67,13 @@ pub fn lex(src: string, fname: string): LexerOutput
 
     fn err_str(idx0!: i32, idx1!: i32, reason: string)
     {
+        // Multiline string literals begin on an earlier line.
+        while (idx0 < lidx)
+        {
+            line--;
+            while (lidx-- > 0 && src[lidx] != '\n') {}
+        }
+
         let col = idx0 - lidx;
         let chars = idx1 - idx0;
 
diff --git a/src/lexer.fu.cpp b/src/lexer.fu.cpp
index 570e38b..eb88c7f 100644
--- a/src/lexer.fu.cpp
+++ b/src/lexer.fu.cpp
@@ -158,8 +158,15 @@ static void token_U2MW14BO(const s_kind kind, const fu::str& value, const int id
     token_lc_F2LmpIMo(kind, value, idx0, idx1, line, col, tokens);
 }
 
-[[noreturn]] static fu::never err_str_9ZteMbSb(const int idx0, const int idx1, fu::view<char> reason, const fu::str& src, const fu::str& fname, const int line, const int lidx)
+[[noreturn]] static fu::never err_str_9ZteMbSb(const int idx0, const int idx1, fu::view<char> reason, const fu::str& src, const fu::str& fname, int line, int lidx)
 {
+    while (idx0 < lidx)
+    {
+        line--;
+        while ((lidx-- > 0) && (src[lidx] != '\n'))
+        {
+        };
+    };
     const int col = (idx0 - lidx);
     const int chars = (idx1 - idx0);
     FAIL_fezemVq0(fname, src, s_LineColChars { line, col, chars }, reason);
-- 
2.43.0


From 1a1be418037c0bcc625e6b460580889ff62a7710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:06 +0000
Subject: [PATCH 38/46] fix: rebuild objects when the compiler flags change

---
 src/build.fu     | 2 +-
 src/build.fu.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/build.fu b/src/build.fu
index abc21b5..bcefad3 100644
--- a/src/build.fu
+++ b/src/build.fu
@@ -447,7 +447,7 @@ pub fn build(
                 ~ (process::LINUX && "-pthread -ldl ")
                 ;
 
-    shadow let GCChash = tea::hash(GCChash);
+    shadow let GCChash = tea::hash(GCChash ~ flags_cc.join(' '));
 
     //
     fulib ||= path::join(ctx.fudir,
diff --git a/src/build.fu.cpp b/src/build.fu.cpp
index 70ae927..8549dea 100644
--- a/src/build.fu.cpp
+++ b/src/build.fu.cpp
@@ -1847,7 +1847,7 @@ void build_dvjTrKQM(fu::str&& dir_wrk, fu::view<char> fudir, /*MOV*/ fu::str&& f
         fu::view<char> cpp_2 = units[i_3];
         if (!(!cpp_2))
         {
-            /*MOV*/ fu::str F = x7E_gCeFmDFw((((dir_wrk + "o-"_fu) + hash16_nHEuzL2I((GCChash + cpp_2), 16)) + "-"_fu), fu::i64dec(cpp_2.size()));
+            /*MOV*/ fu::str F = x7E_gCeFmDFw((((dir_wrk + "o-"_fu) + hash16_nHEuzL2I(((GCChash + join_zqpLPm5h(flags_cc, ' ')) + cpp_2), 16)) + "-"_fu), fu::i64dec(cpp_2.size()));
             grow_if_oob_2Gj3HoxN(Fs, i_3) = static_cast<fu::str&&>(F);
             len_all += cpp_2.size();
         };
-- 
2.43.0


From 1a093004f1e9a2b7fb77237205f4f1daf115d2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:06 +0000
Subject: [PATCH 39/46] fix: make missing directories when emitting C++

---
 src/build.fu.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/build.fu.cpp b/src/build.fu.cpp
index 8549dea..1ac25ea 100644
--- a/src/build.fu.cpp
+++ b/src/build.fu.cpp
@@ -1739,6 +1739,7 @@ static fu::str update_file_9sMLOsMG(const fu::str& fname, fu::view<char> data, f
         /*MOV*/ fu::str fname_2 = (dir_out + fu::slice(fname_1, dir_src.size()));
         if (read_zTt3fZzW(fu::str(fname_2)) != data)
         {
+            mkdir_p_K8xLUZUk(dirname_8Oo0Zp26(fname_2), RWX_RWX_RWX);
             const int err = atomic_write_532WlRrc(fname_2, data);
             if (err)
                 fu::fail(x7E_gCeFmDFw((("Failed to write `"_fu + fname_2) + "`, error: #"_fu), fu::i64dec(err)));
-- 
2.43.0


From 36efc50e1690d414632b64930b1199858462bdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:06 +0000
Subject: [PATCH 40/46] fix: write files next to where they go, so that another
 file system will do

---
 src/build.fu | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/build.fu b/src/build.fu
index bcefad3..ba5301d 100644
--- a/src/build.fu
+++ b/src/build.fu
@@ -97,10 +97,8 @@ fn ensure_local_fname(fname: string, dir_src: string): string
     return foreign ~ rel;
 }
 
-fn tmpfile(implicit dir_wrk: DirWrk)
+fn tmpname(mut fname: string)
 {
-    mut fname = dir_wrk.tmp;
-
     mut r = rand::next_u64();
     for (mut i = 0; i < 8; i++)
     {
@@ -114,9 +112,13 @@ fn tmpfile(implicit dir_wrk: DirWrk)
     return fname;
 }
 
+fn tmpfile(implicit dir_wrk: DirWrk)
+    tmpname(dir_wrk.tmp);
+
 fn atomic_write(fname!: string, data: string)
 {
-    let tmp = tmpfile();
+    // Next to the destination, renaming doesn't work across file systems.
+    let tmp = tmpname(fname ~ "-");
 
     let err = file::write(tmp, data) || file::rename(tmp, fname);
     if (err)
-- 
2.43.0


From 67fe32e861c9651fbc1fd538aeae4c5997cf1133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:06 +0000
Subject: [PATCH 41/46] fix: make an output binary next to where it goes

---
 src/build.fu     | 22 ++++++++++++++++------
 src/build.fu.cpp | 11 ++++++++---
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/build.fu b/src/build.fu
index ba5301d..6be5a57 100644
--- a/src/build.fu
+++ b/src/build.fu
@@ -1025,7 +1025,18 @@ fn buildTarget(
     }
 
     //
-    let F_exe       = dir_wrk.bin ~ hash_all.digest16 ~ "-" ~ len_all;
+    //
+    // An output binary is made right next to its destination -
+    //  renaming it out of the cache instead would fail across filesystems,
+    //   and whenever a parallel build does so first.
+    //
+    let F_exe       = bin
+        ? tmpname(bin ~ "-")
+        : dir_wrk.bin ~ hash_all.digest16 ~ "-" ~ len_all;
+
+    defer if (bin)
+        file::unlink(F_exe);
+
     let old_size    = !(bscheme & "nocache" || runmode == "Testsuite" && bscheme & "nocache_tests")
                         && file::size(F_exe);
 
@@ -1188,7 +1199,10 @@ fn buildTarget(
 
         // Link.
 
-        let F_tmp = tmpfile();
+        if (bin)
+            fs::mkdir_p( path::dirname(bin) );
+
+        let F_tmp = bin ? tmpname(bin ~ "-") : tmpfile();
 
         mut cmd = GCC_CMD ~ "-o " ~ F_tmp;
 
@@ -1332,11 +1346,7 @@ fn buildTarget(
 
     // output binary.
     if (bin)
-    {
-        fs::mkdir_p( path::dirname(bin) );
-
         code = file::rename(F_exe, bin).int;
-    }
 
     if (code) return ERR;
 
diff --git a/src/build.fu.cpp b/src/build.fu.cpp
index 1ac25ea..e7ecc4f 100644
--- a/src/build.fu.cpp
+++ b/src/build.fu.cpp
@@ -1889,7 +1889,10 @@ void build_dvjTrKQM(fu::str&& dir_wrk, fu::view<char> fudir, /*MOV*/ fu::str&& f
     };
     fu::str INCLUDE = (((((flags_cc ? (" "_fu + join_zqpLPm5h(flags_cc, ' ')) : fu::str{}) + " -I "_fu) + fudir) + "include"_fu) + (HACK_include_dirs ? (" -I "_fu + join_jCe9HYtv(HACK_include_dirs, " -I "_fu)) : fu::str{}));
     fu::str LIBS = (((flags_ld ? (" "_fu + join_zqpLPm5h(flags_ld, ' ')) : fu::str{}) + (HACK_linkFlags ? (" "_fu + join_jCe9HYtv(HACK_linkFlags, " "_fu)) : fu::str{})) + (HACK_pkgConfig_libs ? ((" $(pkg-config --libs "_fu + join_jCe9HYtv(HACK_pkgConfig_libs, " "_fu)) + ")"_fu) : fu::str{}));
-    /*MOV*/ fu::str F_exe = x7E_gCeFmDFw((x7E_gCeFmDFw((((dir_wrk + "b-"_fu) + hash16_nHEuzL2I((join_jCe9HYtv(Fs, "/"_fu) + LIBS), 16)) + "-"_fu), fu::i64dec(len_all)) + "-"_fu), fu::i64dec(Fs.size()));
+    /*MOV*/ fu::str F_exe = (bin ? tmpfile_MMG7Cq1v(fu::str(bin)) : x7E_gCeFmDFw((x7E_gCeFmDFw((((dir_wrk + "b-"_fu) + hash16_nHEuzL2I((join_jCe9HYtv(Fs, "/"_fu) + LIBS), 16)) + "-"_fu), fu::i64dec(len_all)) + "-"_fu), fu::i64dec(Fs.size())));
+    if (bin)
+        mkdir_p_K8xLUZUk(dirname_8Oo0Zp26(bin), RWX_RWX_RWX);
+
     const int64_t old_size = size_zTt3fZzW(fu::str(F_exe));
     if ((old_size < 1ll) && (bin || run))
     {
@@ -1959,13 +1962,16 @@ void build_dvjTrKQM(fu::str&& dir_wrk, fu::view<char> fudir, /*MOV*/ fu::str&& f
             const int64_t new_size = size_zTt3fZzW(fu::str(F_exe));
             if (new_size == 4ll || new_size == 20ll)
                 code = READ_StatusCode_J2ezsHRV(F_exe);
-            else if ((code != 32512) && (code != 35584))
+            else if (!bin && (code != 32512) && (code != 35584))
                 WRITE_StatusCode_rhOPS2bA(code, F_exe);
 
         };
     };
     if (code)
     {
+        if (bin)
+            unlink_zTt3fZzW(fu::str(F_exe));
+
         ERR_g5Dxor7D(fu::str{}, dir_wrk, onfail, modules, modules_1, Fs, code, stdout);
     }
     else
@@ -2003,7 +2009,6 @@ void build_dvjTrKQM(fu::str&& dir_wrk, fu::view<char> fudir, /*MOV*/ fu::str&& f
         };
         if (bin)
         {
-            mkdir_p_K8xLUZUk(dirname_8Oo0Zp26(bin), RWX_RWX_RWX);
             code = rename_SX2prLSI(static_cast<fu::str&&>(F_exe), static_cast<fu::str&&>(bin));
         };
         if (code)
-- 
2.43.0


From 5bec2ea377aad3fd55c38d0d2b19086617a0ed50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:06 +0000
Subject: [PATCH 42/46] fix: hash slices that are not aligned

---
 lib/tea.fu     | 22 ++++++++++++++--------
 lib/tea.fu.cpp | 16 ++++++++++------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/lib/tea.fu b/lib/tea.fu
index e609057..d981d23 100644
--- a/lib/tea.fu
+++ b/lib/tea.fu
@@ -83,25 +83,31 @@ fn hash(ref res: TEA, v: u32)
     res.r16();
 }
 
+// Little endian, and wherever the bytes happen to be.
+inline fn u32_at(u8view: byte[], start!: int)
+    u8view[start    ].u32         |
+    (u8view[start + 1].u32 <<  8) |
+    (u8view[start + 2].u32 << 16) |
+    (u8view[start + 3].u32 << 24);
+
 fn hash(ref res: TEA, u8view: byte[])
 {
-    // First off, a view over most of the array as u32s.
-    let u32len  = u8view.len & ~3;
-    let u32view = u8view[.. u32len].view(u32);
+    // First off, most of the array is taken as u32s.
+    let u32len = u8view.len & ~3;
 
     // First, tuples.
-    for (mut i = 1; i < u32view.len; i += 2)
+    for (mut i = 4; i < u32len; i += 8)
     {
-        res.v0 ^= u32view[i - 1];
-        res.v1 ^= u32view[i];
+        res.v0 ^= u8view.u32_at(start: i - 4);
+        res.v1 ^= u8view.u32_at(start: i);
         res.r16();
     }
 
     if (u8view.len & 7)
     {
         // A lone trailer.
-        if (u32view.len & 1)
-            res.v0 ^= u32view[u32view.len - 1];
+        if (u32len & 4)
+            res.v0 ^= u8view.u32_at(start: u32len - 4);
 
         // The trailing bytes.
         {
diff --git a/lib/tea.fu.cpp b/lib/tea.fu.cpp
index 0170000..d0edafc 100644
--- a/lib/tea.fu.cpp
+++ b/lib/tea.fu.cpp
@@ -88,20 +88,24 @@ void hash_CwEi37x3(s_TEA& res, const unsigned v)
     r16_ayNY8hbk(res);
 }
 
+static inline unsigned u32_at_okLTgNyg(fu::view<char> u8view, const int start)
+{
+    return (((unsigned(fu::u8(u8view[start])) | (unsigned(fu::u8(u8view[(start + 1)])) << 8u)) | (unsigned(fu::u8(u8view[(start + 2)])) << 16u)) | (unsigned(fu::u8(u8view[(start + 3)])) << 24u));
+}
+
 void hash_okLTgNyg(s_TEA& res, fu::view<char> u8view)
 {
     const int u32len = (u8view.size() & ~3);
-    fu::view<unsigned> u32view = fu::view_of<unsigned>(fu::get_view_start0(u8view, u32len));
-    for (int i = 1; i < u32view.size(); (i += 2))
+    for (int i = 4; i < u32len; (i += 8))
     {
-        res.v0 ^= u32view[(i - 1)];
-        res.v1 ^= u32view[i];
+        res.v0 ^= u32_at_okLTgNyg(u8view, (i - 4));
+        res.v1 ^= u32_at_okLTgNyg(u8view, i);
         r16_ayNY8hbk(res);
     };
     if (u8view.size() & 7)
     {
-        if (u32view.size() & 1)
-            res.v0 ^= u32view[(u32view.size() - 1)];
+        if (u32len & 4)
+            res.v0 ^= u32_at_okLTgNyg(u8view, (u32len - 4));
 
 
         {
-- 
2.43.0


From f6bf0628b49ecf32fddb5b4ffae9c7fe00e80696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:06 +0000
Subject: [PATCH 43/46] fix: processes started in the same tick drew the same
 random numbers

---
 lib/rand.fu     | 6 +++++-
 lib/rand.fu.cpp | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/rand.fu b/lib/rand.fu
index 713952e..2169efa 100644
--- a/lib/rand.fu
+++ b/lib/rand.fu
@@ -2,7 +2,8 @@
 pragma include(
     "<atomic>",
     "<stdint.h>",
-    "<sys/time.h>");
+    "<sys/time.h>",
+    "<unistd.h>");
 
 pragma emit(
 `
@@ -15,6 +16,9 @@ pragma emit(
             |  uint64_t(tv.tv_usec)
             | (uint64_t(tv.tv_sec) << 32);
 
+        // Processes starting together must differ too.
+        next ^= uint64_t(getpid()) << 42;
+
         for (int i = 0; i < 16; i++)
         {
             next ^= next >> 12;
diff --git a/lib/rand.fu.cpp b/lib/rand.fu.cpp
index 15647f7..0ed973f 100644
--- a/lib/rand.fu.cpp
+++ b/lib/rand.fu.cpp
@@ -2,6 +2,7 @@
 #include <cstdint>
 #include <stdint.h>
 #include <sys/time.h>
+#include <unistd.h>
 
 static uint64_t rand_u64_seed()
 {
@@ -12,6 +13,9 @@ static uint64_t rand_u64_seed()
         |  uint64_t(tv.tv_usec)
         | (uint64_t(tv.tv_sec) << 32);
 
+    // Processes starting together must differ too.
+    next ^= uint64_t(getpid()) << 42;
+
     for (int i = 0; i < 16; i++)
     {
         next ^= next >> 12;
-- 
2.43.0


From 031913a81b6217f2ea42103f59d143e8c48ac9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:06 +0000
Subject: [PATCH 44/46] fix: a truncated sequence at the end of a text was read
 beyond it

---
 lib/unicode.fu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/unicode.fu b/lib/unicode.fu
index 0759b70..42edde0 100644
--- a/lib/unicode.fu
+++ b/lib/unicode.fu
@@ -60,7 +60,7 @@ fn codepoints(utf8: byte[..], each, error?)
 
                 //
                 let i1 = i + extra;
-                if (utf8.len < i1) {
+                if (utf8.len <= i1) {
                     break :BREAK_ON_ERROR;
                 }
 
-- 
2.43.0


From c1b74424d05c999fc4d5cdd62fa6da45c57a6724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:06 +0000
Subject: [PATCH 45/46] fix: trimming removed bytes above 127

---
 lib/ascii.fu | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/ascii.fu b/lib/ascii.fu
index 6aba4f6..d524327 100644
--- a/lib/ascii.fu
+++ b/lib/ascii.fu
@@ -61,12 +61,12 @@ fn trim(str: string or byte[..])
 {
     mut start = 0;
     for (; start < str.len; start++)
-        if (str[start] > ' ')
+        if (str[start].u32 > ' '.u32)
             break;
 
     mut end = str.len;
     for (; end --> start; )
-        if (str[end] > ' ')
+        if (str[end].u32 > ' '.u32)
             break;
 
     return str[start .. end + 1];
-- 
2.43.0


From 7475a9c6e4941c96ab0566355d588425d8d0f629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:06 +0000
Subject: [PATCH 46/46] fix: shuffle did not compile

---
 lib/shuffle.fu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/shuffle.fu b/lib/shuffle.fu
index 72f020f..b24ceda 100644
--- a/lib/shuffle.fu
+++ b/lib/shuffle.fu
@@ -7,7 +7,7 @@ inline fn xorshift32(mut x: u32)
     return x;
 }
 
-pub fn shuffle(ref arr: T[..], ref seed?: u32)
+pub fn shuffle(ref arr: $T[..], ref seed?: u32)
 {
     seed ||= arr.len.u32;
 
-- 
2.43.0

