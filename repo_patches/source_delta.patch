From c69495f813917491eebdf16418bf8209c2d52207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:21 +0000
Subject: [PATCH 001/113] fix: do not print debug output when calling with
 custom struct arguments

---
 modules/compile/expression.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index eb964ab..77d3b0a 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -1092,8 +1092,6 @@ namespace X_ROOT_NS::modules::compile {
             ref_t type_ref = __ref_of(ctx, atype);
             pool.append<x_stack_alloc_xil_t>(type_ref);
 
-            _PP(atype);
-
             exp->compile(ctx, pool);
         }
         else
-- 
2.43.0


From e32f6ffd618ded4fde79d771748718dcb4b0874d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:21 +0000
Subject: [PATCH 002/113] fix: Console.WriteLine(ulong) writes the line
 terminator

---
 modules/rtlib/system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/rtlib/system.cpp b/modules/rtlib/system.cpp
index fa9995e..8abed2f 100644
--- a/modules/rtlib/system.cpp
+++ b/modules/rtlib/system.cpp
@@ -138,7 +138,7 @@ namespace X_ROOT_NS::modules::rtlib {
 
     void console_write_uint64_line(rtlib_context_t & ctx)
     {
-        __console_write<ruint64_t>(ctx);
+        __console_write_line<ruint64_t>(ctx);
     }
 
     void console_write_float(rtlib_context_t & ctx)
-- 
2.43.0


From d147e92458179a83bb42b5f1ed051c9a1f8f4614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:21 +0000
Subject: [PATCH 003/113] fix: allocate the storage of all dimensions of a
 multi-dimensional array

---
 modules/mm/mm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/mm/mm.cpp b/modules/mm/mm.cpp
index d05be4f..2899bfc 100644
--- a/modules/mm/mm.cpp
+++ b/modules/mm/mm.cpp
@@ -163,6 +163,8 @@ namespace X_ROOT_NS::modules::mm {
                 length *= *l;
             }
 
+            size = _alignf(length * element_size, sizeof(rt_stack_unit_t));
+
             // type info + length of each dimensions + array length.
             const size_t extern_size = _alignf(
                 sizeof(rt_type_t *) + sizeof(array_length_t) * dimension + sizeof(array_length_t),
-- 
2.43.0


From 996d555bf9675d5a1db1c6e6f8f88793cfc00ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:21 +0000
Subject: [PATCH 004/113] fix: compute the return value before running finally
 blocks

---
 modules/compile/__xilx.h       | 7 +++++--
 modules/compile/statements.cpp | 7 ++-----
 modules/compile/xilx.cpp       | 4 ++++
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/modules/compile/__xilx.h b/modules/compile/__xilx.h
index 3d59a6f..f3f8857 100644
--- a/modules/compile/__xilx.h
+++ b/modules/compile/__xilx.h
@@ -178,13 +178,16 @@ namespace X_ROOT_NS::modules::compile {
     public:
 
         // Constructor.
-        return_xilx_t(__region_t & region, expression_t * expression)
+        return_xilx_t(__region_t & region, expression_t * expression, bool need_leave = false)
             : __super_t(region)
-            , expression(expression) { }
+            , expression(expression), need_leave(need_leave) { }
 
         // Return expression.
         expression_t * expression;
 
+        // Whether executes finally blocks before return.
+        bool need_leave;
+
         // Writes xilx to a pool.
         virtual void write(__xw_context_t & ctx, xil_pool_t & pool) override;
 
diff --git a/modules/compile/statements.cpp b/modules/compile/statements.cpp
index 2ee30bf..4a8c4be 100644
--- a/modules/compile/statements.cpp
+++ b/modules/compile/statements.cpp
@@ -648,17 +648,14 @@ namespace X_ROOT_NS::modules::compile {
     // Compiles this statement.
     void return_statement_t::compile(statement_compile_context_t & ctx) 
     {
-        // Insert leave command before return in protected regions.
-        if (__need_leave(ctx))
-            xilx::append_xilx<leave_ret_xilx_t>(ctx);
-
         if (expression != nullptr)
         {
             __walk_variables(expression);
             set_assign_parent(expression);
         }
 
-        append_xilx<return_xilx_t>(ctx, expression);
+        // Insert leave command before return in protected regions.
+        append_xilx<return_xilx_t>(ctx, expression, __need_leave(ctx));
     }
 
     // Returns exit type.
diff --git a/modules/compile/xilx.cpp b/modules/compile/xilx.cpp
index 40f49e2..d564f24 100644
--- a/modules/compile/xilx.cpp
+++ b/modules/compile/xilx.cpp
@@ -492,6 +492,10 @@ namespace X_ROOT_NS::modules::compile {
             }
         }
 
+        // The finally blocks are executed after the return value is computed.
+        if (need_leave)
+            xil::append_jmp_xil(pool, xil_jmp_model_t::leave);
+
         xil::append_ret(pool);
     }
 
-- 
2.43.0


From 8a92bf31fd3d0c860c1d282c3a6767fba8f292b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:21 +0000
Subject: [PATCH 005/113] fix: check negative and assigned-expression array
 indexes

---
 modules/exec/commands.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index 5125de2..e3a8741 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -1230,6 +1230,12 @@ namespace X_ROOT_NS::modules::exec {
         }
     }
 
+    // Returns whether the index is out of the range of the array.
+    __AlwaysInline static bool __array_index_out_of_range(rt_ref_t array_ref, array_length_t index)
+    {
+        return index < 0 || index >= mm::get_array_length(array_ref);
+    }
+
     //-------- ---------- ---------- ---------- ----------
     // Push array element.
 
@@ -1262,7 +1268,7 @@ namespace X_ROOT_NS::modules::exec {
                 index += __mul_array_index<_dimension - 1>(ctx.stack, lengths);
             }
 
-            if (index >= mm::get_array_length(array_ref))
+            if (__array_index_out_of_range(array_ref, index))
                 __RaiseOutOfRangeException(ctx);
 
             ctx.stack.push<__value2_t>(static_cast<__value2_t>(
@@ -1300,7 +1306,7 @@ namespace X_ROOT_NS::modules::exec {
 
             index += __array_index(ctx.stack, __This->__dimension - 1, lengths);
 
-            if (index >= mm::get_array_length(array_ref))
+            if (__array_index_out_of_range(array_ref, index))
                 __RaiseOutOfRangeException(ctx);
 
             ctx.stack.push<__value2_t>(static_cast<__value2_t>(
@@ -1376,7 +1382,7 @@ namespace X_ROOT_NS::modules::exec {
                 index += __mul_array_index<_dimension - 1>(ctx.stack, lengths);
             }
 
-            if (index >= mm::get_array_length(array_ref))
+            if (__array_index_out_of_range(array_ref, index))
                 __RaiseOutOfRangeException(ctx);
 
             ctx.stack.push(array_ref + index * __element_size);
@@ -1413,7 +1419,7 @@ namespace X_ROOT_NS::modules::exec {
 
             index += __array_index(ctx.stack, __This->__dimension - 1, lengths);
 
-            if (index >= mm::get_array_length(array_ref))
+            if (__array_index_out_of_range(array_ref, index))
                 __RaiseOutOfRangeException(ctx);
 
             ctx.stack.push(array_ref + index * __element_size);
@@ -2975,7 +2981,7 @@ namespace X_ROOT_NS::modules::exec {
                 index += __mul_array_index<_dimension - 1>(ctx.stack, lengths);
             }
 
-            if (index >= mm::get_array_length(array_ref))
+            if (__array_index_out_of_range(array_ref, index))
                 __RaiseOutOfRangeException(ctx);
 
             mm::set_array_element<__value1_t>(
@@ -3012,6 +3018,9 @@ namespace X_ROOT_NS::modules::exec {
 
             index += __array_index(ctx.stack, __This->__dimension - 1, lengths);
 
+            if (__array_index_out_of_range(array_ref, index))
+                __RaiseOutOfRangeException(ctx);
+
             mm::set_array_element<__value1_t>(
                 array_ref, index, static_cast<__value1_t>(ctx.stack.pop<__value2_t>())
             );
@@ -3549,6 +3558,9 @@ namespace X_ROOT_NS::modules::exec {
                 index += __mul_array_index<_dimension - 1>(ctx.stack, lengths);
             }
 
+            if (__array_index_out_of_range(array_ref, index))
+                __RaiseOutOfRangeException(ctx);
+
             mm::set_array_element<__value1_t>(
                 array_ref, index, static_cast<__value1_t>(ctx.stack.pick<__value2_t>())
             );
@@ -3583,6 +3595,9 @@ namespace X_ROOT_NS::modules::exec {
 
             index += __array_index(ctx.stack, __This->__dimension - 1, lengths);
 
+            if (__array_index_out_of_range(array_ref, index))
+                __RaiseOutOfRangeException(ctx);
+
             mm::set_array_element<__value1_t>(
                 array_ref, index, static_cast<__value1_t>(ctx.stack.pick<__value2_t>())
             );
-- 
2.43.0


From 22b3f00f6369dd5e673e7bad61c3c45800c5ac27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:21 +0000
Subject: [PATCH 006/113] fix: do not read past the block table when no
 protected block encloses the point

---
 include/modules/exec.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/modules/exec.h b/include/modules/exec.h
index ea40ec2..189026f 100644
--- a/include/modules/exec.h
+++ b/include/modules/exec.h
@@ -608,6 +608,10 @@ namespace X_ROOT_NS::modules::exec {
                 }
             }
 
+            // The point is not in any block.
+            if (block == block_end)
+                return;
+
             while ((block = block->parent) != nullptr)
             {
                 if (__MatchBlockType(block) && !f(block))
-- 
2.43.0


From 33da451eb20f8a9b1b49aadf1b2ed5738ee2fc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:13 +0000
Subject: [PATCH 007/113] fix: convert a variable or constant to the required
 type only once

---
 modules/compile/expression.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 77d3b0a..65b4e0d 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -2041,7 +2041,8 @@ namespace X_ROOT_NS::modules::compile {
 
     void __post_compile_expression(__cctx_t & ctx, xil_pool_t & pool, expression_t * exp,
             const __environment_t & env = __environment_t::empty,
-            type_t * exp_type = nullptr       // expression type maybe changed.
+            type_t * exp_type = nullptr,      // expression type maybe changed.
+            bool converted = false            // value has been converted when pushed.
     )  
     {
         #define __ExpType   _N(exp_type, exp->get_type())
@@ -2063,7 +2064,7 @@ namespace X_ROOT_NS::modules::compile {
         }
 
         // When need to convert.
-        if (type_t * type = env.type; type != nullptr && is_value_type(type))
+        if (type_t * type = env.type; !converted && type != nullptr && is_value_type(type))
         {
             if (env.dtype != xil_type_t::empty && is_value_type(__ExpType))
             {
@@ -2420,7 +2421,12 @@ namespace X_ROOT_NS::modules::compile {
                     __append_object_copy_xil(ctx, pool, type, xil_copy_kind_t::reverse);
                 }
                     
-                __post_compile_expression(ctx, pool, this, env);
+                // Local variables and fields are converted when pushed.
+                bool converted = al::in(this->variable->this_type(),
+                    variable_type_t::local, variable_type_t::field
+                );
+
+                __post_compile_expression(ctx, pool, this, env, nullptr, converted);
             }   break;
 
             case name_expression_type_t::type:
@@ -2604,7 +2610,7 @@ namespace X_ROOT_NS::modules::compile {
             __compile_cvalue(ctx, pool, cvalue, env);
         }
 
-        __post_compile_expression(ctx, pool, this, env);
+        __post_compile_expression(ctx, pool, this, env, nullptr, true);
     }
 
     ////////// ////////// ////////// ////////// //////////
-- 
2.43.0


From 9ba53743d4106a243bb4558b8f8f832699efcdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:13 +0000
Subject: [PATCH 008/113] fix: convert an array element to the type its context
 requires

---
 modules/compile/expression.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 65b4e0d..c085be1 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -3039,6 +3039,10 @@ namespace X_ROOT_NS::modules::compile {
             pool.append<x_push_array_element_xil_t>(
                 __to_xil_type(element_type), array_type_ref
             );
+
+            // When need to convert.
+            if (type_t * type = env.type; type != nullptr && is_value_type(type))
+                __try_append_convert_xil(pool, element_type, env);
         }
     }
 
-- 
2.43.0


From 48128f574b28c56ab1d132bda1e8fc188dd78dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:05 +0000
Subject: [PATCH 009/113] fix: convert and box array elements and indexer
 results as their context requires

---
 modules/compile/expression.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index c085be1..6f1de06 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -3003,6 +3003,8 @@ namespace X_ROOT_NS::modules::compile {
                 default:
                     X_UNEXPECTED_F("unexpected variable type '%1%'", variable->this_type());
             }
+
+            __post_compile_expression(ctx, pool, this, env);
         }
         else
         {
@@ -3039,10 +3041,6 @@ namespace X_ROOT_NS::modules::compile {
             pool.append<x_push_array_element_xil_t>(
                 __to_xil_type(element_type), array_type_ref
             );
-
-            // When need to convert.
-            if (type_t * type = env.type; type != nullptr && is_value_type(type))
-                __try_append_convert_xil(pool, element_type, env);
         }
     }
 
-- 
2.43.0


From b62e9101185917f2015360bc1da16c8e54c5764d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:05 +0000
Subject: [PATCH 010/113] fix: give the branches of a conditional expression
 the type its context requires

---
 modules/lang_cs/expressions.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/lang_cs/expressions.cpp b/modules/lang_cs/expressions.cpp
index 70fd96d..3bb84d6 100644
--- a/modules/lang_cs/expressions.cpp
+++ b/modules/lang_cs/expressions.cpp
@@ -39,24 +39,24 @@ namespace X_ROOT_NS::modules::lang_cs {
         {
             if (condition_value == true)
             {
-                value1()->compile(ctx, pool);
+                value1()->compile(ctx, pool, env);
             }
             else if (condition_value == false)
             {
-                value2()->compile(ctx, pool);
+                value2()->compile(ctx, pool, env);
             }
             else
             {
                 condition()->compile(ctx, pool);
                 jmp_xil_t * false_jmp_xil = xil::append_jmp_xil(pool, xil_jmp_model_t::false_);
 
-                value1()->compile(ctx, pool);
+                value1()->compile(ctx, pool, env);
                 jmp_xil_t * finally_jmp_xil = xil::append_jmp_xil(pool, xil_jmp_model_t::none);
 
                 if (false_jmp_xil != nullptr)
                     xil::append_label_xil(sctx, pool, false_jmp_xil);
 
-                value2()->compile(ctx, pool);
+                value2()->compile(ctx, pool, env);
 
                 xil::append_label_xil(sctx, pool, finally_jmp_xil);
             }
-- 
2.43.0


From ce6d1d7f6526553e1f4ebba6b3db86f3b6cdd99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:15 +0000
Subject: [PATCH 011/113] fix: provide the runtime commands for ulong with
 float and double operands

---
 modules/exec/commands.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index e3a8741..d6a6ae3 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -4917,7 +4917,7 @@ namespace X_ROOT_NS::modules::exec {
         __CaseBinary2(_op, float_,  int32)                                              \
         __CaseBinary2(_op, float_,  uint32)                                             \
         __CaseBinary2(_op, float_,  int64)                                              \
-        __CaseBinary1(_op, float_,  uint64)                                             \
+        __CaseBinary2(_op, float_,  uint64)                                             \
         __CaseBinary1(_op, float_,  float_)                                             \
                                                                                         \
         __CaseBinary2(_op, double_,  int8)                                              \
@@ -4927,7 +4927,7 @@ namespace X_ROOT_NS::modules::exec {
         __CaseBinary2(_op, double_,  int32)                                             \
         __CaseBinary2(_op, double_,  uint32)                                            \
         __CaseBinary2(_op, double_,  int64)                                             \
-        __CaseBinary1(_op, double_,  uint64)                                            \
+        __CaseBinary2(_op, double_,  uint64)                                            \
         __CaseBinary2(_op, double_,  float_)                                            \
         __CaseBinary1(_op, double_,  double_)
 
@@ -7417,7 +7417,7 @@ namespace X_ROOT_NS::modules::exec {
             __SwitchCommands_CaseBinary_2(_cmd, _op, float_,  int32)                    \
             __SwitchCommands_CaseBinary_2(_cmd, _op, float_,  uint32)                   \
             __SwitchCommands_CaseBinary_2(_cmd, _op, float_,  int64)                    \
-            __SwitchCommands_CaseBinary_1(_cmd, _op, float_,  uint64)                   \
+            __SwitchCommands_CaseBinary_2(_cmd, _op, float_,  uint64)                   \
             __SwitchCommands_CaseBinary_1(_cmd, _op, float_,  float_)                   \
                                                                                         \
             __SwitchCommands_CaseBinary_2(_cmd, _op, double_,  int8)                    \
@@ -7427,7 +7427,7 @@ namespace X_ROOT_NS::modules::exec {
             __SwitchCommands_CaseBinary_2(_cmd, _op, double_,  int32)                   \
             __SwitchCommands_CaseBinary_2(_cmd, _op, double_,  uint32)                  \
             __SwitchCommands_CaseBinary_2(_cmd, _op, double_,  int64)                   \
-            __SwitchCommands_CaseBinary_1(_cmd, _op, double_,  uint64)                  \
+            __SwitchCommands_CaseBinary_2(_cmd, _op, double_,  uint64)                  \
             __SwitchCommands_CaseBinary_2(_cmd, _op, double_,  float_)                  \
             __SwitchCommands_CaseBinary_1(_cmd, _op, double_,  double_)
 
-- 
2.43.0


From d6431dbdfcac4620f6f66d13948365fc34edad0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:02 +0000
Subject: [PATCH 012/113] fix: raise NullReferenceException for fields and
 elements of null references

---
 modules/exec/commands.cpp | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index d6a6ae3..771b6a6 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -1044,8 +1044,11 @@ namespace X_ROOT_NS::modules::exec {
 
         __BeginExecute(ctx)
 
+            rt_ref_t obj = ctx.stack.pop<rt_ref_t>();
+            __CheckNullReference(ctx, obj);
+
             ctx.stack.push(static_cast<__value2_t>(
-                __Field(__value1_t, ctx.stack.pop<rt_ref_t>(), __This->__offset)
+                __Field(__value1_t, obj, __This->__offset)
             ));
 
         __EndExecute()
@@ -1078,9 +1081,10 @@ namespace X_ROOT_NS::modules::exec {
 
         __BeginExecute(ctx)
 
-            ctx.stack.push(
-                __FieldAddress(ctx.stack.pop<rt_ref_t>(), __This->__offset)
-            );
+            rt_ref_t obj = ctx.stack.pop<rt_ref_t>();
+            __CheckNullReference(ctx, obj);
+
+            ctx.stack.push(__FieldAddress(obj, __This->__offset));
 
         __EndExecute()
 
@@ -1260,6 +1264,8 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
+            __CheckNullReference(ctx, array_ref);
+
             array_length_t index = ctx.stack.pop<array_length_t>();
 
             if constexpr (_dimension >= 2)
@@ -1301,6 +1307,8 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
+            __CheckNullReference(ctx, array_ref);
+
             array_length_t index = ctx.stack.pop<array_length_t>();
             array_length_t * lengths = mm::get_array_lengths(array_ref);
 
@@ -1374,6 +1382,8 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
+            __CheckNullReference(ctx, array_ref);
+
             array_length_t index = ctx.stack.pop<array_length_t>();
 
             if constexpr (_dimension >= 2)
@@ -1414,6 +1424,8 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
+            __CheckNullReference(ctx, array_ref);
+
             array_length_t index = ctx.stack.pop<array_length_t>();
             array_length_t * lengths = mm::get_array_lengths(array_ref);
 
@@ -2928,7 +2940,10 @@ namespace X_ROOT_NS::modules::exec {
 
         __BeginExecute(ctx)
 
-            void * field = __FieldAddress(ctx.stack.pop<rt_ref_t>(), __This->__offset);
+            rt_ref_t obj = ctx.stack.pop<rt_ref_t>();
+            __CheckNullReference(ctx, obj);
+
+            void * field = __FieldAddress(obj, __This->__offset);
             *(__value1_t *)field = static_cast<__value1_t>(ctx.stack.pop<__value2_t>());
 
         __EndExecute()
@@ -2973,6 +2988,8 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
+            __CheckNullReference(ctx, array_ref);
+
             array_length_t index = ctx.stack.pop<array_length_t>();
 
             if (_dimension >= 2)
@@ -3013,6 +3030,8 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
+            __CheckNullReference(ctx, array_ref);
+
             array_length_t index = ctx.stack.pop<array_length_t>();
             array_length_t * lengths = mm::get_array_lengths(array_ref);
 
@@ -3504,7 +3523,10 @@ namespace X_ROOT_NS::modules::exec {
 
         __BeginExecute(ctx)
 
-            void * field = __FieldAddress(ctx.stack.pop<rt_ref_t>(), __This->__offset);
+            rt_ref_t obj = ctx.stack.pop<rt_ref_t>();
+            __CheckNullReference(ctx, obj);
+
+            void * field = __FieldAddress(obj, __This->__offset);
             *(__value1_t *)field = static_cast<__value1_t>(ctx.stack.pick<__value2_t>());
 
         __EndExecute()
@@ -3550,6 +3572,8 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
+            __CheckNullReference(ctx, array_ref);
+
             array_length_t index = ctx.stack.pop<array_length_t>();
 
             if (_dimension >= 2)
@@ -3590,6 +3614,8 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
+            __CheckNullReference(ctx, array_ref);
+
             array_length_t index = ctx.stack.pop<array_length_t>();
             array_length_t * lengths = mm::get_array_lengths(array_ref);
 
-- 
2.43.0


From 7b702d7c67dd15f2ff952aa51362938241c8f5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:18 +0000
Subject: [PATCH 013/113] fix: let the heap destroy token enumerators through
 their object_t base

---
 modules/compile/__token_reader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/compile/__token_reader.h b/modules/compile/__token_reader.h
index b6352f8..a5edc41 100644
--- a/modules/compile/__token_reader.h
+++ b/modules/compile/__token_reader.h
@@ -43,7 +43,7 @@ namespace X_ROOT_NS::modules::compile {
     ////////// ////////// ////////// ////////// //////////
 
     // Base class of token enumerator.
-    class token_enumerator_base_t : public token_enumerator_t, public object_t
+    class token_enumerator_base_t : public object_t, public token_enumerator_t
     {
     public:
 
-- 
2.43.0


From 90999fa3ecdc6a6df33a7f1357964ac87bddcb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:18 +0000
Subject: [PATCH 014/113] fix: keep the stack of invisible tokens alive while
 it is referenced

---
 modules/compile/analyze_tree.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/modules/compile/analyze_tree.cpp b/modules/compile/analyze_tree.cpp
index 1d504de..3923a0e 100644
--- a/modules/compile/analyze_tree.cpp
+++ b/modules/compile/analyze_tree.cpp
@@ -3130,6 +3130,13 @@ namespace X_ROOT_NS::modules::compile {
         __stack_node_value_t & value = stack_node->value;
         analyze_normal_path_node_t * src = value.current;
 
+        // the stack of invisible tokens, referenced by stack_items.
+        __path_node_stack_t stack(value.node, 1);
+        __stack_normal_buffer_t buffer = {
+            const_cast<analyze_node_t *>(value.node),
+            const_cast<analyze_node_t *>(value.node)
+        };
+
         // search stacks
         __stack_items_t stack_items;
         for (const __node_key_t * p_key = push_args.keys; *p_key != __empty_node_key; p_key++)
@@ -3150,14 +3157,7 @@ namespace X_ROOT_NS::modules::compile {
             {
                 if (__is_invisible(key))
                 {
-                    __path_node_stack_t stack(value.node, 1);
                     stack.normal_count = 1;
-
-                    __stack_normal_buffer_t buffer = {
-                        const_cast<analyze_node_t *>(value.node),
-                        const_cast<analyze_node_t *>(value.node)
-                    };
-
                     stack.units[0] = __stack_unit_t(value.node, 0, &buffer, nullptr, key.value);
                     stack_items.push_back(__stack_item_t { &stack, src });
                 }
-- 
2.43.0


From e53fe7c114e5e429691d80eb0b45ba0427b53e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:51 +0000
Subject: [PATCH 015/113] fix: continue in do-while and loop-until evaluates
 the loop condition

---
 modules/compile/statements.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/modules/compile/statements.cpp b/modules/compile/statements.cpp
index 4a8c4be..fd28040 100644
--- a/modules/compile/statements.cpp
+++ b/modules/compile/statements.cpp
@@ -682,15 +682,17 @@ namespace X_ROOT_NS::modules::compile {
     {
         ctx.begin_region<__do_while_statement_region_t>();
 
-        set_point(ctx, __exit_point_type_t::continue_);
+        local_label_t label_begin = ctx.next_local_label();
+        append_local_label(ctx, label_begin);
         compile_statement(ctx, body);
+        set_point(ctx, __exit_point_type_t::continue_);
 
         cvalue_t condition_value = __remove_unreached_codes(ctx)?
                         execute_expression(condition) : cvalue_t::nan;
 
         if (condition_value == true || condition == nullptr)
         {
-            append_jmp(ctx, __exit_point_type_t::continue_);
+            append_jmp(ctx, label_begin);
         }
         else if (condition_value == false)
         {
@@ -699,7 +701,7 @@ namespace X_ROOT_NS::modules::compile {
         else
         {
             append_expression(ctx, condition, true);
-            append_jmp(ctx, __exit_point_type_t::continue_, xil_jmp_model_t::true_);
+            append_jmp(ctx, label_begin, xil_jmp_model_t::true_);
         }
 
         set_point(ctx, __exit_point_type_t::break_);
@@ -750,15 +752,17 @@ namespace X_ROOT_NS::modules::compile {
     {
         ctx.begin_region<__loop_until_statement_region_t>();
 
-        set_point(ctx, __exit_point_type_t::continue_);
+        local_label_t label_begin = ctx.next_local_label();
+        append_local_label(ctx, label_begin);
         compile_statement(ctx, body);
+        set_point(ctx, __exit_point_type_t::continue_);
 
         cvalue_t condition_value = __remove_unreached_codes(ctx)?
                         execute_expression(condition) : cvalue_t::nan;
 
         if (condition_value == false || condition == nullptr)
         {
-            append_jmp(ctx, __exit_point_type_t::continue_);
+            append_jmp(ctx, label_begin);
         }
         else if (condition_value == true)
         {
@@ -767,7 +771,7 @@ namespace X_ROOT_NS::modules::compile {
         else
         {
             append_expression(ctx, condition, true);
-            append_jmp(ctx, __exit_point_type_t::continue_, xil_jmp_model_t::false_);
+            append_jmp(ctx, label_begin, xil_jmp_model_t::false_);
         }
 
         set_point(ctx, __exit_point_type_t::break_);
-- 
2.43.0


From 61382bbd3dba1cb1d320741505805aef33aa1beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:39 +0000
Subject: [PATCH 016/113] fix: && and || evaluate the second operand only when
 needed

---
 modules/compile/expression.cpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 6f1de06..f515aee 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -897,6 +897,26 @@ namespace X_ROOT_NS::modules::compile {
         }
     }
 
+    // Compiles exp1 && exp2, exp1 || exp2, exp2 is evaluated only when exp1 does not decide the result.
+    static void __compile_short_circuit(__cctx_t & ctx, xil_pool_t & pool,
+                expression_t * exp1, expression_t * exp2, bool decisive_value)
+    {
+        statement_compile_context_t & sctx = ctx.statement_ctx;
+
+        exp1->compile(ctx, pool);
+        jmp_xil_t * decided_jmp_xil = xil::append_jmp_xil(pool,
+            decisive_value? xil_jmp_model_t::true_ : xil_jmp_model_t::false_
+        );
+
+        exp2->compile(ctx, pool);
+        jmp_xil_t * finally_jmp_xil = xil::append_jmp_xil(pool, xil_jmp_model_t::none);
+
+        xil::append_label_xil(sctx, pool, decided_jmp_xil);
+        __compile_number(ctx, pool, decisive_value);
+
+        xil::append_label_xil(sctx, pool, finally_jmp_xil);
+    }
+
     // Compiles logic and expression.
     static void __compile_logic_and(__cctx_t & ctx, xil_pool_t & pool,
                                 expression_t * exp1, expression_t * exp2)
@@ -916,10 +936,7 @@ namespace X_ROOT_NS::modules::compile {
             }
         }
 
-        exp1->compile(ctx, pool);
-        exp2->compile(ctx, pool);
-
-        pool.append<x_logic_xil_t>(xil_logic_command_t::and_);
+        __compile_short_circuit(ctx, pool, exp1, exp2, false);
     }
 
     // Compiles logic or expression.
@@ -941,10 +958,7 @@ namespace X_ROOT_NS::modules::compile {
             }
         }
 
-        exp1->compile(ctx, pool);
-        exp2->compile(ctx, pool);
-
-        pool.append<x_logic_xil_t>(xil_logic_command_t::or_);
+        __compile_short_circuit(ctx, pool, exp1, exp2, true);
     }
 
     // Compiles logic not expression.
-- 
2.43.0


From 1b3312d23bbd9ac302c557393a3e438d27f49343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:33 +0000
Subject: [PATCH 017/113] fix: assigning a ref parameter and a value parameter
 use separate commands

---
 modules/exec/commands.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index 771b6a6..45fce7c 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -3262,7 +3262,7 @@ namespace X_ROOT_NS::modules::exec {
             #define __CaseArgumentAddr(_xt1, _xt2)                                      \
                 case __V(xil_storage_type_t::argument_addr, xil_type_t::_xt1, xil_type_t::_xt2): \
                     return __command_manager.template get_command<                      \
-                        __StCmd(pop, argument, _xt1, _xt2),                             \
+                        __StCmd(pop, argument_addr, _xt1, _xt2),                        \
                         xil_storage_type_t::argument_addr, xil_type_t::_xt1, xil_type_t::_xt2 \
                     >(ctx.params_layout.offset_of(xil.get_identity()));
 
-- 
2.43.0


From 4f0d7e59647c72c9ae5ca074027816379b9db9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:41 +0000
Subject: [PATCH 018/113] fix: exit types of loops and try statements account
 for every way through them

---
 modules/compile/statements.cpp | 54 +++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/modules/compile/statements.cpp b/modules/compile/statements.cpp
index fd28040..f4fe5f6 100644
--- a/modules/compile/statements.cpp
+++ b/modules/compile/statements.cpp
@@ -166,6 +166,19 @@ namespace X_ROOT_NS::modules::compile {
         return statement->exit_type(ctx);
     }
 
+    // Returns exit type of a cycle, passed: whether the cycle may be left by its condition.
+    __exit_type_t __exit_type_of_cycle(__e_exit_type_t et_body, bool passed)
+    {
+        if (et_body.has(__exit_type_t::break_))     // Passed by break.
+            passed = true;
+
+        et_body.remove(__exit_type_t::break_, __exit_type_t::continue_, __exit_type_t::pass);
+        if (passed)
+            et_body.add(__exit_type_t::pass);
+
+        return *et_body;
+    }
+
     // Returns whether statement is pass through.
     bool __statement_pass(statement_compile_context_t & ctx, statement_t * statement)
     {
@@ -720,12 +733,13 @@ namespace X_ROOT_NS::modules::compile {
             if (!et_body.has(__FreeExitFlags))
                 return __exit_type_t::dead_cycle;
 
-            return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_,
-                                  __exit_type_t::pass);
+            return __exit_type_of_cycle(et_body, false);
         }
 
         __e_exit_type_t et_body = __exit_type(ctx, body);
-        return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_);
+        return __exit_type_of_cycle(et_body, !et_body ||
+            et_body.has(__exit_type_t::pass) || et_body.has(__exit_type_t::continue_)
+        );
     }
 
     X_DEFINE_TO_STRING(do_while_statement_t)
@@ -790,8 +804,7 @@ namespace X_ROOT_NS::modules::compile {
             if (!et_body.has(__FreeExitFlags))
                 return __exit_type_t::dead_cycle;
 
-            return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_,
-                                  __exit_type_t::pass);
+            return __exit_type_of_cycle(et_body, false);
         }
 
         // When condition always true.
@@ -799,7 +812,9 @@ namespace X_ROOT_NS::modules::compile {
             return __exit_type_t::none;
 
         __e_exit_type_t et_body = __exit_type(ctx, body);
-        return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_);
+        return __exit_type_of_cycle(et_body, !et_body ||
+            et_body.has(__exit_type_t::pass) || et_body.has(__exit_type_t::continue_)
+        );
     }
 
     X_DEFINE_TO_STRING(loop_until_statement_t)
@@ -864,12 +879,11 @@ namespace X_ROOT_NS::modules::compile {
             if (!et_body.has(__FreeExitFlags))
                 return __exit_type_t::dead_cycle;
 
-            return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_,
-                                  __exit_type_t::pass);
+            return __exit_type_of_cycle(et_body, false);
         }
 
         __e_exit_type_t et_body = __exit_type(ctx, body);
-        return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_);
+        return __exit_type_of_cycle(et_body, true);
     }
 
     X_DEFINE_TO_STRING(while_statement_t)
@@ -957,12 +971,11 @@ namespace X_ROOT_NS::modules::compile {
             if (!et_body.has(__FreeExitFlags))
                 return __exit_type_t::dead_cycle;
 
-            return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_,
-                                  __exit_type_t::pass);
+            return __exit_type_of_cycle(et_body, false);
         }
 
         __e_exit_type_t et_body = __exit_type(ctx, body);
-        return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_);
+        return __exit_type_of_cycle(et_body, true);
     }
 
     X_DEFINE_TO_STRING(for_statement_t)
@@ -1668,8 +1681,8 @@ namespace X_ROOT_NS::modules::compile {
             return et_finally;
 
         __e_exit_type_t et = __exit_type_of(ctx, try_statement);
-        if (!et.has(__exit_type_t::throw_))
-            return et;
+        if (!et)
+            et.add(__exit_type_t::pass);
 
         general_type_t * exception_type = __XPool.get_exception_type();
         for (catch_t * c : catches)
@@ -1678,6 +1691,19 @@ namespace X_ROOT_NS::modules::compile {
                 et.remove(__exit_type_t::throw_);
         }
 
+        // The catch blocks may be executed whatever the try block does.
+        for (catch_t * c : catches)
+        {
+            if (c == nullptr)
+                continue;
+
+            __e_exit_type_t et_catch = __exit_type_of(ctx, c->body);
+            if (!et_catch)
+                et_catch.add(__exit_type_t::pass);
+
+            et |= et_catch;
+        }
+
         return *et;
     }
 
-- 
2.43.0


From 46a4a8c30ca87a78faeaacebcfee407172baa896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:42 +0000
Subject: [PATCH 019/113] fix: merge two parsing states only when their whole
 stacks are equal

---
 modules/compile/analyze_tree.cpp | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/modules/compile/analyze_tree.cpp b/modules/compile/analyze_tree.cpp
index 3923a0e..cba9a9a 100644
--- a/modules/compile/analyze_tree.cpp
+++ b/modules/compile/analyze_tree.cpp
@@ -3521,11 +3521,33 @@ namespace X_ROOT_NS::modules::compile {
 
     #define __I(n)   ((*(n))->merge_identity)
 
+    // Compares two leaves by their whole stacks, the merge identity is only a hash code of it.
+    static int __cmp_stack(const __stack_node_t * n1, const __stack_node_t * n2)
+    {
+        if (__I(n1) != __I(n2))
+            return __I(n1) < __I(n2)? -1 : 1;
+
+        for (; n1 != n2; n1 = n1->parent, n2 = n2->parent)
+        {
+            if (n1 == nullptr || n2 == nullptr)
+                return n1 == nullptr? -1 : 1;
+
+            if ((*n1)->node != (*n2)->node)
+                return (*n1)->node < (*n2)->node? -1 : 1;
+
+            if ((*n1)->current != (*n2)->current)
+                return (*n1)->current < (*n2)->current? -1 : 1;
+        }
+
+        return 0;
+    }
+
     // Sorts leaves.
     __AlwaysInline void __sort_leaves(__leaves_t & leaves)
     {
         leaves.sort([](__stack_node_t * n1, __stack_node_t * n2) {
-            return __I(n1) == __I(n2)? __leaf_less(n1, n2) : __I(n1) < __I(n2);
+            int r = __cmp_stack(n1, n2);
+            return r == 0? __leaf_less(n1, n2) : r < 0;
         });
     }
 
@@ -3542,9 +3564,9 @@ namespace X_ROOT_NS::modules::compile {
             __print_leaf_identities(__leaves);
 #endif
 
-        __merge_identity_t last = __I(__leaves[0]);
+        __stack_node_t * last = __leaves[0];
         __leaves.walk([&last, this](__stack_node_t * n) {
-            return (__I(n) == last)?  (__remove_leaf(n), false) : (last = __I(n), true);
+            return (__cmp_stack(n, last) == 0)?  (__remove_leaf(n), false) : (last = n, true);
         }, 1);
 
 #if __EnableTrace >= 3
-- 
2.43.0


From 0ccc25dde29cb7e9c2c3e1fe549d650f94f1ae1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:53 +0000
Subject: [PATCH 020/113] fix: local variables out of scope do not shift the
 slots of later variables

---
 modules/rt/layout.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/modules/rt/layout.cpp b/modules/rt/layout.cpp
index 82e1a26..672afaa 100644
--- a/modules/rt/layout.cpp
+++ b/modules/rt/layout.cpp
@@ -447,16 +447,19 @@ namespace X_ROOT_NS::modules::rt {
     msize_t locals_layout_t::__find_reset_index(msize_t index,
                                         storage_type_t storage_type)
     {
+        // The variables whose index is not less than a later one's are out of scope.
+        msize_t limit = index;
+
         for (int k = __items.size() - 1; k >= 0; k--)
         {
             __item_t & it = __items[k];
-            if (it.index > index || it.storage_type != storage_type)
+            if (it.index >= limit)
                 continue;
 
-            if (it.index == index)
-                return it.new_index;
+            limit = it.index;
 
-            return it.new_index + 1;
+            if (it.storage_type == storage_type)
+                return it.new_index + 1;
         }
 
         return 0;
-- 
2.43.0


From fdb00ca0814395777124ef396f83b887d84cc777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:53 +0000
Subject: [PATCH 021/113] fix: an expression is constant when executing it
 yields a value

---
 include/modules/core.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/modules/core.h b/include/modules/core.h
index 74f79a7..f0bd2b2 100644
--- a/include/modules/core.h
+++ b/include/modules/core.h
@@ -6732,7 +6732,7 @@ namespace X_ROOT_NS::modules::core {
     // Returns whether it is a constant expression.
     X_INLINE bool is_constant_expression(expression_t * exp)
     {
-        return exp->execute() == cvalue_t::nan;
+        return !is_nan(exp->execute());
     }
 
     // Executes the expression.
-- 
2.43.0


From a2d035e46f673d7f123200c3b05d85e5b71f30a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:36 +0000
Subject: [PATCH 022/113] fix: a variable passed by reference is not a
 compile-time constant

---
 modules/compile/statements.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/modules/compile/statements.cpp b/modules/compile/statements.cpp
index f4fe5f6..8814c9c 100644
--- a/modules/compile/statements.cpp
+++ b/modules/compile/statements.cpp
@@ -398,6 +398,25 @@ namespace X_ROOT_NS::modules::compile {
         return nullptr;
     }
 
+    // Returns whether the expression is passed by reference, as a ref or out argument.
+    template<typename exp_t>
+    static bool __is_ref_argument(expression_t * parent, expression_t * exp)
+    {
+        exp_t * owner = as<exp_t *>(parent);
+        if (owner == nullptr)
+            return false;
+
+        for (size_t index = 0, count = owner->argument_count(); index < count; index++)
+        {
+            argument_t * argument = owner->argument_at(index);
+
+            if (argument->expression == exp)
+                return argument->atype == param_type_t::ref || argument->atype == param_type_t::out;
+        }
+
+        return false;
+    }
+
     // Walk variables, add variable reference count.
     void __walk_variables(expression_t * exp)
     {
@@ -418,6 +437,12 @@ namespace X_ROOT_NS::modules::compile {
             {
                 var->write_count++;
             }
+            else if (__is_ref_argument<function_expression_t>(e->parent, e)
+                  || __is_ref_argument<new_expression_t>(e->parent, e))
+            {
+                var->write_count++;
+                var->read_count++;
+            }
             else
             {
                 var->read_count++;
-- 
2.43.0


From 540890ec9bdc644543df9ff8f8e5ba86a5490071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:36 +0000
Subject: [PATCH 023/113] fix: drop a neutral operand only when the result
 keeps the operand's type

---
 modules/compile/expression.cpp | 45 +++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index f515aee..9b87193 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -671,11 +671,34 @@ namespace X_ROOT_NS::modules::compile {
         return is_optimize(ctx, compile_optimize_code_t::optimize_basic_algorighm);
     }
 
+    // Returns whether an operand could take the place of the result of its operation: both
+    // operands and the result are of the same type.
+    static bool __is_same_type_operation(expression_t * exp1, expression_t * exp2)
+    {
+        xil_type_t type = __xil_type(exp1);
+        if (type != __xil_type(exp2))
+            return false;
+
+        switch (type)
+        {
+            case xil_type_t::int32:
+            case xil_type_t::uint32:
+            case xil_type_t::int64:
+            case xil_type_t::uint64:
+            case xil_type_t::float_:
+            case xil_type_t::double_:
+                return true;
+
+            default:
+                return false;
+        }
+    }
+
     // Compiles add expression.
     static void __compile_add(__cctx_t & ctx, xil_pool_t & pool,
                                 expression_t * exp1, expression_t * exp2)
     {
-        if (__is_optimize_basic_algorighm(ctx))
+        if (__is_optimize_basic_algorighm(ctx) && __is_same_type_operation(exp1, exp2))
         {
             if (__execute_expression(exp1) == cvalue_t(0))  // x + 0
             {
@@ -702,7 +725,7 @@ namespace X_ROOT_NS::modules::compile {
     static void __compile_sub(__cctx_t & ctx, xil_pool_t & pool,
                                 expression_t * exp1, expression_t * exp2)
     {
-        if (__is_optimize_basic_algorighm(ctx))
+        if (__is_optimize_basic_algorighm(ctx) && __is_same_type_operation(exp1, exp2))
         {
             if (__execute_expression(exp1) == cvalue_t(0))  // 0 * x
             {
@@ -730,7 +753,7 @@ namespace X_ROOT_NS::modules::compile {
     static void __compile_mul(__cctx_t & ctx, xil_pool_t & pool,
                                 expression_t * exp1, expression_t * exp2)
     {
-        if (__is_optimize_basic_algorighm(ctx))
+        if (__is_optimize_basic_algorighm(ctx) && __is_same_type_operation(exp1, exp2))
         {
             if (__execute_expression(exp1) == cvalue_t(1)) // 1 * x
             {
@@ -759,7 +782,7 @@ namespace X_ROOT_NS::modules::compile {
     static void __compile_div(__cctx_t & ctx, xil_pool_t & pool,
                                 expression_t * exp1, expression_t * exp2)
     {
-        if (__is_optimize_basic_algorighm(ctx))
+        if (__is_optimize_basic_algorighm(ctx) && __is_same_type_operation(exp1, exp2))
         {
             if (__execute_expression(exp2) == cvalue_t(1))      // x / 1
             {
@@ -804,7 +827,7 @@ namespace X_ROOT_NS::modules::compile {
     static void __compile_bit_or(__cctx_t & ctx, xil_pool_t & pool,
                                 expression_t * exp1, expression_t * exp2)
     {
-        if (__is_optimize_basic_algorighm(ctx))
+        if (__is_optimize_basic_algorighm(ctx) && __is_same_type_operation(exp1, exp2))
         {
             if (__execute_expression(exp1) == cvalue_t(0))     // 0 | x
             {
@@ -843,7 +866,7 @@ namespace X_ROOT_NS::modules::compile {
     static void __compile_left_shift(__cctx_t & ctx, xil_pool_t & pool,
                                 expression_t * exp1, expression_t * exp2)
     {
-        if (__is_optimize_basic_algorighm(ctx))
+        if (__is_optimize_basic_algorighm(ctx) && __is_same_type_operation(exp1, exp2))
         {
             if (__execute_expression(exp2) == cvalue_t(0))     // x << 0
             {
@@ -864,7 +887,7 @@ namespace X_ROOT_NS::modules::compile {
     static void __compile_right_shift(__cctx_t & ctx, xil_pool_t & pool,
                                 expression_t * exp1, expression_t * exp2)
     {
-        if (__is_optimize_basic_algorighm(ctx))
+        if (__is_optimize_basic_algorighm(ctx) && __is_same_type_operation(exp1, exp2))
         {
             if (__execute_expression(exp2) == cvalue_t(0))     // x >> 0
             {
@@ -921,7 +944,7 @@ namespace X_ROOT_NS::modules::compile {
     static void __compile_logic_and(__cctx_t & ctx, xil_pool_t & pool,
                                 expression_t * exp1, expression_t * exp2)
     {
-        if (__is_optimize_basic_algorighm(ctx))
+        if (__is_optimize_basic_algorighm(ctx) && __is_same_type_operation(exp1, exp2))
         {
             if (__execute_expression(exp1) == cvalue_t(true))     // true && x
             {
@@ -943,7 +966,7 @@ namespace X_ROOT_NS::modules::compile {
     static void __compile_logic_or(__cctx_t & ctx, xil_pool_t & pool,
                                 expression_t * exp1, expression_t * exp2)
     {
-        if (__is_optimize_basic_algorighm(ctx))
+        if (__is_optimize_basic_algorighm(ctx) && __is_same_type_operation(exp1, exp2))
         {
             if (__execute_expression(exp1) == cvalue_t(false))     // false || x
             {
@@ -1491,7 +1514,7 @@ namespace X_ROOT_NS::modules::compile {
         __expect_ref_type(exp1);
         __expect_ref_type(exp2);
 
-        if (__is_optimize_basic_algorighm(ctx))
+        if (__is_optimize_basic_algorighm(ctx) && __is_same_type_operation(exp1, exp2))
         {
             if (__execute_expression(exp1) == cvalue_t(nullptr))
             {
@@ -1533,7 +1556,7 @@ namespace X_ROOT_NS::modules::compile {
 
         variable_t * var = __expect_variable(exp1);
 
-        if (__is_optimize_basic_algorighm(ctx))
+        if (__is_optimize_basic_algorighm(ctx) && __is_same_type_operation(exp1, exp2))
         {
             if (__execute_expression(exp2) == cvalue_t(nullptr))
                 return;
-- 
2.43.0


From b914d1d4653c9a7fa961e5f0f268388ece561b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:04 +0000
Subject: [PATCH 024/113] fix: honour the optimize level when compiling source
 files and projects

---
 modules/april/compiler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/april/compiler.cpp b/modules/april/compiler.cpp
index 5e9105c..eb50351 100644
--- a/modules/april/compiler.cpp
+++ b/modules/april/compiler.cpp
@@ -354,7 +354,7 @@ namespace X_ROOT_NS::modules::april {
     // Compiles projects.
     bool april_xcompiler_t::__compile_projects()
     {
-        april_compiler_t compiler;
+        april_compiler_t compiler(_T("solution1"), &__controller);
         __init_compiler(compiler);
 
         __cassemblies_t cas;
@@ -391,7 +391,7 @@ namespace X_ROOT_NS::modules::april {
     // Compiles sources.
     bool april_xcompiler_t::__compile_sources()
     {
-        april_compiler_t compiler;
+        april_compiler_t compiler(_T("solution1"), &__controller);
         __init_compiler(compiler);
 
         project_t * project = compiler.begin_project();
-- 
2.43.0


From 2a1d4771781eb7021a9a80a3c69ce6b487eb2a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:15 +0000
Subject: [PATCH 025/113] fix: the value of assigning a ref parameter is the
 assigned value

---
 modules/compile/xilx.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modules/compile/xilx.cpp b/modules/compile/xilx.cpp
index d564f24..49d00c4 100644
--- a/modules/compile/xilx.cpp
+++ b/modules/compile/xilx.cpp
@@ -190,7 +190,12 @@ namespace X_ROOT_NS::modules::compile {
                 pool.append<x_##name##_argument_xil_t>(xil_type_t::xil_type, index);
 
         #define __Write(xil_type)                                                       \
-            if (pick)                                                                   \
+            if (pick && __is_addr(param_var))                                           \
+            {                                                                           \
+                pool.append<x_pop_argument_addr_xil_t>(xil_type_t::xil_type, index);    \
+                pool.append<x_push_argument_content_xil_t>(xil_type_t::xil_type, index); \
+            }                                                                           \
+            else if (pick)                                                              \
                 __Append(pick, xil_type)                                                \
             else                                                                        \
                 __Append(pop, xil_type)
-- 
2.43.0


From 90098dafad2aa2b248825d1e23ede1ad966737a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:15 +0000
Subject: [PATCH 026/113] fix: the value of assigning an array element is the
 assigned value

---
 modules/compile/__xil_struct.h | 12 ++++++++++++
 modules/compile/expression.cpp |  9 ++++++---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/modules/compile/__xil_struct.h b/modules/compile/__xil_struct.h
index ddc2afe..213d99e 100644
--- a/modules/compile/__xil_struct.h
+++ b/modules/compile/__xil_struct.h
@@ -688,6 +688,18 @@ namespace X_ROOT_NS::modules::compile {
         { }
     };
 
+    // Pick array element xil.
+    struct x_pick_array_element_xil_t : xil_extra_t<pick_xil_t>
+    {
+        typedef xil_extra_t<pick_xil_t> __super_t;
+
+        x_pick_array_element_xil_t(xil_type_t dtype, ref_t array_type_ref)
+            : __super_t(xil_storage_type_t::array_element, dtype)
+        {
+            this->set_ref(array_type_ref);
+        }
+    };
+
     // Pick field xil.
     struct x_pick_field_xil_t : xil_extra_t<pick_xil_t>
     {
diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 9b87193..4ddb0da 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -1295,9 +1295,12 @@ namespace X_ROOT_NS::modules::compile {
 
                 ref_t type_ref = __ref_of(ctx, array_type);
 
-                pool.append<x_pop_array_element_xil_t>(
-                    __to_xil_type(element_type), type_ref
-                );
+                xil_type_t element_xtype = __to_xil_type(element_type);
+
+                if (pick)
+                    pool.append<x_pick_array_element_xil_t>(element_xtype, type_ref);
+                else
+                    pool.append<x_pop_array_element_xil_t>(element_xtype, type_ref);
 
             }   break;
 
-- 
2.43.0


From 92f663b0a399332b2debc7971a46cde1ee0e5ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:34 +0000
Subject: [PATCH 027/113] fix: constant comparisons of bool and char values

---
 modules/core/expression_executor.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/modules/core/expression_executor.cpp b/modules/core/expression_executor.cpp
index c784173..e6a5714 100644
--- a/modules/core/expression_executor.cpp
+++ b/modules/core/expression_executor.cpp
@@ -408,6 +408,10 @@ namespace X_ROOT_NS::modules::core {
                 case operator_t::sub:
                 case operator_t::equal:
                 case operator_t::not_equal:
+                case operator_t::greater:
+                case operator_t::greater_equal:
+                case operator_t::less:
+                case operator_t::less_equal:
 
                     switch (((int)v1.type << 8) | (int)v2.type)
                     {
@@ -417,10 +421,6 @@ namespace X_ROOT_NS::modules::core {
                     // continue case operator_t::add
 
                 case operator_t::add:
-                case operator_t::greater:
-                case operator_t::greater_equal:
-                case operator_t::less:
-                case operator_t::less_equal:
 
                     switch (((int)v1.type << 8) | (int)v2.type)
                     {
@@ -610,22 +610,22 @@ namespace X_ROOT_NS::modules::core {
                 return __binary_execute<operator_t::bit_xor_assign, d>(cv1, cv2);
 
             case operator_t::greater:
-                return __binary_execute<operator_t::greater, df>(cv1, cv2);
+                return __binary_execute<operator_t::greater, dfc>(cv1, cv2);
 
             case operator_t::greater_equal:
-                return __binary_execute<operator_t::greater_equal, df>(cv1, cv2);
+                return __binary_execute<operator_t::greater_equal, dfc>(cv1, cv2);
 
             case operator_t::less:
-                return __binary_execute<operator_t::less, df>(cv1, cv2);
+                return __binary_execute<operator_t::less, dfc>(cv1, cv2);
 
             case operator_t::less_equal:
-                return __binary_execute<operator_t::less_equal, df>(cv1, cv2);
+                return __binary_execute<operator_t::less_equal, dfc>(cv1, cv2);
 
             case operator_t::equal:
                 return __binary_execute<operator_t::equal>(cv1, cv2);
 
             case operator_t::not_equal:
-                return __binary_execute<operator_t::not_equal, df>(cv1, cv2);
+                return __binary_execute<operator_t::not_equal>(cv1, cv2);
 
             case operator_t::logic_and:
                 return __binary_execute<operator_t::logic_and, g_t::bool_>(cv1, cv2);
-- 
2.43.0


From 6d06bdd0b05f9dd541ac319d0102a0a738c8eb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:21 +0000
Subject: [PATCH 028/113] fix: a constant division without a value is left to
 the running program

---
 modules/core/expression_executor.cpp | 34 ++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/modules/core/expression_executor.cpp b/modules/core/expression_executor.cpp
index e6a5714..c65788d 100644
--- a/modules/core/expression_executor.cpp
+++ b/modules/core/expression_executor.cpp
@@ -536,6 +536,37 @@ namespace X_ROOT_NS::modules::core {
         throw _ED(__e_t::invalid_binary_operator, _op, cv1.number.type, cv2.number.type);
     }
 
+    // Returns whether an integer division or modulo has no value: the divisor is zero, or the
+    // quotient overflows.
+    static bool __is_undefined_division(operator_t op, const tvalue_t & v1, const tvalue_t & v2)
+    {
+        switch (op)
+        {
+            case operator_t::div:
+            case operator_t::mod:
+            case operator_t::div_assign:
+            case operator_t::mod_assign:
+                break;
+
+            default:
+                return false;
+        }
+
+        #define __IsFloat(_v) ((_v).type == value_type_t::float_ || (_v).type == value_type_t::double_)
+
+        if (__IsFloat(v1) || __IsFloat(v2))
+            return false;
+
+        #undef __IsFloat
+
+        int64_t divisor = (int64_t)v2, dividend = (int64_t)v1;
+
+        return divisor == 0 || (divisor == -1 && (
+            dividend == std::numeric_limits<int32_t>::min() ||
+            dividend == std::numeric_limits<int64_t>::min()
+        ));
+    }
+
     // Executes a binary expression.
     cvalue_t binary_expression_t::execute()
     {
@@ -554,6 +585,9 @@ namespace X_ROOT_NS::modules::core {
         if (!is_number(cv1) || !is_number(cv2))
             return cvalue_t::nan;
 
+        if (__is_undefined_division(this->op(), cv1.number, cv2.number))
+            return cvalue_t::nan;
+
         typedef __operate_region_t g_t;
         const __operate_region_t d   = g_t::default_;
         const __operate_region_t df  = bit_xor(g_t::default_, g_t::float_);
-- 
2.43.0


From 3935d102a7df93c1c7f6f40cfaec5bb3a8b1afd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:34 +0000
Subject: [PATCH 029/113] fix: an assignment of a string constant is not a
 constant expression

---
 modules/core/expression_executor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/core/expression_executor.cpp b/modules/core/expression_executor.cpp
index c65788d..bc18b01 100644
--- a/modules/core/expression_executor.cpp
+++ b/modules/core/expression_executor.cpp
@@ -578,6 +578,10 @@ namespace X_ROOT_NS::modules::core {
         cvalue_t cv1 = e1->execute(), cv2 = e2->execute();
         if (is_string(cv1) || is_string(cv2))
         {
+            // Only the concatenation of two constants is a constant.
+            if (this->op() != operator_t::add || is_nan(cv1) || is_nan(cv2))
+                return cvalue_t::nan;
+
             string_t s = _F(_T("%1%%2%"), cv1, cv2);
             return cvalue_t(__SPool.to_sid(s).c_str());
         }
-- 
2.43.0


From 5d6c6e5a94eb24ee81db7fc3559e6c453e79f6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:52 +0000
Subject: [PATCH 030/113] fix: a constructor calls the constructor of its base
 class

---
 include/modules/core.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/modules/core.h b/include/modules/core.h
index f0bd2b2..02c2aaf 100644
--- a/include/modules/core.h
+++ b/include/modules/core.h
@@ -7473,6 +7473,7 @@ namespace X_ROOT_NS::modules::core {
             : __super_t(arguments)
         {
             _A(method != nullptr);
+            set_method((method_base_t *)method);
         }
 
         expression_t    * namex         = nullptr;      // Name
-- 
2.43.0


From 7feebdf2a9f6660fa7fab19e7e9406f67d33a682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:49 +0000
Subject: [PATCH 031/113] fix: the type of a member expression is the type of
 the member

---
 modules/core/expression_executor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/core/expression_executor.cpp b/modules/core/expression_executor.cpp
index bc18b01..c509285 100644
--- a/modules/core/expression_executor.cpp
+++ b/modules/core/expression_executor.cpp
@@ -276,6 +276,9 @@ namespace X_ROOT_NS::modules::core {
         if (e1 == nullptr || e2 == nullptr)
             return vtype_t::__unknown__;
 
+        if (op == operator_t::member_point)     // whatever owns the member, e.g. this, base
+            return e2->get_vtype();
+
         vtype_t vtype1 = e1->get_vtype(), vtype2 = e2->get_vtype();
 
         if (vtype1 == vtype_t::__unknown__ || vtype2 == vtype_t::__unknown__)
-- 
2.43.0


From acb18aa0c283e0e32cb94791dce3c44b8eb1a7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:59 +0000
Subject: [PATCH 032/113] fix: methods with new virtual slots precede the
 overriding methods of a type

---
 modules/core/assembly_writer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/core/assembly_writer.cpp b/modules/core/assembly_writer.cpp
index 82cd460..284cd50 100644
--- a/modules/core/assembly_writer.cpp
+++ b/modules/core/assembly_writer.cpp
@@ -148,8 +148,10 @@ namespace X_ROOT_NS::modules::core {
             if (type->host_type != nullptr)
                 __W->__commit_type(type->host_type);
 
+            // Methods with a virtual slot of their own should be in front of the overriding ones.
             al::sort(type->methods, [](method_t * m1, method_t * m2) {
-                return (int)call_type_of_method(m1) < (int)call_type_of_method(m2);
+                int t1 = (int)call_type_of_method(m1), t2 = (int)call_type_of_method(m2);
+                return t1 != t2? t1 < t2 : (int)m1->is_override() < (int)m2->is_override();
             });
 
             __sort_members(type->fields);
-- 
2.43.0


From 706972dd03cabb2732e6de22623cd006a6b81997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:35 +0000
Subject: [PATCH 033/113] fix: interface methods run the most derived override

---
 modules/rt/rt.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/modules/rt/rt.cpp b/modules/rt/rt.cpp
index bdcb780..5834be2 100644
--- a/modules/rt/rt.cpp
+++ b/modules/rt/rt.cpp
@@ -1027,16 +1027,22 @@ namespace X_ROOT_NS::modules::rt {
             }
 
             rt_method_base_t * method1 = vfs[index].method;
-            if (method1->is_virtual() && method1->get_owner_type(env) == nullptr)
+            if ((method1->is_virtual() || method1->is_override())
+                                            && method1->get_owner_type(env) == nullptr)
             {
-                rt_type_t * type1 = raw_type;
-                while (type1 != type)
+                // Walks derived types from the base to the raw type.
+                al::svector_t<rt_type_t *, 16> types;
+                for (rt_type_t * type1 = raw_type; type1 != type;
+                                                    type1 = type1->get_base_type(env))
                 {
-                    if (!__build_interface_override(analyzer, type1, vfs, index,
+                    types.push_back(type1);
+                }
+
+                for (size_t k = types.size(); k > 0; --k)
+                {
+                    if (__build_interface_override(analyzer, types[k - 1], vfs, index,
                                                             interface_type, prototype))
                         break;
-
-                    type1 = type1->get_base_type(env);
                 }
             }
 
-- 
2.43.0


From 1561ff9320abc3b447611e34c1f322dadf4912e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:41 +0000
Subject: [PATCH 034/113] fix: an override replaces the nearest virtual slot of
 its name

---
 modules/rt/rt.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/rt/rt.cpp b/modules/rt/rt.cpp
index 5834be2..e481f7d 100644
--- a/modules/rt/rt.cpp
+++ b/modules/rt/rt.cpp
@@ -862,8 +862,9 @@ namespace X_ROOT_NS::modules::rt {
                 analyzer.get_prototype(method_ref, &prototype);
 
                 bool found = false;
-                for (rt_vtable_function_t & func : vfuncs)
+                for (size_t k = vfuncs.size(); k > 0; --k)     // The nearest slot first.
                 {
+                    rt_vtable_function_t & func = vfuncs[k - 1];
                     rt_assembly_t * rt_assembly0 = env.assemblies.at(func.assembly_idx);
                     rt_method_t * rt_method0 = rt_assembly0->get_method(ref_t(func.method_idx));
                     assembly_analyzer_t analyzer0(env, rt_assembly0);
-- 
2.43.0


From 7d16faa370cada6c5f81cc6b03b560418369ba1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:28 +0000
Subject: [PATCH 035/113] fix: assigning an indexer passes the value to its set
 method

---
 modules/compile/expression.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 4ddb0da..5f1f5bd 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -1317,8 +1317,12 @@ namespace X_ROOT_NS::modules::compile {
 
                 __validate_set_method(ctx, method);
 
+                int value_index = index_var->arguments == nullptr? 0
+                                                : (int)index_var->arguments->size();
+                __compile_argument(ctx, pool, exp2, method, value_index);
+
                 ref_t method_ref = __search_method_ref(ctx, method);
-                pool.append<x_method_call_xil_t>(xil_call_type_t::instance, method_ref);
+                pool.append<x_method_call_xil_t>(__call_type_of_method(method), method_ref);
 
             }   break;
 
-- 
2.43.0


From b611ce2bbc82991ea4079acaecff7d7a279eda7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:02 +0000
Subject: [PATCH 036/113] fix: a sign after ')', ']' or a comment is an
 operator when an operand precedes it

---
 include/modules/lang_cs.h           |  9 ++++++
 modules/lang_cs/cs_token_reader.cpp | 50 ++++++++++++++++++++++++++---
 2 files changed, 54 insertions(+), 5 deletions(-)

diff --git a/include/modules/lang_cs.h b/include/modules/lang_cs.h
index f91d54e..25a7cbd 100644
--- a/include/modules/lang_cs.h
+++ b/include/modules/lang_cs.h
@@ -91,6 +91,15 @@ namespace X_ROOT_NS::modules::lang_cs {
 
     private:
         token_t * __next_token = nullptr;
+
+        // The last two tokens, not including comments.
+        token_value_t __last_value1 = unknown_token_value, __last_value2 = unknown_token_value;
+
+        // Reads the next token.
+        token_t * __read_next();
+
+        // Returns whether the last token ends an operand, a sign following it is an operator.
+        bool __is_after_operand();
     };
 
     typedef ttoken_reader_t<cs_token_enumerator_t> cs_token_reader_t;
diff --git a/modules/lang_cs/cs_token_reader.cpp b/modules/lang_cs/cs_token_reader.cpp
index 56907e3..9c495c5 100644
--- a/modules/lang_cs/cs_token_reader.cpp
+++ b/modules/lang_cs/cs_token_reader.cpp
@@ -52,6 +52,49 @@ namespace X_ROOT_NS::modules::lang_cs {
 
     // Returns the next token.
     token_t * cs_token_enumerator_t::next()
+    {
+        token_t * token = __read_next();
+
+        if (token != nullptr && (w_t)token->value != w_t::comment)
+        {
+            __last_value2 = __last_value1;
+            __last_value1 = token->value;
+        }
+
+        return token;
+    }
+
+    // Returns whether the last token ends an operand, a sign following it is an operator.
+    bool cs_token_enumerator_t::__is_after_operand()
+    {
+        switch ((w_t)__last_value1)
+        {
+            case w_t::name:
+            case w_t::cvalue:
+            case w_t::right_square:
+                return true;
+
+            case w_t::right_bracket:    // Not of a type cast, e.g. (int)-1.
+                switch ((w_t)__last_value2)
+                {
+                    case w_t::k_sbyte:  case w_t::k_byte:   case w_t::k_short:
+                    case w_t::k_ushort: case w_t::k_int:    case w_t::k_uint:
+                    case w_t::k_long:   case w_t::k_ulong:  case w_t::k_float:
+                    case w_t::k_double: case w_t::k_char:   case w_t::k_bool:
+                    case w_t::k_object: case w_t::k_string: case w_t::k_decimal:
+                        return false;
+
+                    default:
+                        return true;
+                }
+
+            default:
+                return false;
+        }
+    }
+
+    // Reads the next token.
+    token_t * cs_token_enumerator_t::__read_next()
     {
         token_t * next_token;
 
@@ -64,7 +107,6 @@ namespace X_ROOT_NS::modules::lang_cs {
         char_t c;
         token_data_t * d;
         const __cptr_t p0 = __p;
-        cs_token_value_t value;
 
         switch ((c = *__p++))
         {
@@ -338,8 +380,7 @@ namespace X_ROOT_NS::modules::lang_cs {
                         return __Nw(add_assign);
 
                     default:
-                        if (is_numeric_prefix(*__p)
-                            && (value = (w_t)__last_value()) != w_t::name && value != w_t::cvalue)
+                        if (is_numeric_prefix(*__p) && !__is_after_operand())
                         {
                             __p--;
                             return __Nw_(cvalue, __read_number());
@@ -361,8 +402,7 @@ namespace X_ROOT_NS::modules::lang_cs {
                         return __Nw(sub_assign);
 
                     default:
-                        if (is_numeric_prefix(*__p)
-                            && (value = (w_t)__last_value()) != w_t::name && value != w_t::cvalue)
+                        if (is_numeric_prefix(*__p) && !__is_after_operand())
                         {
                             __p--;
                             return __Nw_(cvalue, __read_number());
-- 
2.43.0


From 03113b2276b66cf5ec534e17fb8e4dc2e3ce5c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:01 +0000
Subject: [PATCH 037/113] fix: reading a struct array element copies the
 element's size

---
 modules/compile/expression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 5f1f5bd..88e74aa 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -3078,7 +3078,7 @@ namespace X_ROOT_NS::modules::compile {
             );
 
             if (__need_object_copy(this))
-                __append_object_copy_xil(ctx, pool, array_type, xil_copy_kind_t::reverse);
+                __append_object_copy_xil(ctx, pool, element_type, xil_copy_kind_t::reverse);
         }
         else
         {
-- 
2.43.0


From 5791a7a3de5bde06133c66d2e7e2212141254b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:10 +0000
Subject: [PATCH 038/113] fix: arrays are allocated with the size their
 elements are addressed by

---
 include/modules/rt.h | 3 +++
 modules/mm/mm.cpp    | 2 +-
 modules/rt/rt.cpp    | 3 +++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/modules/rt.h b/include/modules/rt.h
index c219c6d..37bf1a8 100644
--- a/include/modules/rt.h
+++ b/include/modules/rt.h
@@ -1516,6 +1516,9 @@ namespace X_ROOT_NS::modules::rt {
         // Dimension
         dimension_t dimension = 0;
 
+        // Size of an element, known once pre_new() has been called.
+        msize_t element_size = 0;
+
         // Gets assembly.
         virtual rt_assembly_t * get_assembly() override final;
 
diff --git a/modules/mm/mm.cpp b/modules/mm/mm.cpp
index 2899bfc..14a77a5 100644
--- a/modules/mm/mm.cpp
+++ b/modules/mm/mm.cpp
@@ -140,7 +140,7 @@ namespace X_ROOT_NS::modules::mm {
         dimension_t dimension = type->dimension;
 
         array_length_t length = *lengths;
-        size_t element_size = unit_align(1, type->element_type->get_size());
+        size_t element_size = type->element_size;
         size_t size = _alignf(length * element_size, sizeof(rt_stack_unit_t));
 
         void * obj;
diff --git a/modules/rt/rt.cpp b/modules/rt/rt.cpp
index e481f7d..0d043b6 100644
--- a/modules/rt/rt.cpp
+++ b/modules/rt/rt.cpp
@@ -1799,6 +1799,9 @@ namespace X_ROOT_NS::modules::rt {
     void rt_array_type_t::pre_new(analyzer_env_t & env)
     {
         this->pre_static_call(env);
+
+        if (element_size == 0)
+            element_size = element_type->get_variable_size(env, nullptr);
     }
 
     // Pre calling static method.
-- 
2.43.0


From 8f6c21df95ad6ab53e724ccf64fc60e43d7309d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:00 +0000
Subject: [PATCH 039/113] fix: a struct argument is copied whatever the call's
 result is used for

---
 modules/compile/expression.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 88e74aa..a6b825a 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -2428,6 +2428,16 @@ namespace X_ROOT_NS::modules::compile {
                     break;
                 }
 
+                // An argument is a value of its own, whatever the result is used for.
+                case expression_family_t::function:
+                case expression_family_t::new_:
+                    return true;
+
+                case expression_family_t::index:
+                    if (((index_expression_t *)parent_exp)->namex() != exp)
+                        return true;
+                    break;
+
                 default:
                     break;
             }
-- 
2.43.0


From d5a299b3e3e25b73a399339080af4c4caa0bc36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:30 +0000
Subject: [PATCH 040/113] fix: 'new S()' and 'default(S)' give a zeroed struct

---
 modules/compile/expression.cpp | 34 +++++++++++++++++++++-------------
 modules/core/core.cpp          |  3 +++
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index a6b825a..e15ba31 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -3215,29 +3215,31 @@ namespace X_ROOT_NS::modules::compile {
         }
     }
 
+    // Copies a zeroed struct object to the address on the top of the stack.
+    static void __append_default_struct_xil(__cctx_t & ctx, xil_pool_t & pool, type_t * type)
+    {
+        pool.append<x_new_xil_t>(__ref_of(ctx, type));
+        __append_object_copy_xil(ctx, pool, type, xil_copy_kind_t::reverse);
+    }
+
     // Creates instance of struct type.
     void __sys_t<new_expression_t>::__compile_new_struct_object(__cctx_t & ctx,
                                             xil_pool_t & pool, type_t * type)
     {
         bool need_call_constructor = __need_call_constructor(this);
 
-        if (need_call_constructor)
+        if (this->parent == nullptr || __is_left_member(this))
         {
-            if (__is_left_member(this))
-            {
-                local_variable_t * variable = ctx.define_temp_local(type);
-                __compile_local_variable(ctx, pool, variable);
+            local_variable_t * variable = ctx.define_temp_local(type);
+            __compile_local_variable(ctx, pool, variable);
 
-                if (is_effective(ctx, this->parent))
-                    pool.append<x_push_duplicate_xil_t>();
-            }
-        }
-        else
-        {
-            // Pop the address of struct object.
-            pool.append<x_pop_empty_xil_t>(xil_type_t::ptr);
+            if (this->parent != nullptr && is_effective(ctx, this->parent))
+                pool.append<x_push_duplicate_xil_t>();
         }
 
+        if (!need_call_constructor)
+            __append_default_struct_xil(ctx, pool, type);
+
         if (this->arguments() != nullptr)
         {
             if (this->constructor == nullptr)
@@ -3413,6 +3415,12 @@ namespace X_ROOT_NS::modules::compile {
 
             case gtype_t::general: {
 
+                if (__is_custom_struct_like(type))
+                {
+                    __append_default_struct_xil(ctx, pool, type);
+                    break;
+                }
+
                 vtype_t vtype = type->this_vtype();
                 cvalue_t value = default_value_of(vtype);
 
diff --git a/modules/core/core.cpp b/modules/core/core.cpp
index 0bdea18..7f4b3a9 100644
--- a/modules/core/core.cpp
+++ b/modules/core/core.cpp
@@ -7962,6 +7962,9 @@ namespace X_ROOT_NS::modules::core {
         if (type->this_gtype() != gtype_t::general)
             return cvalue_t(nullptr);
 
+        if (is_custom_struct(type))     // Not a constant value.
+            return cvalue_t::nan;
+
         return default_value_of(((general_type_t *)type)->vtype);
     }
 
-- 
2.43.0


From 05612db4456006ef528e2ac703926e1f62c95560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:57 +0000
Subject: [PATCH 041/113] fix: array indexes and lengths of narrow integer
 types are widened

---
 modules/compile/expression.cpp | 81 +++++++++++++++++-----------------
 1 file changed, 41 insertions(+), 40 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index e15ba31..f940195 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -30,6 +30,10 @@ namespace X_ROOT_NS::modules::compile {
     static void __compile_arguments(__cctx_t & ctx, xil_pool_t & pool, arguments_t * arguments,
                                                         param_types_t * param_types = nullptr);
 
+    // Compiles array indexes or lengths.
+    static void __compile_array_length(__cctx_t & ctx, xil_pool_t & pool, expression_t * exp);
+    static void __compile_array_indexes(__cctx_t & ctx, xil_pool_t & pool, arguments_t * arguments);
+
     // Returns whether it's a reference type.
     static bool __is_ref_type(type_t * type)
     {
@@ -360,38 +364,6 @@ namespace X_ROOT_NS::modules::compile {
         expression->compile(ctx, pool, env);
     }
 
-    // param_types_t with specified param types.
-    class __static_param_types_t : public param_types_t
-    {
-    public:
-
-        __static_param_types_t(type_t * type, size_t param_count)
-            : __type(type), __param_count(param_count)
-        {
-            _A(type != nullptr);
-        }
-
-        __static_param_types_t(array_index_variable_t * arr_var)
-            : __static_param_types_t(arr_var->get_type(), arr_var->dimension())
-        { }
-
-        // Returns type count
-        virtual size_t param_count() const override
-        {
-            return __param_count;
-        }
-
-        // Returns type at specified index.
-        virtual typex_t param_type_at(size_t index) const override
-        {
-            return __type;
-        }
-
-    private:
-        type_t * __type;
-        size_t   __param_count;
-    };
-
     // Push address of variable.
     void __push_variable_address(expression_compile_context_t & ctx, xil_pool_t & pool,
         variable_t * variable, expression_t * this_)
@@ -433,8 +405,7 @@ namespace X_ROOT_NS::modules::compile {
                 __FailedWhenNull(var->arguments, "index '%1%' arguments missing", var);
                 __FailedWhenNull(var->body, "index '%1%' body missing", var);
 
-                __static_param_types_t param_types(var);
-                __compile_arguments(ctx, pool, var->arguments, &param_types);
+                __compile_array_indexes(ctx, pool, var->arguments);
                 var->body->compile(ctx, pool);
 
                 pool.append<x_push_array_element_addr_xil_t>(
@@ -1160,6 +1131,39 @@ namespace X_ROOT_NS::modules::compile {
         }
     }
 
+    // Compiles an array index or length, whose value is a whole int when it is popped.
+    static void __compile_array_length(__cctx_t & ctx, xil_pool_t & pool, expression_t * exp)
+    {
+        _A(exp != nullptr);
+
+        switch (exp->get_vtype())
+        {
+            case vtype_t::int8_:
+            case vtype_t::uint8_:
+            case vtype_t::int16_:
+            case vtype_t::uint16_:
+                if (!__try_compile_constant_expression(ctx, pool, exp, xil_type_t::int32))
+                    exp->compile(ctx, pool, xil_type_t::int32);
+                break;
+
+            default:
+                exp->compile(ctx, pool);
+                break;
+        }
+    }
+
+    // Compiles array indexes.
+    static void __compile_array_indexes(__cctx_t & ctx, xil_pool_t & pool, arguments_t * arguments)
+    {
+        if (arguments == nullptr)
+            return;
+
+        for (argument_t * argument : *arguments)
+        {
+            __compile_array_length(ctx, pool, argument->expression);
+        }
+    }
+
     enum class __assign_to_type_t { default_, pop, pick };
 
     // Returns array element type.
@@ -1286,8 +1290,7 @@ namespace X_ROOT_NS::modules::compile {
                 __FailedWhenNull(body, "index '%1%' body missing", var);
                 __FailedWhenNull(args, "index '%1%' arguments missing", var);
 
-                __static_param_types_t param_types(arr_var);
-                __compile_arguments(ctx, pool, args);
+                __compile_array_indexes(ctx, pool, args);
                 body->compile(ctx, pool);
 
                 type_t * element_type = arr_var->get_type();
@@ -3071,7 +3074,7 @@ namespace X_ROOT_NS::modules::compile {
                 array_index_variable_t * variable, expression_t * namex,
                 const __environment_t & env)
     {
-        __compile_arguments(ctx, pool, this->arguments());
+        __compile_array_indexes(ctx, pool, this->arguments());
         namex->compile(ctx, pool);
 
         type_t * element_type = __array_element_type_of(ctx, this);
@@ -3332,9 +3335,7 @@ namespace X_ROOT_NS::modules::compile {
                 if (expression == nullptr)
                     __Failed("unknown array length: '%1%'", this);
 
-                // TODO: must be int type
-
-                expression->compile(ctx, pool);
+                __compile_array_length(ctx, pool, expression);
             }
         }
 
-- 
2.43.0


From 46734e8dd542918f9d15b1874c159b11e1aa1112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:56 +0000
Subject: [PATCH 042/113] fix: every subscript of a multi-dimensional array is
 checked against its own length

---
 modules/exec/commands.cpp | 41 ++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index 45fce7c..b948e44 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -1174,35 +1174,40 @@ namespace X_ROOT_NS::modules::exec {
             typedef array_length_t      __l_t;
             typedef executor_stack_t    __stack_t;
 
+            // Adds the next subscript, the index becomes -1 when one is out of range.
             template<__d_t _d> struct __mul_t
             {
-                X_ALWAYS_INLINE __l_t operator()(__stack_t & stack, __l_t * ls)
+                X_ALWAYS_INLINE __l_t operator()(__stack_t & stack, __l_t * ls, __l_t index)
                 {
-                    return stack.pop<__l_t>() * (*ls) + __mul_t<_d - 1>()(stack, ls - 1);
+                    int64_t value = (int64_t)stack.pop<__l_t>() * (*ls) + index;
+
+                    if (index < 0 || index >= *ls || value < 0 || value != (__l_t)value)
+                        value = -1;
+
+                    return __mul_t<_d - 1>()(stack, ls - 1, (__l_t)value);
                 }
             };
 
             template<> struct __mul_t<0>
             {
-                X_ALWAYS_INLINE __l_t operator()(__stack_t & stack, __l_t * p)
+                X_ALWAYS_INLINE __l_t operator()(__stack_t & stack, __l_t * p, __l_t index)
                 {
-                    return 0;
+                    return index;
                 }
             };
         }
 
         template<dimension_t _dimension>
         X_ALWAYS_INLINE array_length_t __mul_array_index(executor_stack_t & stack,
-                                                         array_length_t * lengths)
+                                        array_length_t * lengths, array_length_t index)
         {
-            return __mul_array_index_ns::__mul_t<_dimension>()(stack, lengths);
+            return __mul_array_index_ns::__mul_t<_dimension>()(stack, lengths, index);
         }
     }
 
     __AlwaysInline static array_length_t __array_index(executor_stack_t & stack,
-                                dimension_t dimension, array_length_t * lengths)
+                    dimension_t dimension, array_length_t * lengths, array_length_t index)
     {
-        array_length_t index = 0;
         const dimension_t partical_dimension = 8;
 
         while (true)
@@ -1213,7 +1218,7 @@ namespace X_ROOT_NS::modules::exec {
 
                 #define __Case(_d)                                                      \
                     case _d:                                                            \
-                        return index + __mul_array_index<_d>(stack, lengths);
+                        return __mul_array_index<_d>(stack, lengths, index);
 
                 __Case(2)
                 __Case(3)
@@ -1226,7 +1231,7 @@ namespace X_ROOT_NS::modules::exec {
                 #undef __Case
 
                 default:
-                    index += __mul_array_index<partical_dimension>(stack, lengths);
+                    index = __mul_array_index<partical_dimension>(stack, lengths, index);
                     lengths -= partical_dimension;
                     dimension -= partical_dimension;
                     continue;
@@ -1271,7 +1276,7 @@ namespace X_ROOT_NS::modules::exec {
             if constexpr (_dimension >= 2)
             {
                 array_length_t * lengths = mm::get_array_lengths(array_ref);
-                index += __mul_array_index<_dimension - 1>(ctx.stack, lengths);
+                index = __mul_array_index<_dimension - 1>(ctx.stack, lengths, index);
             }
 
             if (__array_index_out_of_range(array_ref, index))
@@ -1312,7 +1317,7 @@ namespace X_ROOT_NS::modules::exec {
             array_length_t index = ctx.stack.pop<array_length_t>();
             array_length_t * lengths = mm::get_array_lengths(array_ref);
 
-            index += __array_index(ctx.stack, __This->__dimension - 1, lengths);
+            index = __array_index(ctx.stack, __This->__dimension - 1, lengths, index);
 
             if (__array_index_out_of_range(array_ref, index))
                 __RaiseOutOfRangeException(ctx);
@@ -1389,7 +1394,7 @@ namespace X_ROOT_NS::modules::exec {
             if constexpr (_dimension >= 2)
             {
                 array_length_t * lengths = mm::get_array_lengths(array_ref);
-                index += __mul_array_index<_dimension - 1>(ctx.stack, lengths);
+                index = __mul_array_index<_dimension - 1>(ctx.stack, lengths, index);
             }
 
             if (__array_index_out_of_range(array_ref, index))
@@ -1429,7 +1434,7 @@ namespace X_ROOT_NS::modules::exec {
             array_length_t index = ctx.stack.pop<array_length_t>();
             array_length_t * lengths = mm::get_array_lengths(array_ref);
 
-            index += __array_index(ctx.stack, __This->__dimension - 1, lengths);
+            index = __array_index(ctx.stack, __This->__dimension - 1, lengths, index);
 
             if (__array_index_out_of_range(array_ref, index))
                 __RaiseOutOfRangeException(ctx);
@@ -2995,7 +3000,7 @@ namespace X_ROOT_NS::modules::exec {
             if (_dimension >= 2)
             {
                 array_length_t * lengths = mm::get_array_lengths(array_ref);
-                index += __mul_array_index<_dimension - 1>(ctx.stack, lengths);
+                index = __mul_array_index<_dimension - 1>(ctx.stack, lengths, index);
             }
 
             if (__array_index_out_of_range(array_ref, index))
@@ -3035,7 +3040,7 @@ namespace X_ROOT_NS::modules::exec {
             array_length_t index = ctx.stack.pop<array_length_t>();
             array_length_t * lengths = mm::get_array_lengths(array_ref);
 
-            index += __array_index(ctx.stack, __This->__dimension - 1, lengths);
+            index = __array_index(ctx.stack, __This->__dimension - 1, lengths, index);
 
             if (__array_index_out_of_range(array_ref, index))
                 __RaiseOutOfRangeException(ctx);
@@ -3579,7 +3584,7 @@ namespace X_ROOT_NS::modules::exec {
             if (_dimension >= 2)
             {
                 array_length_t * lengths = mm::get_array_lengths(array_ref);
-                index += __mul_array_index<_dimension - 1>(ctx.stack, lengths);
+                index = __mul_array_index<_dimension - 1>(ctx.stack, lengths, index);
             }
 
             if (__array_index_out_of_range(array_ref, index))
@@ -3619,7 +3624,7 @@ namespace X_ROOT_NS::modules::exec {
             array_length_t index = ctx.stack.pop<array_length_t>();
             array_length_t * lengths = mm::get_array_lengths(array_ref);
 
-            index += __array_index(ctx.stack, __This->__dimension - 1, lengths);
+            index = __array_index(ctx.stack, __This->__dimension - 1, lengths, index);
 
             if (__array_index_out_of_range(array_ref, index))
                 __RaiseOutOfRangeException(ctx);
-- 
2.43.0


From 6661fb41e44be9e89d09664e3b53a1febd6ed127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:56 +0000
Subject: [PATCH 043/113] fix: arrays of ten dimensions can be indexed

---
 modules/exec/commands.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index b948e44..7a32561 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -1220,6 +1220,7 @@ namespace X_ROOT_NS::modules::exec {
                     case _d:                                                            \
                         return __mul_array_index<_d>(stack, lengths, index);
 
+                __Case(1)
                 __Case(2)
                 __Case(3)
                 __Case(4)
-- 
2.43.0


From 3844f43b02fa78276b3ba97f57cb9a3b78e7f883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:03 +0000
Subject: [PATCH 044/113] fix: creating an array of a negative length raises
 OutOfRangeException

---
 modules/exec/commands.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index 7a32561..251b4dc 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -6498,6 +6498,12 @@ namespace X_ROOT_NS::modules::exec {
                 *len = ctx.stack.pop<int32_t>();
             }
 
+            for (int * len = lengths; len < lengths + dimension; len++)
+            {
+                if (*len < 0)
+                    __RaiseOutOfRangeException(ctx);
+            }
+
             ctx.stack.push(
                 ctx.heap->new_array(__This->__type, lengths)
             );
-- 
2.43.0


From b17076aae0ff130d86f3e94ee54c96e4a22de439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:21 +0000
Subject: [PATCH 045/113] fix: array initializers store whole references

---
 modules/exec/commands.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index 251b4dc..cbc2554 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -7025,7 +7025,16 @@ namespace X_ROOT_NS::modules::exec {
             return 0;
         }
 
-        return size_of(xil.dtype());
+        switch (xil.dtype())
+        {
+            case xil_type_t::object:
+            case xil_type_t::string:
+            case xil_type_t::ptr:
+                return sizeof(rt_ref_t);
+
+            default:
+                return size_of(xil.dtype());
+        }
     }
 
     static command_t * __new_init_command(__context_t & ctx, const init_xil_t & xil)
-- 
2.43.0


From 87e78c8780974406faaa7a24d10fafd2df46fc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:45 +0000
Subject: [PATCH 046/113] fix: array initializer values are converted to the
 element type

---
 modules/compile/expression.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index f940195..551a050 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -3365,9 +3365,8 @@ namespace X_ROOT_NS::modules::compile {
                 if (element_exp == nullptr)
                     __Failed("index element init expression empty");
 
-                // TODO: check init expression type.
-
-                element_exp->compile(ctx, pool);
+                if (!__try_compile_constant_expression(ctx, pool, element_exp, dtype))
+                    element_exp->compile(ctx, pool, element_type);
 
                 if (this_effective)
                     pool.append<x_array_element_xil_t>(dtype);  // TODO: struct?
-- 
2.43.0


From 1ccab00087a97b7c7933ee7baa3b18a9b1732633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:58 +0000
Subject: [PATCH 047/113] fix: a constant passed as an object is boxed at every
 optimisation level

---
 modules/compile/expression.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 551a050..560e240 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -148,6 +148,10 @@ namespace X_ROOT_NS::modules::compile {
         if (!is_optimize(ctx, compile_optimize_code_t::compute_constant_values))
             return false;
 
+        // The constant value is not an object, it should be converted to.
+        if (env.dtype == xil_type_t::object)
+            return false;
+
         cvalue_t cvalue = __execute_expression(expression);
 
         if (!is_nan(cvalue) && cvalue.value_type != cvalue_type_t::__default__)
-- 
2.43.0


From df8e3917fea86b903bfdc745926c51c84d8f190f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:59 +0000
Subject: [PATCH 048/113] fix: an exception in a finally block replaces the
 unwinding it interrupts and keeps pending values

---
 include/modules/exec.h    | 53 +++++++++++++++++++++++++++++++--------
 modules/exec/commands.cpp | 23 ++++++++++++++---
 2 files changed, 61 insertions(+), 15 deletions(-)

diff --git a/include/modules/exec.h b/include/modules/exec.h
index 189026f..9cea320 100644
--- a/include/modules/exec.h
+++ b/include/modules/exec.h
@@ -655,7 +655,10 @@ namespace X_ROOT_NS::modules::exec {
         block_node_t(__identity_t identity, exec_method_block_t * block,
                 exception_node_t * exception_node = nullptr) _NE
             : block(block), exception_node(exception_node), identity(identity)
-        { }
+        {
+            if (exception_node != nullptr)
+                exception = exception_node->exception;
+        }
 
         // Group identity.
         __identity_t identity;
@@ -666,6 +669,15 @@ namespace X_ROOT_NS::modules::exec {
         // Exception node.
         exception_node_t * exception_node;
 
+        // The exception to be caught.
+        rt_ref_t exception = rt_ref_t(nullptr);
+
+        // Top of the stack when the finally block begins to execute.
+        rt_stack_unit_t * stack_top = nullptr;
+
+        // Whether it's executed for an exception that leaves the method.
+        bool unwinding = false;
+
         // The action after finally block executed.
         __action_t action = __action_t::default_;
 
@@ -748,6 +760,21 @@ namespace X_ROOT_NS::modules::exec {
             return false;
         }
 
+        // Sets the nodes of current group executed for an exception that leaves the method.
+        __AlwaysInline void set_group_unwinding() _NE
+        {
+            if (__current != nullptr)
+            {
+                for (__node_t * node = this->head; ; node = node->next)
+                {
+                    node->unwinding = true;
+
+                    if (node == __current)
+                        break;
+                }
+            }
+        }
+
         // Returns last node that enqueue.
         __AlwaysInline __node_t * last_current() _NE
         {
@@ -797,15 +824,8 @@ namespace X_ROOT_NS::modules::exec {
 
             this->head = node->next;
 
-            if (__executing == nullptr)
-            {
-                __executing = node;
-            }
-            else
-            {
-                node->next = __executing;
-                __executing = node;
-            }
+            node->next = __executing;
+            __executing = node;
 
             return node;
         }
@@ -821,6 +841,13 @@ namespace X_ROOT_NS::modules::exec {
             return node;
         }
 
+        // Returns current executing block of specified identity.
+        __AlwaysInline __node_t * current_executing(__identity_t identity) _NE
+        {
+            return __executing != nullptr && __executing->identity == identity?
+                __executing : nullptr;
+        }
+
         // Returns current executing block.
         __AlwaysInline __node_t * current_executing() _NE
         {
@@ -1028,7 +1055,11 @@ namespace X_ROOT_NS::modules::exec {
         // Restore stack to it's initialize state.
         __AlwaysInline void restore_stack() _NE
         {
-            stack.set_top(stack.lp() + current_method()->stack_unit_size);
+            // A finally block keeps the values below it, e.g. the value to be returned.
+            block_node_t * node = block_queue.current_executing(stack.lp());
+
+            stack.set_top(node != nullptr? node->stack_top
+                : stack.lp() + current_method()->stack_unit_size);
         }
 
         // Creates a new runtime string.
diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index cbc2554..d2f3ebc 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -5860,12 +5860,13 @@ namespace X_ROOT_NS::modules::exec {
         if (node->exception_node != nullptr)
         {
             ctx.block_queue.deque();
-            ctx.stack.push(node->exception_node->exception);
+            ctx.stack.push(node->exception);
             ctx.current = node->block->entry_point;
         }
         else    // Finally block.
         {
             ctx.block_queue.deque_for_executing();
+            node->stack_top = ctx.stack.top();
             ctx.current = node->block->entry_point;
         }
 
@@ -5895,6 +5896,7 @@ namespace X_ROOT_NS::modules::exec {
 
     __continue_find__:
 
+        exec_method_block_t * catch_block = nullptr;
         ctx.block_queue.begin_group(ctx.stack.lp());
 
         __find_block<__block_type_t::__unknown__>(ctx, [&](exec_method_block_t * block) {
@@ -5906,7 +5908,7 @@ namespace X_ROOT_NS::modules::exec {
                     if (__is_base_type(ctx.env, exception_type, block->relation_type))
                     {
                         ctx.block_queue.enque_catch(block, node);
-                        ctx.pop_exception();
+                        catch_block = block;
 
                         return false;
                     }
@@ -5922,13 +5924,26 @@ namespace X_ROOT_NS::modules::exec {
             }
         });
 
-        if (ctx.block_queue.end_group())
+        ctx.block_queue.end_group();
+
+        // The exception replaces what the finally blocks it leaves were executed for.
+        block_node_t * executing;
+        while ((executing = ctx.block_queue.current_executing(ctx.stack.lp())) != nullptr
+            && (catch_block == nullptr || catch_block->include(executing->block)))
         {
-            _A(ctx.block_queue.current_executing() != nullptr);
+            if (executing->unwinding)
+                ctx.exception_stack.remove_next(node);
 
             ctx.block_queue.pop_executing();
         }
 
+        if (catch_block != nullptr)
+            ctx.pop_exception();
+        else
+            ctx.block_queue.set_group_unwinding();
+
+        ctx.restore_stack();
+
         // Pop to calling method.
         block_node_t * last_node = ctx.block_queue.last_current();
         if (last_node == nullptr)
-- 
2.43.0


From ec8e34d2dfc792676a952e8ee43ebcb51ea51546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:57 +0000
Subject: [PATCH 049/113] fix: a compiled assembly can be run without compiling
 anything

---
 modules/april/compiler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/april/compiler.cpp b/modules/april/compiler.cpp
index eb50351..87e1728 100644
--- a/modules/april/compiler.cpp
+++ b/modules/april/compiler.cpp
@@ -257,6 +257,9 @@ namespace X_ROOT_NS::modules::april {
     // Runs specified assembly.
     void april_xcompiler_t::__run(const string_t & execute_assembly)
     {
+        // Reading assemblies needs a global context, and there may have been nothing to compile.
+        april_compiler_t context(_T("run"), &__controller);
+
         __cassembly_t * main_cassembly;
 
         if (execute_assembly.empty())
-- 
2.43.0


From 2936c48bd8dadda73e4043a1982fe15b26dfac50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:25 +0000
Subject: [PATCH 050/113] fix: an override is found in a base class of another
 assembly

---
 modules/rt/rt.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/rt/rt.cpp b/modules/rt/rt.cpp
index 0d043b6..086fdfa 100644
--- a/modules/rt/rt.cpp
+++ b/modules/rt/rt.cpp
@@ -3179,7 +3179,7 @@ namespace X_ROOT_NS::modules::rt {
         if (decorate.is_override)
         {
             method_prototype_t prototype;
-            get_prototype(method_ref, &prototype);
+            assembly_analyzer_t(*this, method->get_assembly()).get_prototype(method, &prototype);
 
             do
             {
@@ -3192,7 +3192,9 @@ namespace X_ROOT_NS::modules::rt {
 
             } while (method_ref == ref_t::null);
 
-            return get_virtual_method_offset( method_ref);
+            // The base type may belong to another assembly.
+            return assembly_analyzer_t(*this, rt_type->get_assembly())
+                                                    .get_virtual_method_offset(method_ref);
         }
 
         throw __RtAssemblyErrorF("virtual method '%1%' not found", method->get_name());
-- 
2.43.0


From 89cee9093f3a9b7df394c9d31934b3d882fa2682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:40 +0000
Subject: [PATCH 051/113] fix: searching an interface of a class without
 interfaces reads nothing

---
 include/modules/rt.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/modules/rt.h b/include/modules/rt.h
index 37bf1a8..96ecbeb 100644
--- a/include/modules/rt.h
+++ b/include/modules/rt.h
@@ -263,6 +263,12 @@ namespace X_ROOT_NS::modules::rt {
         X_ALWAYS_INLINE rt_vtable_interface_t * __search_vtable_interface(
                                                                 rt_type_t * interface_type)
         {
+            if constexpr (_check_none)
+            {
+                if (interface_count == 0)
+                    return nullptr;
+            }
+
             rt_vtable_interface_t * recently = interfaces->recently;
             if (recently->interface_type == interface_type)
                 return recently;
-- 
2.43.0


From 782edec78500a8f4444c0f0c9749b85a1739c02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:42 +0000
Subject: [PATCH 052/113] fix: the length of a null array raises
 NullReferenceException

---
 include/modules/rtlib.h   | 14 +++++++++++++-
 modules/exec/commands.cpp |  6 ++++++
 modules/rtlib/array.cpp   | 27 ++++++++++++++++++++++++++-
 3 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/include/modules/rtlib.h b/include/modules/rtlib.h
index 951f6e1..5016b87 100644
--- a/include/modules/rtlib.h
+++ b/include/modules/rtlib.h
@@ -73,6 +73,18 @@ namespace X_ROOT_NS::modules::rtlib {
 
     ////////// ////////// ////////// ////////// //////////
 
+    // Return codes of lib functions.
+    enum class libfunc_ret_code_t
+    {
+        success = 0,
+
+        // Raises NullReferenceException.
+        null_reference,
+
+        // Raises OutOfRangeException.
+        out_of_range,
+    };
+
     // Runtime lib context.
     struct rtlib_context_t
     {
@@ -82,7 +94,7 @@ namespace X_ROOT_NS::modules::rtlib {
 
         assembly_analyzer_t & analyzer;
         rt_stack_unit_t     * argument;
-        int                   ret_code        = 0;
+        libfunc_ret_code_t    ret_code        = libfunc_ret_code_t::success;
         string_t              ret_message;
 
         // Arguments.
diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index d2f3ebc..442529c 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -3988,6 +3988,12 @@ namespace X_ROOT_NS::modules::exec {
 
             __This->__func(context);
 
+            if (context.ret_code == libfunc_ret_code_t::null_reference)
+                __RaiseException(ctx, null_reference);
+
+            if (context.ret_code == libfunc_ret_code_t::out_of_range)
+                __RaiseOutOfRangeException(ctx);
+
             ctx.stack.pop(__This->__pop_unit_size);
 
         __EndExecute()
diff --git a/modules/rtlib/array.cpp b/modules/rtlib/array.cpp
index f9c2c96..81ba6a9 100644
--- a/modules/rtlib/array.cpp
+++ b/modules/rtlib/array.cpp
@@ -12,6 +12,16 @@ namespace X_ROOT_NS::modules::rtlib {
         robject_t   array;
 
         void * get_array() { return (void *)(rt_ref_t)array; }
+
+        // Returns whether the array is not null, sets the return code if it is.
+        bool check_array(rtlib_context_t & ctx)
+        {
+            if (get_array() != nullptr)
+                return true;
+
+            ctx.ret_code = libfunc_ret_code_t::null_reference;
+            return false;
+        }
     };
 
     ////////// ////////// ////////// ////////// //////////
@@ -22,6 +32,9 @@ namespace X_ROOT_NS::modules::rtlib {
     void array_get_rank(rtlib_context_t & ctx)
     {
         __array_get_rank_args_t * args = ctx.args<__array_get_rank_args_t>();
+        if (!args->check_array(ctx))
+            return;
+
         int32_t rank = mm::get_array_dimension(args->get_array());
 
         ctx.return_(rank);
@@ -35,6 +48,9 @@ namespace X_ROOT_NS::modules::rtlib {
     void array_get_length(rtlib_context_t & ctx)
     {
         __array_get_length_args_t * args = ctx.args<__array_get_length_args_t>();
+        if (!args->check_array(ctx))
+            return;
+
         array_length_t length = mm::get_array_length(args->get_array());
 
         ctx.return_(length);
@@ -52,9 +68,18 @@ namespace X_ROOT_NS::modules::rtlib {
     {
         typedef __array_get_length_of_dimension_args_t args_t;
         args_t * args = ctx.args<args_t>();
+        if (!args->check_array(ctx))
+            return;
+
+        int32_t dimension = *args->dimension;
+        if (dimension < 0 || dimension >= mm::get_array_dimension(args->get_array()))
+        {
+            ctx.ret_code = libfunc_ret_code_t::out_of_range;
+            return;
+        }
 
         array_length_t length = mm::get_array_length_of_dimension(
-            args->get_array(), *args->dimension
+            args->get_array(), dimension
         );
 
         ctx.return_(length);
-- 
2.43.0


From 7c4e7d78768cdc4639ec5e54c116f4d8d276ff32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:42 +0000
Subject: [PATCH 053/113] fix: throwing a null reference raises
 NullReferenceException

---
 modules/exec/commands.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index 442529c..d33c826 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -6027,6 +6027,8 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t exception = ctx.stack.pop<rt_ref_t>();
+            __CheckNullReference(ctx, exception);
+
             ctx.restore_stack();
 
             ctx.push_exception(exception);
-- 
2.43.0


From d18a1fb237779bbb1b316574622533f52c351f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:20 +0000
Subject: [PATCH 054/113] fix: pending exceptions are released without reading
 freed nodes

---
 include/modules/exec.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/modules/exec.h b/include/modules/exec.h
index 9cea320..8a89874 100644
--- a/include/modules/exec.h
+++ b/include/modules/exec.h
@@ -428,8 +428,9 @@ namespace X_ROOT_NS::modules::exec {
                 __node_t * node = head;
                 while (node != nullptr)
                 {
+                    __node_t * next = node->next;
                     this->__free((void *)node);
-                    node = node->next;
+                    node = next;
                 }
 
                 while (!__node_queue.empty())
-- 
2.43.0


From cc096eaacae09a0656b3d4484074648e4c97d98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:37 +0000
Subject: [PATCH 055/113] fix: exponents of floating point literals

---
 algorithm/numeric.cpp | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/algorithm/numeric.cpp b/algorithm/numeric.cpp
index 0fd5376..0efaf5b 100644
--- a/algorithm/numeric.cpp
+++ b/algorithm/numeric.cpp
@@ -208,7 +208,7 @@ namespace X_ROOT_NS::algorithm {
             {
                 if (__pow != 0)
                 {
-                    if (__point_zero_count > 0)
+                    if (__point_zero_count > 0 && __ec != _T('-'))
                     {
                         __numeric *= std::pow((_numeric_t)10.0, __point_zero_count);
                         __pow -= __point_zero_count;
@@ -218,10 +218,10 @@ namespace X_ROOT_NS::algorithm {
                     if (std::isinf(ev))
                         return __e_t::overflow;
 
-                    if (__ec == _T('+'))
-                        __numeric *= ev;
-                    else
+                    if (__ec == _T('-'))
                         __numeric /= ev;
+                    else
+                        __numeric *= ev;
 
                     if (std::isinf(__numeric))
                         return __e_t::overflow;
@@ -471,6 +471,9 @@ namespace X_ROOT_NS::algorithm {
             if (__radix == 0)
                 __radix = 10;
 
+            if (__radix == 16)      // e is a digit, e.g. 1E5H.
+                __e = nullptr;
+
             if (__ts == ts_unknown)
             {
                 if (__radix == 16)
@@ -505,20 +508,14 @@ namespace X_ROOT_NS::algorithm {
                         break;
 
                     case _T('E'): case _T('e'):
-                        if (__radix == 10)
+                        if (__radix != 16 && __radix != 2)
                         {
-                            __set_e(__p);
-                            if (*++__p != _T('+') && *__p != _T('-'))
-                            {
-                                __set_error(__e_t::format_error);
+                            bool has_sign = (__p[1] == _T('+') || __p[1] == _T('-'));
+                            if (!is_digit(__p[has_sign? 2 : 1]))
                                 goto label_default;
-                            }
 
-                            if (!is_digit(*++__p))
-                            {
-                                __set_error(__e_t::format_error);
-                                goto label_default;
-                            }
+                            __set_e(__p);
+                            __p += (has_sign? 2 : 1);
                         }
                         else
                         {
-- 
2.43.0


From 4bb952d9edbc078d989c03c210f156e15c5c8c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:04 +0000
Subject: [PATCH 056/113] fix: floating point literals denote the nearest value

---
 algorithm/numeric.cpp | 91 +++++++++----------------------------------
 1 file changed, 18 insertions(+), 73 deletions(-)

diff --git a/algorithm/numeric.cpp b/algorithm/numeric.cpp
index 0efaf5b..92933b0 100644
--- a/algorithm/numeric.cpp
+++ b/algorithm/numeric.cpp
@@ -151,97 +151,42 @@ namespace X_ROOT_NS::algorithm {
                 switch (c)
                 {
                     case _T('.'):
-                        __point = true;
-                        if (__integer_zero)
-                            __point_zero_count++;
-                        return __e_t::success;
-
                     case _T('E'): case _T('e'):
-                        __e = true;
-                        return __e_t::success;
-
                     case _T('+'): case _T('-'):
-                        __ec = c;
-                        return __e_t::success;
-                }
-
-                if (!is_digit(c, 10))
-                    return __e_t::format_error;
-
-                int n = digit_value(c);
-
-                if (!__e)
-                {
-                    if (!__point)
-                    {
-                        __numeric = __numeric * 10 + n;
-                        if (n > 0)
-                            __integer_zero = false;
-                    }
-                    else
-                    {
-                        __numeric = __numeric + n * __point_mod;
-                        __point_mod /= 10;
-
-                        if (!__point_zero_end && n == 0 && __integer_zero)
-                            __point_zero_count++;
-                        else
-                            __point_zero_end = true;
-                    }
-
-                    if (std::isinf(__numeric))
-                        return __e_t::overflow;
-                }
-                else
-                {
-                    if (__pow > __pow_limit)
-                        return __e_t::overflow;
+                        break;
 
-                    __pow = __pow * 10 + n;
+                    default:
+                        if (!is_digit(c, 10))
+                            return __e_t::format_error;
+                        break;
                 }
 
+                __text.push_back((char)c);
                 return __e_t::success;
             }
 
             // Commits to completed the paring operation.
             __AlwaysInline __e_t commit()
             {
-                if (__pow != 0)
-                {
-                    if (__point_zero_count > 0 && __ec != _T('-'))
-                    {
-                        __numeric *= std::pow((_numeric_t)10.0, __point_zero_count);
-                        __pow -= __point_zero_count;
-                    }
+                // Converts to the nearest value.
+                char * end;
 
-                    _numeric_t ev = std::pow((_numeric_t)10.0, __pow);
-                    if (std::isinf(ev))
-                        return __e_t::overflow;
-
-                    if (__ec == _T('-'))
-                        __numeric /= ev;
-                    else
-                        __numeric *= ev;
+                if (std::is_same<_numeric_t, float_t>::value)
+                    __numeric = std::strtof(__text.c_str(), &end);
+                else if (std::is_same<_numeric_t, double_t>::value)
+                    __numeric = std::strtod(__text.c_str(), &end);
+                else
+                    __numeric = std::strtold(__text.c_str(), &end);
 
-                    if (std::isinf(__numeric))
-                        return __e_t::overflow;
-                }
+                if (*end != '\0')
+                    return __e_t::format_error;
 
-                return __e_t::success;
+                return std::isinf(__numeric)? __e_t::overflow : __e_t::success;
             }
 
         private:
             _numeric_t & __numeric;
-            bool         __point = false;
-            _numeric_t   __point_mod = (_numeric_t)0.1;
-            bool         __e = false;
-            char_t       __ec = _T('\0');
-            int32_t      __pow = 0;
-            int32_t      __point_zero_count = 0;
-            bool         __point_zero_end = false;
-            bool         __integer_zero = true;
-
-            static const int32_t __pow_limit = max_value<int32_t>() / 100;
+            std::string  __text = "0";
         };
 
         //-------- ---------- ---------- ---------- ----------
-- 
2.43.0


From 10f2eee651ca2725eeb48d3401e08c2d0f80cc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:57 +0000
Subject: [PATCH 057/113] fix: the form feed escape sequence

---
 modules/compile/token_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/compile/token_reader.cpp b/modules/compile/token_reader.cpp
index 4d7c2df..b585838 100644
--- a/modules/compile/token_reader.cpp
+++ b/modules/compile/token_reader.cpp
@@ -254,7 +254,7 @@ namespace X_ROOT_NS::modules::compile {
                 break;
 
             case _T('f'):
-                *out_c = _T('f');
+                *out_c = _T('\f');
                 break;
 
             default:
-- 
2.43.0


From ddc555f8a7e36bf290e7d24ba76a111f4b1f4c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:57 +0000
Subject: [PATCH 058/113] fix: quotes doubled in a verbatim string

---
 modules/compile/token_reader.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modules/compile/token_reader.cpp b/modules/compile/token_reader.cpp
index b585838..82b930b 100644
--- a/modules/compile/token_reader.cpp
+++ b/modules/compile/token_reader.cpp
@@ -327,11 +327,12 @@ namespace X_ROOT_NS::modules::compile {
             switch ((c = *__p))
             {
                 case _T('"'):
-                    if (*(++__p) == _T('"'))
-                        s << *(__p++);
-                    else
+                    if (*(++__p) != _T('"'))
                         goto __end;
 
+                    s << *(__p++);
+                    break;
+
                 case _T('\0'):
                     error_code = e_t::string_format_error;
                     error_message = _T("string missing '\"'");
-- 
2.43.0


From 70cf1fb0e3f3e2823778596a2996db033bcb6b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:57 +0000
Subject: [PATCH 059/113] fix: reading an unterminated character literal ends

---
 modules/compile/token_reader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/compile/token_reader.cpp b/modules/compile/token_reader.cpp
index 82b930b..7f23379 100644
--- a/modules/compile/token_reader.cpp
+++ b/modules/compile/token_reader.cpp
@@ -356,7 +356,7 @@ namespace X_ROOT_NS::modules::compile {
         char_t ret_c = _T('\0');
         int c_count = 0;
         e_t error_code = e_t::__default__;
-        const char_t * error_message;
+        const char_t * error_message = nullptr;
 
         while (true)
         {
@@ -384,7 +384,7 @@ namespace X_ROOT_NS::modules::compile {
                 case _T('\r'): case _T('\n'): case _T('\0'):
                     error_code = e_t::char_format_error;
                     error_message = _T("missing terminating ' character");
-                    break;
+                    goto __end;
 
                 default:
                     ret_c = *__p++;
-- 
2.43.0


From 4b9e3a5ca279d42d607265c0099d584347750926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:53 +0000
Subject: [PATCH 060/113] fix: malformed literals are reported

---
 modules/compile/analyze_tree.cpp | 12 ++++++++++++
 modules/compile/token_reader.cpp |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/modules/compile/analyze_tree.cpp b/modules/compile/analyze_tree.cpp
index cba9a9a..a409441 100644
--- a/modules/compile/analyze_tree.cpp
+++ b/modules/compile/analyze_tree.cpp
@@ -4144,6 +4144,18 @@ namespace X_ROOT_NS::modules::compile {
             #undef __BeginAction
         }
 
+        // Reports malformed tokens, e.g. unknown escape sequence, numeric overflow.
+        for (size_t index = 0, size = __reader->size(); index < size; index++)
+        {
+            analyze_element_t & element = *(*__reader)[index];
+            if (element.type != analyze_element_type_t::token || element.token->data == nullptr)
+                continue;
+
+            token_error_t * error = element.token->data->error;
+            if (error != nullptr)
+                __log_format_error(error->message, element);
+        }
+
         return analyzer_result_t { std::move(__context.__matched_items) };
     }
 
diff --git a/modules/compile/token_reader.cpp b/modules/compile/token_reader.cpp
index 7f23379..5937399 100644
--- a/modules/compile/token_reader.cpp
+++ b/modules/compile/token_reader.cpp
@@ -157,7 +157,7 @@ namespace X_ROOT_NS::modules::compile {
 
         switch (code)
         {
-            case ne_t::__default__:
+            case ne_t::success:
                 error_code = e_t::__default__;
                 break;
 
-- 
2.43.0


From 5bee62807a073f0eaa53b40d210aef12a7fba275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:24 +0000
Subject: [PATCH 061/113] fix: Console.WriteLine of a null string ends the line

---
 modules/rtlib/system.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/rtlib/system.cpp b/modules/rtlib/system.cpp
index 8abed2f..49ae95a 100644
--- a/modules/rtlib/system.cpp
+++ b/modules/rtlib/system.cpp
@@ -48,7 +48,9 @@ namespace X_ROOT_NS::modules::rtlib {
         const char_t * s = *arg->value;
 
         if (s != nullptr)
-            std::wcout << s << std::endl;
+            std::wcout << s;
+
+        std::wcout << std::endl;
     }
 
     void console_write_char(rtlib_context_t & ctx)
-- 
2.43.0


From fc7757fb84a5cccb0e87a2799a981aed558035d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:50 +0000
Subject: [PATCH 062/113] fix: null is refused where a value type is expected

---
 modules/core/core.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/core/core.cpp b/modules/core/core.cpp
index 7f4b3a9..5f3a4ca 100644
--- a/modules/core/core.cpp
+++ b/modules/core/core.cpp
@@ -2768,10 +2768,10 @@ namespace X_ROOT_NS::modules::core {
             return true;
 
         if (from->this_gtype() == gtype_t::null)
-            return __is_mobject(from) || from->this_gtype() == gtype_t::null;
+            return is_null(to) || is_object(to) || is_ptr_type(to) || !is_value_type(to);
 
         if (to->this_gtype() == gtype_t::null)
-            return __is_mobject(to) || from->this_gtype() == gtype_t::null;
+            return __is_mobject(from);
 
         if (__is_mobject(from) || __is_mobject(to))
             return is_super_type(from, to);
-- 
2.43.0


From 76a121ca4c7b30d4c46d980dd33b70281d3bdc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:50 +0000
Subject: [PATCH 063/113] fix: assigning a value of an incompatible type is
 reported, operands without a type too

---
 modules/compile/ast_utils.cpp | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/modules/compile/ast_utils.cpp b/modules/compile/ast_utils.cpp
index 14379f5..f8a5f3a 100644
--- a/modules/compile/ast_utils.cpp
+++ b/modules/compile/ast_utils.cpp
@@ -1154,6 +1154,13 @@ namespace X_ROOT_NS::modules::compile {
                 __walk(exp2);
         }
 
+        // Returns whether values of the type are numbers or characters.
+        static bool __is_numeric_like(type_t * type)
+        {
+            vtype_t vtype = type->this_vtype();
+            return is_numberic_vtype(vtype) || vtype == vtype_t::char_;
+        }
+
         // Walks binary expression.
         template<size_t _exp_count>
         void __walk_op_expression(op_expression_t<_exp_count> * exp)
@@ -1162,9 +1169,6 @@ namespace X_ROOT_NS::modules::compile {
             const operator_property_t * op_property = exp->op_property;
             _A(op_property != nullptr);
 
-            if (op_property->overload == operator_overload_model_t::no_check)
-                return;
-
             operator_t op = op_property->op;
             if (op == operator_t::assign)
             {
@@ -1173,12 +1177,25 @@ namespace X_ROOT_NS::modules::compile {
                 type_t * type1 = exp->expression_at(0)->get_type();
                 type_t * type2 = exp->expression_at(1)->get_type();
 
+                if (type1 == nullptr || type2 == nullptr)
+                {
+                    ast_log(__cctx, exp, __c_t::invalid_expression, exp);
+                    return;
+                }
+
+                // Numeric values are converted to the type of the variable.
+                if (__is_numeric_like(type1) && __is_numeric_like(type2))
+                    return;
+
                 if (!is_type_compatible(type2, type1))
                     ast_log(__cctx, exp, __c_t::invalid_type_cast, type2->to_prototype(),
                                                                    type1->to_prototype());
                 return;
             }
 
+            if (op_property->overload == operator_overload_model_t::no_check)
+                return;
+
             // Collect argument types.
             atypes_t atypes;
             bool exists_custom_type = false;
@@ -1187,7 +1204,11 @@ namespace X_ROOT_NS::modules::compile {
             for (expression_t * exp : exp->exps)
             {
                 type_t * arg_type = exp->get_type();
-                _A(arg_type != nullptr);
+                if (arg_type == nullptr)
+                {
+                    ast_log(__cctx, exp, __c_t::invalid_expression, exp);
+                    return;
+                }
 
                 if (is_null(arg_type))
                     exists_null = true;
-- 
2.43.0


From 628278beacdc88905cc37af4559785ff3e28ae52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:50 +0000
Subject: [PATCH 064/113] fix: an operator declared by a class is found, an
 undeclared one is reported

---
 modules/compile/ast_utils.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/modules/compile/ast_utils.cpp b/modules/compile/ast_utils.cpp
index f8a5f3a..9afe5aa 100644
--- a/modules/compile/ast_utils.cpp
+++ b/modules/compile/ast_utils.cpp
@@ -1248,9 +1248,7 @@ namespace X_ROOT_NS::modules::compile {
                 );
 
                 if (method != nullptr && method->is_static())
-                    break;
-
-                methods.push_back(method);
+                    methods.push_back(method);
             }
 
             if (methods.empty())
-- 
2.43.0


From e508b966b85a5e9a8a39c3e18ef73edb8a6483ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:33 +0000
Subject: [PATCH 065/113] fix: svector_t built from a range starts empty

---
 algorithm/__collections.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/algorithm/__collections.h b/algorithm/__collections.h
index ae6ffae..bbaa485 100644
--- a/algorithm/__collections.h
+++ b/algorithm/__collections.h
@@ -666,6 +666,7 @@ namespace X_ROOT_NS::algorithm {
 
         // Constructor, with a initialize list.
         template<typename _itor_t> svector_t(_itor_t begin, _itor_t end)
+            : __p(__array)
         {
             for (; begin != end; begin++)
             {
-- 
2.43.0


From 810048aee47d05deffd343d7524c1cdadbc96bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:33 +0000
Subject: [PATCH 066/113] fix: recovering from a syntax error stays within the
 tree and the token table

---
 modules/compile/analyze_tree.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/compile/analyze_tree.cpp b/modules/compile/analyze_tree.cpp
index a409441..a473a17 100644
--- a/modules/compile/analyze_tree.cpp
+++ b/modules/compile/analyze_tree.cpp
@@ -3155,7 +3155,7 @@ namespace X_ROOT_NS::modules::compile {
             }
             else
             {
-                if (__is_invisible(key))
+                if (key.type == analyze_node_type_t::token && __is_invisible(key))
                 {
                     stack.normal_count = 1;
                     stack.units[0] = __stack_unit_t(value.node, 0, &buffer, nullptr, key.value);
@@ -3785,6 +3785,9 @@ namespace X_ROOT_NS::modules::compile {
     void analyze_context_t::__detect_check_end_node(__node_keys_t & out_keys,
         __stack_node_t * parent, __stack_node_t * current, __node_unit_t end_unit)
     {
+        if (__is_root(__owner_branch(end_unit)))
+            return;
+
         __node_value_t end_node_value = __owner_branch_value(end_unit);
         __node_key_t ref_key = to_branch_ref_key(end_node_value);
         analyze_normal_path_node_t * parent_current = (*parent)->current;
-- 
2.43.0


From f6dc707b0eff9db237dae5c73096eeece1056cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:06 +0000
Subject: [PATCH 067/113] fix: reporting an empty name does not treat the
 reporter as a code element

---
 modules/compile/__ast.h | 4 ++--
 modules/compile/ast.cpp | 4 ----
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/modules/compile/__ast.h b/modules/compile/__ast.h
index e088151..55ac590 100644
--- a/modules/compile/__ast.h
+++ b/modules/compile/__ast.h
@@ -1135,7 +1135,7 @@ namespace X_ROOT_NS::modules::compile {
             {
                 if (__is_empty_value(value))
                 {
-                    __log(el? el : (__el_t *)this, code, std::forward<_args_t>(args) ...);
+                    __log(el, code, std::forward<_args_t>(args) ...);
                     return false;
                 }
 
@@ -1146,7 +1146,7 @@ namespace X_ROOT_NS::modules::compile {
             template<typename _name_t>
             bool __check_name_empty(const _name_t & name, const char_t * title)
             {
-                return __check_empty(name, (__el_t *)this, __c_t::name_empty,
+                return __check_empty(name, (__el_t *)nullptr, __c_t::name_empty,
                                                     title ? title : _T(""));
             }
 
diff --git a/modules/compile/ast.cpp b/modules/compile/ast.cpp
index 00d953a..a3c58ec 100644
--- a/modules/compile/ast.cpp
+++ b/modules/compile/ast.cpp
@@ -688,8 +688,6 @@ namespace X_ROOT_NS::modules::compile {
         typedef common_log_code_t c_t;
 
         code_element_t * ce = dynamic_cast<code_element_t *>(code_element);
-        if (ce == nullptr)
-            ce = (code_element_t *)this;
 
         // Same as type name.
         if (member->get_name() == type->get_name())
@@ -726,8 +724,6 @@ namespace X_ROOT_NS::modules::compile {
         typedef member_type_t m_t;
 
         code_element_t * ce = dynamic_cast<code_element_t *>(code_element);
-        if (ce == nullptr)
-            ce = (code_element_t *)this;
 
         member_type_t member_type = member->this_type();
 
-- 
2.43.0


From 1f29bfc6f8463658bdbcb6a45d02a4521038ee82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:06 +0000
Subject: [PATCH 068/113] fix: a duplicate local variable is reported instead
 of crashing

---
 modules/compile/ast.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/compile/ast.cpp b/modules/compile/ast.cpp
index a3c58ec..5dcdc74 100644
--- a/modules/compile/ast.cpp
+++ b/modules/compile/ast.cpp
@@ -3986,6 +3986,11 @@ namespace X_ROOT_NS::modules::compile {
         for (int index = 0, count = this->items.size(); index < count; ++index)
         {
             defination_statement_item_t * var_item = this->items[index];
+
+            // The variable could not be defined, it was already reported.
+            if (var_item->variable == nullptr)
+                continue;
+
             if (__is_uncertain(var_item->variable->type_name))
             {
                 type_t * type = nullptr;
-- 
2.43.0


From fce253ceb831f28e094f811803458a6068843771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:49 +0000
Subject: [PATCH 069/113] fix: null is refused for structs and enumerations too

---
 modules/core/core.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/core/core.cpp b/modules/core/core.cpp
index 5f3a4ca..1cf2962 100644
--- a/modules/core/core.cpp
+++ b/modules/core/core.cpp
@@ -2768,7 +2768,8 @@ namespace X_ROOT_NS::modules::core {
             return true;
 
         if (from->this_gtype() == gtype_t::null)
-            return is_null(to) || is_object(to) || is_ptr_type(to) || !is_value_type(to);
+            return is_string_type(to) || is_ptr_type(to)
+                || !al::in(to->this_ttype(), ttype_t::struct_, ttype_t::enum_);
 
         if (to->this_gtype() == gtype_t::null)
             return __is_mobject(from);
-- 
2.43.0


From a628cf5da490556e228f36bb299726c3770811cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:09 +0000
Subject: [PATCH 070/113] fix: operands of an overloaded operator are passed by
 value whatever its result is used for

---
 modules/compile/expression.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 560e240..d212549 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -2421,6 +2421,11 @@ namespace X_ROOT_NS::modules::compile {
                 case expression_family_t::binary:
                 {
                     binary_expression_t * binary_exp = (binary_expression_t *)parent_exp;
+
+                    // An operand of an overloaded operator is an argument.
+                    if (binary_exp->overload_method != nullptr)
+                        return true;
+
                     switch (binary_exp->op())
                     {
                         case operator_t::member_point:
@@ -2435,6 +2440,11 @@ namespace X_ROOT_NS::modules::compile {
                     break;
                 }
 
+                case expression_family_t::unitary:
+                    if (((unitary_expression_t *)parent_exp)->overload_method != nullptr)
+                        return true;
+                    break;
+
                 // An argument is a value of its own, whatever the result is used for.
                 case expression_family_t::function:
                 case expression_family_t::new_:
-- 
2.43.0


From 9a42fb523589c823b525c5a043e89d9dea3b81df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:05 +0000
Subject: [PATCH 071/113] fix: the indexer of a struct works on the struct
 itself

---
 modules/compile/expression.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index d212549..8ea6852 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -2450,10 +2450,9 @@ namespace X_ROOT_NS::modules::compile {
                 case expression_family_t::new_:
                     return true;
 
+                // An index is an argument, too. The indexer works on the indexed value itself.
                 case expression_family_t::index:
-                    if (((index_expression_t *)parent_exp)->namex() != exp)
-                        return true;
-                    break;
+                    return ((index_expression_t *)parent_exp)->namex() != exp;
 
                 default:
                     break;
-- 
2.43.0


From 29d18a1c53e7c4b674db9132da57bb3bddd829e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:03 +0000
Subject: [PATCH 072/113] fix: a value of an enum with a small underlying type
 is converted when cast

---
 modules/compile/expression.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 8ea6852..036b7e0 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -2117,9 +2117,10 @@ namespace X_ROOT_NS::modules::compile {
         // When need to convert.
         if (type_t * type = env.type; !converted && type != nullptr && is_value_type(type))
         {
-            if (env.dtype != xil_type_t::empty && is_value_type(__ExpType))
+            if (env.dtype != xil_type_t::empty
+                && (is_value_type(__ExpType) || is_enum(__ExpType)))
             {
-                xil_type_t xil_type = to_xil_type(exp_type);
+                xil_type_t xil_type = to_xil_type(__ExpType);
                 __try_append_convert_xil(pool, xil_type, env.dtype);
             }
         }
-- 
2.43.0


From 8c0c0390855369dce51a9c990570498430d0edcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:48 +0000
Subject: [PATCH 073/113] fix: references are compared when == is not declared
 for them

---
 modules/compile/ast_utils.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/modules/compile/ast_utils.cpp b/modules/compile/ast_utils.cpp
index 9afe5aa..8c3753a 100644
--- a/modules/compile/ast_utils.cpp
+++ b/modules/compile/ast_utils.cpp
@@ -1253,6 +1253,13 @@ namespace X_ROOT_NS::modules::compile {
 
             if (methods.empty())
             {
+                // References are compared with each other when the operator is not declared.
+                if ((op == operator_t::equal || op == operator_t::not_equal)
+                    && al::all_of(atypes, [](auto & t) { return is_ref_type(t.type); }))
+                {
+                    return;
+                }
+
                 string_t s = al::join_str(atypes.begin(), atypes.end(), _T(", "));
                 ast_log(__cctx, exp, __c_t::operator_overload_not_defined, op_property->op, s);
 
-- 
2.43.0


From 79c0b98d1fda9ae4c59ccf9a123b634e49d932cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:53 +0000
Subject: [PATCH 074/113] fix: an enum has its value type before its fields are
 initialised

---
 modules/core/core.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/core.cpp b/modules/core/core.cpp
index 1cf2962..fdee662 100644
--- a/modules/core/core.cpp
+++ b/modules/core/core.cpp
@@ -5403,7 +5403,7 @@ namespace X_ROOT_NS::modules::core {
         switch (type->this_gtype())
         {
             case gtype_t::general:
-                return ((general_type_t *)type)->vtype;
+                return type->this_vtype();
                 
             case gtype_t::generic:
             case gtype_t::null:
-- 
2.43.0


From b432fa78a47a1017dca7c4d355410228ecc96498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:53 +0000
Subject: [PATCH 075/113] fix: a switch over a value smaller than an int finds
 its case

---
 modules/compile/__xilx.h       |  6 ++++--
 modules/compile/statements.cpp |  7 ++++---
 modules/compile/xilx.cpp       | 14 ++++++++++++++
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/modules/compile/__xilx.h b/modules/compile/__xilx.h
index f3f8857..f5ceaa4 100644
--- a/modules/compile/__xilx.h
+++ b/modules/compile/__xilx.h
@@ -455,8 +455,9 @@ namespace X_ROOT_NS::modules::compile {
     public:
 
         // Constructor.
-        switch_jmp_xilx_t(__region_t & region, switch_table_t * table)
-            : __super_t(region), table(table)
+        switch_jmp_xilx_t(__region_t & region, switch_table_t * table,
+                          xil_type_t dtype = xil_type_t::int32)
+            : __super_t(region), table(table), dtype(dtype)
         {
             _A(table != nullptr);
         }
@@ -465,6 +466,7 @@ namespace X_ROOT_NS::modules::compile {
         virtual void write(__xw_context_t & ctx, xil_pool_t & pool) override;
 
         switch_table_t * table;
+        xil_type_t dtype;           // Type of the value.
 
         // Converts to a string.
         virtual const string_t to_string() const override
diff --git a/modules/compile/statements.cpp b/modules/compile/statements.cpp
index 8814c9c..8c88386 100644
--- a/modules/compile/statements.cpp
+++ b/modules/compile/statements.cpp
@@ -57,9 +57,10 @@ namespace X_ROOT_NS::modules::compile {
         }
 
         // Appends switch jmp xilx.
-        switch_jmp_xilx_t * __append_switch(__context_t & ctx, switch_table_t * tbl)
+        switch_jmp_xilx_t * __append_switch(__context_t & ctx, switch_table_t * tbl,
+                                                               xil_type_t dtype)
         {
-            return append_xilx<switch_jmp_xilx_t>(ctx, tbl);
+            return append_xilx<switch_jmp_xilx_t>(ctx, tbl, dtype);
         }
 
         //-------- ---------- ---------- ---------- ----------
@@ -1211,7 +1212,7 @@ namespace X_ROOT_NS::modules::compile {
         append_expression(ctx, expression);
 
         switch_table_t * tbl = ctx.switch_manager.append_table(row_count);
-        __append_switch (ctx, tbl);
+        __append_switch (ctx, tbl, to_xil_type(expression->get_type()));
 
         switch_row_t * rows = (switch_row_t *)tbl->rows;
 
diff --git a/modules/compile/xilx.cpp b/modules/compile/xilx.cpp
index 49d00c4..cec067a 100644
--- a/modules/compile/xilx.cpp
+++ b/modules/compile/xilx.cpp
@@ -606,6 +606,20 @@ namespace X_ROOT_NS::modules::compile {
     // Writes xils to pool.
     void switch_jmp_xilx_t::write(__xw_context_t & ctx, xil_pool_t & pool)
     {
+        // A value is compared with the cases as an int.
+        switch (dtype)
+        {
+            case xil_type_t::int8:
+            case xil_type_t::uint8:
+            case xil_type_t::int16:
+            case xil_type_t::uint16:
+                pool.append<x_push_convert_xil_t>(dtype, xil_type_t::int32);
+                break;
+
+            default:
+                break;
+        }
+
         x_switch_xil_t * xil = pool.append<x_switch_xil_t>(table->index);
         table->jmp_xil = xil;
     }
-- 
2.43.0


From 968fa7efa1d659a1167878e105df56cc28466698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:53 +0000
Subject: [PATCH 076/113] fix: base.Property calls the accessor of the base
 class

---
 modules/compile/expression.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 036b7e0..6523f46 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -554,6 +554,17 @@ namespace X_ROOT_NS::modules::compile {
         return bin_exp->exp1()->this_family() == expression_family_t::base;
     }
 
+    // Returns call type of the get or set method of a property, base.xxx is not a virtual call.
+    static xil_call_type_t __call_type_of_accessor(method_base_t * method, expression_t * exp)
+    {
+        xil_call_type_t call_type = __call_type_of_method(method);
+
+        if (call_type == xil_call_type_t::virtual_ && __left_is_base(exp))
+            return xil_call_type_t::instance;
+
+        return call_type;
+    }
+
     // Returns whether it's the right member expression.
     static bool __is_right_member(expression_t * exp, expression_t * exp2,
                                   expression_t ** out_exp1 = nullptr)
@@ -1282,7 +1293,7 @@ namespace X_ROOT_NS::modules::compile {
                 __compile_argument(ctx, pool, exp2, method, 0);
 
                 ref_t method_ref = __search_method_ref(ctx, method);
-                pool.append<x_method_call_xil_t>(__call_type_of_method(method), method_ref);
+                pool.append<x_method_call_xil_t>(__call_type_of_accessor(method, exp), method_ref);
 
             }   break;
 
@@ -1890,7 +1901,9 @@ namespace X_ROOT_NS::modules::compile {
         __compile_arguments(ctx, pool, arguments, method);
 
         ref_t method_ref = __search_method_ref(ctx, method);
-        pool.append<x_method_call_xil_t>(__call_type_of_method(method), method_ref);
+        pool.append<x_method_call_xil_t>(
+            __call_type_of_accessor(method, owner_exp->parent), method_ref
+        );
 
         __try_pop_empty_for_method(ctx, pool, method, owner_exp);
     }
-- 
2.43.0


From 83dcdada4aa62b2b3ad99f7b5f35011e6ce51c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:16 +0000
Subject: [PATCH 077/113] fix: a comment may follow the symbol of a declared
 operator

---
 modules/lang_cs/ast_builder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/lang_cs/ast_builder.cpp b/modules/lang_cs/ast_builder.cpp
index 97fdd47..f494021 100644
--- a/modules/lang_cs/ast_builder.cpp
+++ b/modules/lang_cs/ast_builder.cpp
@@ -1850,6 +1850,9 @@ namespace X_ROOT_NS::modules::lang_cs {
 
     __ApplyToken(_operator, token, args)
     {
+        if ((cs_token_value_t)token->value == cs_token_value_t::comment)
+            return;
+
         const operator_property_t * property = get_operator_property(
             (cs_token_value_t)token->value
         );
-- 
2.43.0


From 661049f20f549b32de1b2e13edfc3f82e7ecb085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:43 +0000
Subject: [PATCH 078/113] fix: removing an object of a heap_t moves the
 following ones and leaves a valid end

---
 algorithm/__collections.h | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/algorithm/__collections.h b/algorithm/__collections.h
index bbaa485..6da8e31 100644
--- a/algorithm/__collections.h
+++ b/algorithm/__collections.h
@@ -132,7 +132,7 @@ namespace X_ROOT_NS::algorithm {
             if (index >= size)
                 throw _EC(invalid_operation, _T("index larger than heap size"));
 
-            __move_previous(index + 1);
+            __move_previous(index);
         }
 
         // Returns the object count in the heap.
@@ -288,7 +288,7 @@ namespace X_ROOT_NS::algorithm {
             return __H(from_row, from_col);
         }
 
-        // Move all objects to previous from specified index.
+        // Move all objects to previous, over the one at the specified index.
         void __move_previous(size_t index)
         {
             int from_row = index / __row_size, from_col = index % __row_size;
@@ -296,32 +296,34 @@ namespace X_ROOT_NS::algorithm {
 
             if (row > from_row)
             {
-                __Copy(from_row, from_col - 1, from_row, from_col, __row_size - from_col);
+                __Copy(from_row, from_col, from_row, from_col + 1, __row_size - from_col - 1);
 
-                for (size_t row1 = from_row + 1; row1 < row; row1++)
+                for (int row1 = from_row + 1; row1 < row; row1++)
                 {
                     __Copy(row1 - 1, __row_size - 1, row1, 0, 1);
                     __Copy(row1, 0, row1, 1, __row_size - 1);
                 }
 
+                __Copy(row - 1, __row_size - 1, row, 0, 1);
                 __Copy(row, 0, row, 1, col);
             }
             else
             {
-                __Copy(from_row, from_col - 1, from_row, from_col, col - from_col + 1);
+                __Copy(from_row, from_col, from_row, from_col + 1, col - from_col);
             }
 
             __size--;
-            if (__current_col == 0)
+            if (--__current_col == 0)   // The row is empty, back to the previous one.
             {
-                __current_col = __row_size - 1;
-                __current_row--;
-
-                __current_row_ptr = __pool[__current_row];
-            }
-            else
-            {
-                __current_col--;
+                if (--__current_row >= 0)
+                {
+                    __current_row_ptr = __pool[__current_row];
+                    __current_col = __row_size;
+                }
+                else
+                {
+                    __current_row_ptr = nullptr;
+                }
             }
         }
 
-- 
2.43.0


From bc3d54310fc1657fa98caacd54152ecd32db48ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:43 +0000
Subject: [PATCH 079/113] fix: queue_pop, stack_pop and list_pop return a
 value, not a reference to what they removed

---
 algorithm/__std.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/algorithm/__std.h b/algorithm/__std.h
index e02e271..f846e4e 100644
--- a/algorithm/__std.h
+++ b/algorithm/__std.h
@@ -177,12 +177,12 @@ namespace X_ROOT_NS::algorithm {
     // Pop an element from the queue.
     // Throws exception when the queue is empty.
     template<typename _queue_t>
-    auto & queue_pop(_queue_t && queue)
+    auto queue_pop(_queue_t && queue)
     {
         if (queue.size() == 0)
             throw _E(common_error_code_t::invalid_operation, _T("queue empty"));
 
-        auto & value = queue.front();
+        auto value = queue.front();
         queue.pop();
         return value;
     }
@@ -190,12 +190,12 @@ namespace X_ROOT_NS::algorithm {
     // Pop an element from the stack.
     // Throws exception when the stack is empty.
     template<typename _stack_t>
-    auto & stack_pop(_stack_t && stack)
+    auto stack_pop(_stack_t && stack)
     {
         if (stack.size() == 0)
             throw _E(common_error_code_t::invalid_operation, _T("stack empty"));
 
-        auto & value = stack.top();
+        auto value = stack.top();
         stack.pop();
         return value;
     }
@@ -203,12 +203,12 @@ namespace X_ROOT_NS::algorithm {
     // Pop an element from the front of the list.
     // Throw exception when the list is empty.
     template<typename _list_t>
-    auto & list_pop_front(_list_t && list)
+    auto list_pop_front(_list_t && list)
     {
         if (list.size() == 0)
             throw _E(common_error_code_t::invalid_operation, _T("list empty"));
 
-        auto & value = list.front();
+        auto value = list.front();
         list.pop_front();
         return value;
     }
@@ -216,12 +216,12 @@ namespace X_ROOT_NS::algorithm {
     // Pop an element from the back of the list.
     // Throw exception when the list is empty.
     template<typename _list_t>
-    auto & list_pop_back(_list_t && list)
+    auto list_pop_back(_list_t && list)
     {
         if (list.size() == 0)
             throw _E(common_error_code_t::invalid_operation, _T("list empty"));
 
-        auto & value = list.back();
+        auto value = list.back();
         list.pop_back();
         return value;
     }
-- 
2.43.0


From 2f69dd747ef0d27463db2f8819f7ad0148108ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:43 +0000
Subject: [PATCH 080/113] fix: a tree node may have more than 255 children

---
 algorithm/__collections.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algorithm/__collections.h b/algorithm/__collections.h
index 6da8e31..9a0820b 100644
--- a/algorithm/__collections.h
+++ b/algorithm/__collections.h
@@ -1371,7 +1371,7 @@ namespace X_ROOT_NS::algorithm {
                 const __node_t * node = queue_pop(queue);
                 __data.push_back(node->value);
 
-                uint8_t count = 0;
+                uint32_t count = 0;
                 node->each_child([&](const __node_t * child) {
                     queue.push(child);
                     count++;
@@ -1405,14 +1405,14 @@ namespace X_ROOT_NS::algorithm {
 
             for (size_t index = 0, count = __node_counts.size(); index < count; index++)
             {
-                uint8_t child_count = __node_counts[index];
+                uint32_t child_count = __node_counts[index];
                 
                 if (queue.empty())
                     throw _EC(invalid_operation, _T("restore lr_tree failed, queue empty"));
 
                 __node_t * node = queue_pop(queue), * last_node = nullptr;
 
-                for (int k = 0; k < child_count; k++)
+                for (uint32_t k = 0; k < child_count; k++)
                 {
                     if (data_index >= __data.size())
                         throw _EC(invalid_operation, _T("restore lr_tree failed, nodes empty"));
@@ -1432,7 +1432,7 @@ namespace X_ROOT_NS::algorithm {
 
     private:
         __vector_t<_value_t>    __data;
-        __vector_t<uint8_t>     __node_counts;
+        __vector_t<uint32_t>    __node_counts;
 
         // Adapter to convert a creator to memory_t interface.
         class __memory_adapter_t : public object_t, public memory_t
-- 
2.43.0


From d7f696f8eaea4b5a9ac1dc7c98dc4aac289593da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:43 +0000
Subject: [PATCH 081/113] fix: a new tree node has no sibling and no parent

---
 algorithm/__collections.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algorithm/__collections.h b/algorithm/__collections.h
index 9a0820b..b94212f 100644
--- a/algorithm/__collections.h
+++ b/algorithm/__collections.h
@@ -976,7 +976,7 @@ namespace X_ROOT_NS::algorithm {
         // Constructors with the value.
         template<typename _value_t>
         lr_tree_node_t(_value_t && value)
-            : value(value), first_child(nullptr)
+            : value(value)
         { }
 
         // Appends a child, creates with the specified memory management.
@@ -1221,9 +1221,9 @@ namespace X_ROOT_NS::algorithm {
         value_t & operator *()  { return value;  }
 
         value_t    value;
-        __self_t * first_child;
-        __self_t * next_sibling;
-        __self_t * parent;
+        __self_t * first_child  = nullptr;
+        __self_t * next_sibling = nullptr;
+        __self_t * parent       = nullptr;
 
         virtual ~lr_tree_node_t() override { }
 
-- 
2.43.0


From 3ffbe3c5387f58b25acd2068d10810ac55c73103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:43 +0000
Subject: [PATCH 082/113] fix: bitset_t allocates what its bits need and
 searches an empty one

---
 algorithm/collections.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/algorithm/collections.cpp b/algorithm/collections.cpp
index cc79907..c5b2718 100644
--- a/algorithm/collections.cpp
+++ b/algorithm/collections.cpp
@@ -174,10 +174,13 @@ namespace X_ROOT_NS::algorithm {
         if (from >= __bit_length)
             return not_found;
 
+        if (__data == nullptr)      // All bits are cleared.
+            return value? not_found : from;
+
         size_t pos = from / __underlying_bits;
         size_t data_length = __data_length_of(__bit_length);
         if (pos >= data_length)
-            return false;
+            return not_found;
 
         size_t from0 = from % __underlying_bits;
         for (const __underlying_t * p = __data + pos, *p_end = __data + data_length;
@@ -200,9 +203,9 @@ namespace X_ROOT_NS::algorithm {
         if (bit_length <= __bit_length && __data != nullptr)
             return;
 
-        __bit_length = bit_length;
+        __bit_length = max(bit_length, __bit_length);
 
-        size_t data_length = __data_length_of(bit_length);
+        size_t data_length = __data_length_of(__bit_length);
         if (__data == nullptr || data_length > __data_length)
         {
             if (data_length < 16)
@@ -213,7 +216,7 @@ namespace X_ROOT_NS::algorithm {
             __underlying_t * new_data = new __underlying_t[data_length];
             if (__data != nullptr)
             {
-                copy_array(__data, new_data, data_length);
+                copy_array(__data, new_data, __data_length);
                 delete [] __data;
             }
 
@@ -234,7 +237,7 @@ namespace X_ROOT_NS::algorithm {
     // Length of underlying integer enough to store specified bit counts.
     X_INLINE size_t bit_array_t::__data_length_of(size_t bit_length)
     {
-        return _alignf(bit_length, __underlying_size) / 8;
+        return _alignf(bit_length, __underlying_bits) / __underlying_bits;
     }
 
     // Next index of true bit from the specified index.
-- 
2.43.0


From 67d4a5c4fa696d221f46bcb0bbb9bf923e4b6a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:43 +0000
Subject: [PATCH 083/113] fix: select_min and select_max were exchanged

---
 include/algorithm.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/algorithm.h b/include/algorithm.h
index 56071d0..a9467b0 100644
--- a/include/algorithm.h
+++ b/include/algorithm.h
@@ -145,7 +145,7 @@ namespace X_ROOT_NS::algorithm {
     template<typename _itor_t>
     X_INLINE _itor_t select_min(_itor_t begin, _itor_t end)
     {
-        return select(begin, end, [](auto && x, auto && y) { return x < y; });
+        return select(begin, end, [](auto && x, auto && y) { return y < x; });
     }
 
     // Selects the min value from the given container.
@@ -159,7 +159,7 @@ namespace X_ROOT_NS::algorithm {
     template<typename itor_t>
     X_INLINE itor_t select_max(itor_t begin, itor_t end)
     {
-        return select(begin, end, [](auto x, auto y) { return y < x; });
+        return select(begin, end, [](auto x, auto y) { return x < y; });
     }
 
     // Selects the max value from the give container.
-- 
2.43.0


From e0f1f96de6fa9d9c0f96af8e5736d60dae62908c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:43 +0000
Subject: [PATCH 084/113] fix: from_varint reads the greatest numbers that
 to_varint writes

---
 include/algorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/algorithm.h b/include/algorithm.h
index a9467b0..c184483 100644
--- a/include/algorithm.h
+++ b/include/algorithm.h
@@ -776,7 +776,7 @@ namespace X_ROOT_NS::algorithm {
 
         while (true)
         {
-            if (offset + 7 > sizeof(t) * 8)
+            if (offset >= sizeof(t) * 8)
                 throw _EC(overflow, _T("from_varint number overflow"));
 
             byte_t byte = *buffer++;
-- 
2.43.0


From 23a9bd0b90da236f889ef1bb0b5d7c987eb540db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:43 +0000
Subject: [PATCH 085/113] fix: quick_copy copies all bytes of overlapping and
 of odd sized blocks

---
 algorithm/algorithm.cpp | 6 +++++-
 include/algorithm.h     | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/algorithm/algorithm.cpp b/algorithm/algorithm.cpp
index b117e1e..13a4936 100644
--- a/algorithm/algorithm.cpp
+++ b/algorithm/algorithm.cpp
@@ -57,7 +57,11 @@ namespace X_ROOT_NS::algorithm {
 
         if (size <= sizeof(uint64_t))
         {
-            __quick_copy(dst, src, size);
+            if (dst > src)
+                __quick_copy_backward(dst, src, size);
+            else
+                __quick_copy(dst, src, size);
+
             return;
         }
 
diff --git a/include/algorithm.h b/include/algorithm.h
index c184483..6fd0f95 100644
--- a/include/algorithm.h
+++ b/include/algorithm.h
@@ -506,8 +506,8 @@ namespace X_ROOT_NS::algorithm {
             X_ALWAYS_INLINE static void copy_backward(void * dst, const void * src) _NE
             {
                 __quick_copy_t<sizeof(uint64_t)>::copy_backward(
-                    (byte_t *)dst + _size - 1,
-                    (const byte_t *)src + _size - 1
+                    (byte_t *)dst + _size - sizeof(uint64_t),
+                    (const byte_t *)src + _size - sizeof(uint64_t)
                 );
 
                 __quick_copy_t<_size - sizeof(uint64_t)>::copy_backward(
-- 
2.43.0


From f0932597549856036ee5d7511934f44c6bfca9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:43 +0000
Subject: [PATCH 086/113] fix: replace starts at the beginning of the string

---
 algorithm/__string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithm/__string.h b/algorithm/__string.h
index 6c8694b..f814dc5 100644
--- a/algorithm/__string.h
+++ b/algorithm/__string.h
@@ -323,7 +323,7 @@ namespace X_ROOT_NS::algorithm {
         typedef std::basic_string<c_t> s_t;
         typedef typename s_t::size_type pos_t;
 
-        pos_t pos;
+        pos_t pos = 0;
         while ((pos = s.find(src, pos)) != s_t::npos)
         {
             s.replace(pos, src.size(), dst);
-- 
2.43.0


From 4ac45439113f763590bded18fe1d056e92e56e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:43 +0000
Subject: [PATCH 087/113] fix: append_all_bytes writes bytes

---
 lib/file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/file.cpp b/lib/file.cpp
index 9d915d9..97d5d22 100644
--- a/lib/file.cpp
+++ b/lib/file.cpp
@@ -182,7 +182,7 @@ namespace X_ROOT_NS::lib {
     void append_all_bytes(const path_t & file, const byte_t * bytes, size_t length)
     {
         _A(bytes != nullptr);
-        __write_all<__cofstream_t>(file, bytes, length, std::ios_base::app);
+        __write_all<__bofstream_t>(file, bytes, length, std::ios_base::app);
     }
 
     // Append bytes to the end of the file.
-- 
2.43.0


From 4c62f118a1134405554f1442956124a420d012e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:43 +0000
Subject: [PATCH 088/113] fix: svector_t::push_back takes an element of the
 vector itself

---
 algorithm/__collections.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/algorithm/__collections.h b/algorithm/__collections.h
index b94212f..f3d4624 100644
--- a/algorithm/__collections.h
+++ b/algorithm/__collections.h
@@ -742,11 +742,12 @@ namespace X_ROOT_NS::algorithm {
 
                 std::copy(__array, __array + _init_size, buffer_start);
 
+                buffer_start[_init_size] = value;   // May be an element of the array.
+
                 __buffer_start = buffer_start;
                 __buffer_size = buffer_size;
 
                 __p = __buffer_start + _init_size;
-                *__p = value;
             }
             else
             {
@@ -757,13 +758,16 @@ namespace X_ROOT_NS::algorithm {
 
                     _t * new_buffer = this->__alloc_objs<_t>(__buffer_size);
                     std::copy(__buffer_start, __p, new_buffer);
+                    new_buffer[old_buffer_size] = value;    // May be an element of the buffer.
 
                     this->__free(__buffer_start);
                     __buffer_start = new_buffer;
                     __p = __buffer_start + old_buffer_size;
                 }
-
-                *__p = value;
+                else
+                {
+                    *__p = value;
+                }
             }
 
             return *__p++;
-- 
2.43.0


From 2be65fd3ab745e5cb4ce8aaeecae54fd99829bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:43 +0000
Subject: [PATCH 089/113] fix: svector_t move keeps the memory manager and
 frees the old elements

---
 algorithm/__collections.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/algorithm/__collections.h b/algorithm/__collections.h
index f3d4624..d87dd85 100644
--- a/algorithm/__collections.h
+++ b/algorithm/__collections.h
@@ -677,7 +677,7 @@ namespace X_ROOT_NS::algorithm {
         }
 
         // Move constructor.
-        svector_t(__self_t && v)
+        svector_t(__self_t && v) : memory_base_t(v.__memory)
         {
             if (v.__is_in_array())            
             {
@@ -695,9 +695,14 @@ namespace X_ROOT_NS::algorithm {
             v.__buffer_start = nullptr;
         }
 
-        __self_t operator = (__self_t && v)
+        __self_t & operator = (__self_t && v)
         {
-            new ((void *)this) __self_t(std::forward<__self_t>(v));
+            if (this != &v)
+            {
+                this->~svector_t();
+                new ((void *)this) __self_t(std::forward<__self_t>(v));
+            }
+
             return *this;
         }
 
-- 
2.43.0


From 19355734e069a15daac7b0e993993aa3c713079c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:43 +0000
Subject: [PATCH 090/113] fix: walking a range of a small vector keeps the
 elements after it

---
 algorithm/__collections.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algorithm/__collections.h b/algorithm/__collections.h
index d87dd85..66cc51e 100644
--- a/algorithm/__collections.h
+++ b/algorithm/__collections.h
@@ -1520,14 +1520,14 @@ namespace X_ROOT_NS::algorithm {
             if (!__buffer)
                 return;
 
-            t * out = __buffer + start_index;
-            for (t * obj = out, * end = __buffer + (end_index < 0? __count : end_index);
-                obj < end; obj++)
+            t * out = __buffer + start_index, * obj = out;
+            for (t * end = __buffer + (end_index < 0? __count : end_index); obj < end; obj++)
             {
                 if (pred(*obj))
                     *out++ = *obj;
             }
 
+            out = std::copy(obj, __buffer + __count, out);  // Out of the range, not walked.
             __count = out - __buffer;
         }
 
-- 
2.43.0


From cc822479642bfae2e9cb0df37c55eb12590c17b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:43 +0000
Subject: [PATCH 091/113] fix: xheap_t gives distinct blocks for empty requests

---
 algorithm/collections.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithm/collections.cpp b/algorithm/collections.cpp
index c5b2718..59aedbc 100644
--- a/algorithm/collections.cpp
+++ b/algorithm/collections.cpp
@@ -24,7 +24,7 @@ namespace X_ROOT_NS::algorithm {
     // Allocates memory with specified size. ( memory_t::alloc )
     void * xheap_t::alloc(size_t size, memory_flag_t flag)
     {
-        size_t new_size = _alignf(size);
+        size_t new_size = _alignf(max(size, 1));
         if (new_size > __large_object_size)
         {
             byte_t * bytes = new byte_t[new_size];
-- 
2.43.0


From 457615a75de3e0b4daefeaef6ce3c1efc6569570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:43 +0000
Subject: [PATCH 092/113] fix: incorporate keeps the pointer when the value is
 set

---
 include/algorithm.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/algorithm.h b/include/algorithm.h
index 6fd0f95..89e3466 100644
--- a/include/algorithm.h
+++ b/include/algorithm.h
@@ -826,14 +826,14 @@ namespace X_ROOT_NS::algorithm {
     template<typename _incorp_t, typename _t>
     X_INLINE void set_incorp_p(_t * & p, _t * p1) _NE
     {
-        (__incorp_int_t &)p &= ~__incorp_mask;
+        (__incorp_int_t &)p &= __incorp_mask;
         (__incorp_int_t &)p |= (__incorp_int_t)p1;
     }
 
     template<typename _incorp_t, typename _t>
     X_INLINE void set_incorp_v(_t * & p, _incorp_t v) _NE
     {
-        (__incorp_int_t &)p &= __incorp_mask;
+        (__incorp_int_t &)p &= ~__incorp_mask;
         (__incorp_int_t &)p |= (__incorp_int_t)v;
     }
 
-- 
2.43.0


From d7a1541c90eeab59e0e0ebac8448611facbf5892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:43 +0000
Subject: [PATCH 093/113] fix: character properties of characters at the limit
 of the table

---
 algorithm/__string.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algorithm/__string.h b/algorithm/__string.h
index f814dc5..b4a2043 100644
--- a/algorithm/__string.h
+++ b/algorithm/__string.h
@@ -139,7 +139,7 @@ namespace X_ROOT_NS::algorithm {
     // Returns the digit value of a character.
     X_INLINE int digit_value(char_t c)
     {
-        return __char_properties_t::overlimit(c)? -1 : __char_properties[c].digit_value;
+        return (size_t)c >= __char_properties_t::size? -1 : __char_properties[c].digit_value;
     }
 
     // Returns wheather a character is a digit of specified radix.
@@ -169,13 +169,13 @@ namespace X_ROOT_NS::algorithm {
     // Returns wheather a character is upper case.
     X_INLINE char_t to_upper(char_t c)
     {
-        return __char_properties_t::overlimit(c)? c : __char_properties[c].upper;
+        return (size_t)c >= __char_properties_t::size? c : __char_properties[c].upper;
     }
 
     // Returns wheather a character is lower case.
     X_INLINE char_t to_lower(char_t c)
     {
-        return __char_properties_t::overlimit(c)? c : __char_properties[c].lower;
+        return (size_t)c >= __char_properties_t::size? c : __char_properties[c].lower;
     }
 
     ////////// ////////// ////////// ////////// //////////
-- 
2.43.0


From 3a3b843abefe888b829a6ee039cc01e43ed22f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:43 +0000
Subject: [PATCH 094/113] fix: normalised paths with several relative parts in
 a row

---
 lib/file.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/file.cpp b/lib/file.cpp
index 97d5d22..cca15f5 100644
--- a/lib/file.cpp
+++ b/lib/file.cpp
@@ -270,8 +270,7 @@ namespace X_ROOT_NS::lib {
             p -= 3;
             if (p >= p_start)
             {
-                if (*p == _T('/'))
-                    __jmp_relative(p_start, p);
+                while (p >= p_start && *p == _T('/') && __jmp_relative(p_start, p)) ;
             }
             else
                 throw _EC(format_error);
@@ -292,9 +291,13 @@ namespace X_ROOT_NS::lib {
     void __make_absolute(const char_t * p_start, const char_t * & p, char_t * & out)
     {
         *out-- = _T('\0');
-        __jmp_relative(p_start, p);
+        while (__jmp_relative(p_start, p))
+        {
+            if (p < p_start || *p != _T('/'))
+                break;
+        }
 
-        if (*p == _T('\0') || *p == _T('/'))
+        if (p >= p_start && (*p == _T('\0') || *p == _T('/')))
             p--;
 
         while (p >= p_start)
-- 
2.43.0


From 41d3f4b3eea8fb054c3db80d93e72280f961ef71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:24 +0000
Subject: [PATCH 095/113] fix: an enum member may be defined by an enum
 declared later

---
 modules/core/core.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/core/core.cpp b/modules/core/core.cpp
index fdee662..c25a26a 100644
--- a/modules/core/core.cpp
+++ b/modules/core/core.cpp
@@ -5500,7 +5500,13 @@ namespace X_ROOT_NS::modules::core {
             return cvalue_t::nan;
 
         if (field->init_value == nullptr)
+        {
+            // The value of an enum field is counted later.
+            if (field->host_type != nullptr && is_enum((type_t *)field->host_type))
+                return cvalue_t::nan;
+
             return default_value_of(get_vtype());
+        }
 
         return field->init_value->execute();
     }
-- 
2.43.0


From c063ee86c3d7c8a081835888d0455b7d983caa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:44 +0000
Subject: [PATCH 096/113] fix: 64-bit constants of another assembly that are
 stored in two bytes

Only one of the bytes was read.
---
 modules/core/__assembly_layout.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/__assembly_layout.h b/modules/core/__assembly_layout.h
index 63b65ca..aaf2da3 100644
--- a/modules/core/__assembly_layout.h
+++ b/modules/core/__assembly_layout.h
@@ -1816,7 +1816,7 @@ namespace X_ROOT_NS::modules::core {
             if (!mt.constant_flag.extern_)
             {
                 uint32_t v2 = *(uint32_t *)mt.data2;
-                uint32_t v1 = *(uint32_t *)mt.data1;
+                uint32_t v1 = *(uint16_t *)mt.data1;
 
                 if (mt.constant_flag.cpl)
                     v1 = ~v1;
-- 
2.43.0


From d53445b19b264f5f05082cdc6af3549a9826262f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:44 +0000
Subject: [PATCH 097/113] fix: GetType of null raises a NullReferenceException

---
 modules/rtlib/reflection.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/modules/rtlib/reflection.cpp b/modules/rtlib/reflection.cpp
index c4eb826..a6f2acc 100644
--- a/modules/rtlib/reflection.cpp
+++ b/modules/rtlib/reflection.cpp
@@ -27,6 +27,12 @@ namespace X_ROOT_NS::modules::rtlib {
         __reflection_get_type_args_t * args = ctx.args<__reflection_get_type_args_t>();
 
         void * obj = args->get_object();
+        if (obj == nullptr)
+        {
+            ctx.ret_code = libfunc_ret_code_t::null_reference;
+            return;
+        }
+
         rt_type_t * type = mm::get_object_type(obj);
 
     ctx.return_(type);
@@ -46,6 +52,12 @@ namespace X_ROOT_NS::modules::rtlib {
         __reflection_get_type_name_args_t * args = ctx.args<__reflection_get_type_name_args_t>();
 
         rt_type_t * type = (rt_type_t *)args->get_object();
+        if (type == nullptr)
+        {
+            ctx.ret_code = libfunc_ret_code_t::null_reference;
+            return;
+        }
+
         rt_sid_t name = type->get_name(ctx.analyzer.env);
 
         ctx.return_(new rt_string_t(_T("AAAA"), 4));
-- 
2.43.0


From 7195c29a85b028fbecec26bfb855a462087766fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:44 +0000
Subject: [PATCH 098/113] fix: calling a delegate that was never set raises a
 NullReferenceException

The interpreter asserted.
---
 modules/exec/commands.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index d33c826..956b03f 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -4710,6 +4710,8 @@ namespace X_ROOT_NS::modules::exec {
             xil_call_type_t call_type = (xil_call_type_t)al::incorp_v<int32_t>(method);
             method = al::incorp_p(method);
 
+            __CheckNullReference(ctx, (rt_ref_t)method);
+
             // _P(_T("call delegate"), method->get_name());
 
             exec_method_t * exec_method = ctx.env.exec_method_of(method);
-- 
2.43.0


From 30442894bfe7791688a6596a58174af549574522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:44 +0000
Subject: [PATCH 099/113] fix: a delegate of a virtual or interface method
 calls the method of the object

It called the method named at the creation of the delegate.
---
 modules/exec/commands.cpp | 51 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index 956b03f..0b634fc 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -4365,9 +4365,8 @@ namespace X_ROOT_NS::modules::exec {
 
     template<typename _fetch_t>
     __AlwaysInline exec_method_t * __get_virtual_exec_method(command_execute_context_t & ctx,
-                                                msize_t this_offset, _fetch_t fetch_func)
+                                                rt_ref_t obj, _fetch_t fetch_func)
     {
-        rt_ref_t obj = *(rt_ref_t *)(ctx.stack.top() - this_offset);
         if (obj == nullptr)
             return nullptr;
 
@@ -4398,6 +4397,14 @@ namespace X_ROOT_NS::modules::exec {
         return (exec_method_t *)func.method;
     }
 
+    template<typename _fetch_t>
+    __AlwaysInline exec_method_t * __get_virtual_exec_method(command_execute_context_t & ctx,
+                                                msize_t this_offset, _fetch_t fetch_func)
+    {
+        rt_ref_t obj = *(rt_ref_t *)(ctx.stack.top() - this_offset);
+        return __get_virtual_exec_method(ctx, obj, fetch_func);
+    }
+
     // Normal virtual call command.
     class __virtual_call_command_t : public __command_base_t<__CallCmd(virtual_)>
     {
@@ -4688,6 +4695,41 @@ namespace X_ROOT_NS::modules::exec {
     };
 
 
+    // Returns the method a delegate invokes, virtual methods are determined by the object.
+    static exec_method_t * __get_delegate_exec_method(command_execute_context_t & ctx,
+                                            rt_object_t * object, rt_method_base_t * method)
+    {
+        rt_type_t * host_type = method->get_host_type();
+        ttype_t ttype = host_type->get_ttype(ctx.env);
+
+        bool is_interface = ttype == ttype_t::interface_;
+        bool is_virtual = method->is_virtual() || method->is_override();
+
+        if (!is_interface && !(ttype == ttype_t::class_ && is_virtual))
+            return ctx.env.exec_method_of(method);
+
+        if (object == nullptr)
+            return nullptr;
+
+        ref_t method_ref = ref_t::null;
+        host_type->each_method(ctx.env, [&](ref_t ref, rt_method_base_t * method0) {
+            if (method0 == method)
+                method_ref = ref;
+
+            return method_ref == ref_t::null;
+        });
+
+        if (method_ref == ref_t::null)
+            return ctx.env.exec_method_of(method);
+
+        int offset = __assembly_analyzer(ctx, host_type).get_virtual_method_offset(method_ref);
+
+        return __get_virtual_exec_method(ctx, object, [=](rt_vtable_t * vtbl) {
+            return is_interface? vtbl->search_vtable_interface_function(host_type, offset)
+                               : vtbl->functions[offset];
+        });
+    }
+
     // - - - - - - - - - - - - - - - - - - - - - - - - - -
     // delegate invoke call command.
 
@@ -4714,7 +4756,10 @@ namespace X_ROOT_NS::modules::exec {
 
             // _P(_T("call delegate"), method->get_name());
 
-            exec_method_t * exec_method = ctx.env.exec_method_of(method);
+            exec_method_t * exec_method = (call_type == xil_call_type_t::instance)?
+                ctx.env.exec_method_of(method) : __get_delegate_exec_method(ctx, object, method);
+
+            __CheckNullReference(ctx, (rt_ref_t)exec_method);
 
             __Argument(rt_object_t *, __this_offset) = object;
             ctx.switch_to(exec_method);
-- 
2.43.0


From c9f40b472741d07a850c8f149b77cbdc990bd1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:44 +0000
Subject: [PATCH 100/113] fix: a delegate of an overloaded method

The exception thrown for the conflict was not the one caught, so the compiler aborted.
---
 modules/compile/ast_utils.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/modules/compile/ast_utils.cpp b/modules/compile/ast_utils.cpp
index 8c3753a..f91ded6 100644
--- a/modules/compile/ast_utils.cpp
+++ b/modules/compile/ast_utils.cpp
@@ -1385,13 +1385,13 @@ namespace X_ROOT_NS::modules::compile {
             _A(name_exp != nullptr);
 
             type_t * context_type = pick_type_from_current_context(name_exp);
-            al::assign(out_context_type, context_type);
+            al::assign_value(out_context_type, context_type);
 
             if (context_type == nullptr)
                 return nullptr;
 
             atypes_t atypes;
-            type_t * return_type;
+            type_t * return_type = nullptr;
 
             __pick_argument_types_from_context_type(context_type, atypes, &return_type);
 
@@ -1440,12 +1440,27 @@ namespace X_ROOT_NS::modules::compile {
                     member = __XPool.new_generic_type(template_, args, type);
                     __wctx.commit_types();
                 }
+                else if (member->this_type() == member_type_t::method)
+                {
+                    // The method nearest is found by its name, a base type may declare the overload
+                    // that the delegate needs.
+                    type_t * context_type = pick_type_from_current_context(name_exp);
+
+                    if (context_type != nullptr
+                        && __try_fetch_delegate_type(context_type) != nullptr)
+                    {
+                        method_t * method = __pick_method_from_current_context(type, name_exp);
+
+                        if (method != nullptr)
+                            member = method;
+                    }
+                }
 
                 return true;
             }
-            catch (const logic_error_t<common_error_code_t> & e)
+            catch (const method_compare_error_t & e)
             {
-                if (e.code == common_error_code_t::conflict)
+                if (e.error_code == method_compare_error_code_t::conflict)
                 {
                     try
                     {
@@ -1459,7 +1474,7 @@ namespace X_ROOT_NS::modules::compile {
 
                         return true;
                     }
-                    catch (const logic_error_t<common_error_code_t> & e)
+                    catch (const method_compare_error_t & e)
                     {
                         ast_log(__cctx, name_exp, __c_t::method_conflict, name, type, _T(""));
                         return false;
-- 
2.43.0


From c560ce104bb7a6fee03f99c75d43e79466c46f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:44 +0000
Subject: [PATCH 101/113] fix: inherited fields and properties by their simple
 name

Only members of the class itself were found.
---
 modules/compile/ast_utils.cpp | 56 ++++++++++++++++++++++++++++++++++-
 1 file changed, 55 insertions(+), 1 deletion(-)

diff --git a/modules/compile/ast_utils.cpp b/modules/compile/ast_utils.cpp
index f91ded6..305f597 100644
--- a/modules/compile/ast_utils.cpp
+++ b/modules/compile/ast_utils.cpp
@@ -1045,11 +1045,33 @@ namespace X_ROOT_NS::modules::compile {
             }
             else
             {
-                if (!__walk_type(name_exp))
+                if (!__walk_inherited(name_exp) && !__walk_type(name_exp))
                     ast_log(__cctx, name_exp, __c_t::variable_undefined, name);
             }
         }
 
+        // Walks name expression of a field, property or event inherited from the base types.
+        bool __walk_inherited(name_expression_t * name_exp)
+        {
+            type_t * type = __wctx.current_type();
+            type_t * base_type = (type != nullptr)? type->get_base_type() : nullptr;
+
+            if (base_type == nullptr)
+                return false;
+
+            member_t * member = nullptr;
+            variable_t * variable = __member_variable(base_type, name_exp->name, &member);
+            if (variable == nullptr)
+                return false;
+
+            name_exp->set(variable);
+
+            if (!check_access(type, member))
+                ast_log(__cctx, name_exp, __c_t::inaccessible_protection_level, name_exp);
+
+            return true;
+        }
+
         // Walks name_unit expression.
         void __walk_name_unit(name_unit_expression_t * name_unit_exp)
         {
@@ -1565,6 +1587,38 @@ namespace X_ROOT_NS::modules::compile {
             return __exp2_walked_t::yes;
         }
 
+        // Returns the variable of a field, property or event, includes the inherited.
+        variable_t * __member_variable(type_t * type, name_t name, member_t ** out_member = nullptr)
+        {
+            if (type == nullptr)
+                return nullptr;
+
+            analyze_member_args_t args(
+                bit_or(member_type_t::field, member_type_t::property, member_type_t::event), name
+            );
+
+            member_t * member = type->get_member(args, true);
+            if (member == nullptr)
+                return nullptr;
+
+            al::assign_value(out_member, member);
+
+            switch (member->this_type())
+            {
+                case member_type_t::property:
+                    return ((property_t *)member)->variable;
+
+                case member_type_t::field:
+                    return ((field_t *)member)->variable;
+
+                case member_type_t::event:
+                    return ((event_t *)member)->variable;
+
+                default:
+                    return nullptr;
+            }
+        }
+
         // Walks function.
         void __walk_function(function_expression_t * function_exp, type_t * type = nullptr)
         {
-- 
2.43.0


From 2b1b5937fd99063bfa2f9fdedc24ee280bae1b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:44 +0000
Subject: [PATCH 102/113] fix: static properties, and members of properties, by
 simple name

A static property was refused or called with an object when its simple name was used in an
instance method, and P.x was compiled as if P were a member of itself.
---
 modules/compile/expression.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 6523f46..f0edb5e 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -1221,7 +1221,8 @@ namespace X_ROOT_NS::modules::compile {
         switch (var->this_type())
         {
             case variable_type_t::property:
-                __push_this(ctx, pool, this_exp);
+                if (this_exp != nullptr || !((property_variable_t *)var)->property->is_static())
+                    __push_this(ctx, pool, this_exp);
                 break;
 
             case variable_type_t::property_index: {
@@ -1986,9 +1987,9 @@ namespace X_ROOT_NS::modules::compile {
             return;
 
         expression_t * left_exp;
-        bool has_instance;
+        bool has_instance, qualified = __is_right_member(owner_exp->parent, owner_exp, &left_exp);
 
-        if (__is_member_expression(owner_exp->parent, &left_exp))
+        if (qualified)
             has_instance = __is_instance(left_exp);
         else
             has_instance = !ctx.statement_ctx.method->is_static();
@@ -1998,7 +1999,7 @@ namespace X_ROOT_NS::modules::compile {
 
         // _P(_T("__check_static_member"), owner_exp, variable, is_static, has_instance);
 
-        if (is_static && has_instance)
+        if (is_static && qualified && has_instance)
             __Failed("instance reference '%1%' cannot be accessed on static member '%2%'",
                                                                         left_exp, member);
 
@@ -2028,7 +2029,7 @@ namespace X_ROOT_NS::modules::compile {
 
         expression_t * exp1;
 
-        if (__is_member_expression(owner_exp->parent, &exp1))
+        if (__is_right_member(owner_exp->parent, owner_exp, &exp1))
             exp1->compile(ctx, pool);
         else if (!is_static)
             pool.append<x_push_this_ref_xil_t>();
-- 
2.43.0


From fd08eeeea167b2e3468b88d8af52c7fceb4ef3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:44 +0000
Subject: [PATCH 103/113] fix: a delegate of an instance method given by its
 simple name has its object

Nothing was pushed for the object, so that the stack was broken.
---
 modules/compile/expression.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index f0edb5e..3d69bb8 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -2093,6 +2093,12 @@ namespace X_ROOT_NS::modules::compile {
             }   break;
 
             case variable_type_t::method:
+                if (!((method_variable_t *)variable)->method->is_static()
+                        && !__is_right_member(owner_exp->parent, owner_exp))
+                {
+                    pool.append<x_push_this_ref_xil_t>();
+                }
+
                 __compile_method_variable(ctx, pool, (method_variable_t *)variable, env,
                     __left_is_base(owner_exp->parent)? xil_call_type_t::instance
                                                      : xil_call_type_t::empty
-- 
2.43.0


From c22f1cdbd4b8e78c3a6494a18f83d3989e73119f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:44 +0000
Subject: [PATCH 104/113] fix: o.F() calls the member F whatever a local is
 called, and delegate fields of an object

A local variable named F was called instead of the method, and a call of a delegate field by
this.F() or o.F() failed.
---
 modules/compile/ast_utils.cpp  | 35 ++++++++++++++++++++++++++++++++--
 modules/compile/expression.cpp |  5 +++++
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/modules/compile/ast_utils.cpp b/modules/compile/ast_utils.cpp
index 305f597..b940156 100644
--- a/modules/compile/ast_utils.cpp
+++ b/modules/compile/ast_utils.cpp
@@ -1587,6 +1587,38 @@ namespace X_ROOT_NS::modules::compile {
             return __exp2_walked_t::yes;
         }
 
+        // Returns the variable (a delegate) called by the function expression, nullptr if none.
+        variable_t * __function_variable(type_t * type, name_t name)
+        {
+            variable_t * variable = nullptr;
+
+            if (type == nullptr)    // by its simple name
+            {
+                if (__region != nullptr)
+                    variable = __region->get(name);
+
+                if (variable == nullptr)
+                {
+                    type_t * current_type = __wctx.current_type();
+                    if (current_type != nullptr)
+                        variable = __member_variable(current_type->get_base_type(), name);
+                }
+            }
+            else
+            {
+                variable = __member_variable(type, name);
+            }
+
+            if (variable == nullptr || variable->this_type() == variable_type_t::method)
+                return nullptr;
+
+            member_t * member = variable->get_relation_member();
+            if (member != nullptr && __try_fetch_delegate_type(variable->get_type()) == nullptr)
+                return nullptr;
+
+            return variable;
+        }
+
         // Returns the variable of a field, property or event, includes the inherited.
         variable_t * __member_variable(type_t * type, name_t name, member_t ** out_member = nullptr)
         {
@@ -1633,8 +1665,7 @@ namespace X_ROOT_NS::modules::compile {
                     name_expression_t * name_exp = (name_expression_t *)namex_exp;
                     variable_t * variable;
 
-                    if (__region != nullptr && (variable = __region->get(name_exp->name)) != nullptr
-                                && variable->this_type() != variable_type_t::method)
+                    if ((variable = __function_variable(type, name_exp->name)) != nullptr)
                     {
                         function_exp->set_variable(variable);
                         __walk_arguments(function_exp->arguments());
diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 3d69bb8..6328e19 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -2908,6 +2908,11 @@ namespace X_ROOT_NS::modules::compile {
         if (template_ != __XPool.get_delegate_type())
             __Failed("delegate type error, should be System.Deletate<...>, but not %1%", gtype);
 
+        expression_t * owner_exp;
+        if (variable->this_type() == variable_type_t::field
+                                        && __is_right_member(this->parent, this, &owner_exp))
+            owner_exp->compile(ctx, pool);
+
         __compile_variable(ctx, pool, variable, xil_type_t::ptr, this);
 
         analyze_member_args_t args(member_type_t::method, __XPool.to_name(_T("Invoke")));
-- 
2.43.0


From 5222ad3cc8aecdd30bc0495e3cd663d0bdaa792c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:44 +0000
Subject: [PATCH 105/113] fix: this, base and instance members in a static
 method are reported

The program was compiled and then failed in the compiler or at run time.
---
 modules/compile/__ast.h       |  3 +++
 modules/compile/ast.cpp       |  4 ++++
 modules/compile/ast_utils.cpp | 29 +++++++++++++++++++++++++++++
 3 files changed, 36 insertions(+)

diff --git a/modules/compile/__ast.h b/modules/compile/__ast.h
index 55ac590..4b9b63c 100644
--- a/modules/compile/__ast.h
+++ b/modules/compile/__ast.h
@@ -837,6 +837,9 @@ namespace X_ROOT_NS::modules::compile {
         // Class1<T>' does not define type parameter 'K'
         generic_parameter_not_defined,
 
+        // An object reference is required, but there is no current object in a static member.
+        object_reference_required,
+
 
         __the_end__         = 10000,
 
diff --git a/modules/compile/ast.cpp b/modules/compile/ast.cpp
index 5dcdc74..6d0ae7a 100644
--- a/modules/compile/ast.cpp
+++ b/modules/compile/ast.cpp
@@ -662,6 +662,10 @@ namespace X_ROOT_NS::modules::compile {
         X_D(generic_parameter_not_defined,
             _T("%1%' does not define type parameter '%2%'"))
 
+        // An object reference is required, but there is no current object in a static member.
+        X_D(object_reference_required,
+                _T("An object reference is required for '%1%' in the static member '%2%'"))
+
     X_ENUM_INFO_END
 
     ////////// ////////// ////////// ////////// //////////
diff --git a/modules/compile/ast_utils.cpp b/modules/compile/ast_utils.cpp
index b940156..f7da727 100644
--- a/modules/compile/ast_utils.cpp
+++ b/modules/compile/ast_utils.cpp
@@ -961,6 +961,7 @@ namespace X_ROOT_NS::modules::compile {
 
                 case expression_family_t::this_:
                     ((this_expression_t *)exp)->set_type(__wctx.current_type());
+                    __check_this(exp);
                     __each(exp);
                     break;
 
@@ -971,6 +972,7 @@ namespace X_ROOT_NS::modules::compile {
                     else
                         ((base_expression_t *)exp)->set_type(base_type);
 
+                    __check_this(exp);
                     __each(exp);
                 }   break;
 
@@ -1042,6 +1044,8 @@ namespace X_ROOT_NS::modules::compile {
                 {
                     name_exp->set(variable);
                 }
+
+                __check_this(name_exp, variable->get_relation_member());
             }
             else
             {
@@ -1050,6 +1054,22 @@ namespace X_ROOT_NS::modules::compile {
             }
         }
 
+        // Checks whether there is a current object, if the member (or this, base) requires it.
+        void __check_this(expression_t * exp, member_t * member)
+        {
+            if (member != nullptr && !member->is_static())
+                __check_this(exp);
+        }
+
+        // Checks whether there is a current object.
+        void __check_this(expression_t * exp)
+        {
+            method_t * method = __wctx.current_method();
+
+            if (method != nullptr && method->is_static())
+                ast_log(__cctx, exp, __c_t::object_reference_required, exp, method);
+        }
+
         // Walks name expression of a field, property or event inherited from the base types.
         bool __walk_inherited(name_expression_t * name_exp)
         {
@@ -1069,6 +1089,8 @@ namespace X_ROOT_NS::modules::compile {
             if (!check_access(type, member))
                 ast_log(__cctx, name_exp, __c_t::inaccessible_protection_level, name_exp);
 
+            __check_this(name_exp, member);
+
             return true;
         }
 
@@ -1668,11 +1690,18 @@ namespace X_ROOT_NS::modules::compile {
                     if ((variable = __function_variable(type, name_exp->name)) != nullptr)
                     {
                         function_exp->set_variable(variable);
+
+                        if (type == nullptr)
+                            __check_this(function_exp, variable->get_relation_member());
+
                         __walk_arguments(function_exp->arguments());
                     }
                     else
                     {
                         __walk_method(type, ((name_expression_t *)namex_exp)->name, function_exp);
+
+                        if (type == nullptr && function_exp->get_method() != nullptr)
+                            __check_this(function_exp, to_general(function_exp->get_method()));
                     }
                 }   return;
 
-- 
2.43.0


From 97d4b303c6b6fa935a6222fdd0de602f4a772c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:44 +0000
Subject: [PATCH 106/113] fix: throw; throws the exception that was caught
 again

It was compiled to a command that does nothing, so the handler went on after it.
---
 modules/compile/__ast.h        |  3 +++
 modules/compile/__statements.h |  3 +++
 modules/compile/ast.cpp        | 28 ++++++++++++++++++++++++++++
 modules/compile/statements.cpp |  9 +++++++++
 4 files changed, 43 insertions(+)

diff --git a/modules/compile/__ast.h b/modules/compile/__ast.h
index 4b9b63c..7abe43f 100644
--- a/modules/compile/__ast.h
+++ b/modules/compile/__ast.h
@@ -840,6 +840,9 @@ namespace X_ROOT_NS::modules::compile {
         // An object reference is required, but there is no current object in a static member.
         object_reference_required,
 
+        // A throw statement with no arguments is not allowed outside of a catch clause.
+        rethrow_outside_catch,
+
 
         __the_end__         = 10000,
 
diff --git a/modules/compile/__statements.h b/modules/compile/__statements.h
index a037d51..bb00ec3 100644
--- a/modules/compile/__statements.h
+++ b/modules/compile/__statements.h
@@ -512,6 +512,9 @@ namespace X_ROOT_NS::modules::compile {
 
         variable_t  *   variable    =   nullptr;        // Variable object.
 
+        // Variable for rethrowing the exception, it's written only when a statement rethrows it.
+        variable_t  *   rethrow_variable    =   nullptr;
+
         X_TO_STRING
     };
 
diff --git a/modules/compile/ast.cpp b/modules/compile/ast.cpp
index 6d0ae7a..564bbe2 100644
--- a/modules/compile/ast.cpp
+++ b/modules/compile/ast.cpp
@@ -666,6 +666,10 @@ namespace X_ROOT_NS::modules::compile {
         X_D(object_reference_required,
                 _T("An object reference is required for '%1%' in the static member '%2%'"))
 
+        // A throw statement with no arguments is not allowed outside of a catch clause.
+        X_D(rethrow_outside_catch,
+                _T("A throw statement with no arguments is not allowed outside of a catch clause"))
+
     X_ENUM_INFO_END
 
     ////////// ////////// ////////// ////////// //////////
@@ -4073,6 +4077,9 @@ namespace X_ROOT_NS::modules::compile {
     ////////// ////////// ////////// ////////// //////////
     // throw_st
 
+    // Name of the variable that holds the exception caught, for rethrowing it.
+    #define __RethrowVariableName   _T("__catch_exception_rethrow_variable__")
+
     // Commits this node.
     void throw_st_ast_node_t::on_commit()
     {
@@ -4088,6 +4095,24 @@ namespace X_ROOT_NS::modules::compile {
     // Walks this node.
     bool throw_st_ast_node_t::on_walk(ast_walk_context_t & context, int step, void * tag)
     {
+        // Throws the exception that the catch statement caught.
+        if (this->expression == nullptr)
+        {
+            variable_t * variable = context.current_region()->get(
+                __XPool.to_name(__RethrowVariableName)
+            );
+
+            if (variable == nullptr)
+            {
+                ast_log(this->__context, this, __c_t::rethrow_outside_catch);
+            }
+            else
+            {
+                variable->write_count++;
+                this->expression = __XPool.new_obj<system_expression_t<name_expression_t>>(variable);
+            }
+        }
+
         return __super_t::on_walk(context, step, tag);
     }
 
@@ -4486,6 +4511,9 @@ namespace X_ROOT_NS::modules::compile {
 
         variable_defination_t vd(this->__context, context, __variable_el);
         this->variable = vd.define_local(this->type_name, this->name);
+        this->rethrow_variable = vd.define_local(
+            this->type_name, __XPool.to_name(__RethrowVariableName)
+        );
 
         bool r = __super_t::on_walk(context, step, tag);
 
diff --git a/modules/compile/statements.cpp b/modules/compile/statements.cpp
index 8c88386..6a75a93 100644
--- a/modules/compile/statements.cpp
+++ b/modules/compile/statements.cpp
@@ -1661,6 +1661,15 @@ namespace X_ROOT_NS::modules::compile {
 
             append_local_label(ctx, label_catch);
             xilx::append_xilx<pop_variable_xilx_t>(ctx, c->variable);
+
+            if (c->rethrow_variable != nullptr && c->rethrow_variable->write_count > 0)
+            {
+                typedef system_expression_t<name_expression_t> name_exp_t;
+
+                append_expression(ctx, __XPool.new_obj<name_exp_t>(c->variable), true);
+                xilx::append_xilx<pop_variable_xilx_t>(ctx, c->rethrow_variable);
+            }
+
             compile_statement(ctx, c->body);
 
             if (__statement_pass(ctx, c->body))
-- 
2.43.0


From c59db4cda60dc41b1fbef47a7b72961a5a0d8c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:41 +0000
Subject: [PATCH 107/113] fix: an exception that leaves a finally block ends
 what the block was executed for

The blocks left in its group were executed after it all the same.
---
 include/modules/exec.h    | 26 +++++++++++++++++++++++++-
 modules/exec/commands.cpp |  2 ++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/include/modules/exec.h b/include/modules/exec.h
index 8a89874..5d6bdcf 100644
--- a/include/modules/exec.h
+++ b/include/modules/exec.h
@@ -664,6 +664,9 @@ namespace X_ROOT_NS::modules::exec {
         // Group identity.
         __identity_t identity;
 
+        // Number of the group it was enqueued with.
+        size_t group = 0;
+
         // Block.
         exec_method_block_t * block;
 
@@ -738,6 +741,7 @@ namespace X_ROOT_NS::modules::exec {
             __old_head = this->head;
             __current  = nullptr;
             __identity = identity;
+            __group++;
         }
 
         // The end of a group.
@@ -776,6 +780,24 @@ namespace X_ROOT_NS::modules::exec {
             }
         }
 
+        // Removes the nodes left in the group, happened when throws exceptions in finally block.
+        __AlwaysInline void remove_group(size_t group) _NE
+        {
+            for (__node_t ** p = &this->head; *p != nullptr; )
+            {
+                __node_t * node = *p;
+                if (node->group == group)
+                {
+                    *p = node->next;
+                    this->__release_node(node);
+                }
+                else
+                {
+                    p = &node->next;
+                }
+            }
+        }
+
         // Returns last node that enqueue.
         __AlwaysInline __node_t * last_current() _NE
         {
@@ -867,6 +889,7 @@ namespace X_ROOT_NS::modules::exec {
         __node_t * __executing = nullptr;
 
         __identity_t __identity;
+        size_t __group = 0;
 
         // Enqueue a block.
         __AlwaysInline void __enque(__block_t * block, exception_node_t * exception_node) _NE
@@ -874,7 +897,8 @@ namespace X_ROOT_NS::modules::exec {
             _A(block != nullptr);
 
             __node_t * node = this->__acquire_node(__identity, block, exception_node);
-            node->next = nullptr;
+            node->next  = nullptr;
+            node->group = __group;
 
             if (__current == nullptr)
             {
diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index 0b634fc..f636aa3 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -5987,7 +5987,9 @@ namespace X_ROOT_NS::modules::exec {
             if (executing->unwinding)
                 ctx.exception_stack.remove_next(node);
 
+            size_t group = executing->group;
             ctx.block_queue.pop_executing();
+            ctx.block_queue.remove_group(group);
         }
 
         if (catch_block != nullptr)
-- 
2.43.0


From 22a9ba2b31df6540799a8da433e927f9532cf49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:09 +0000
Subject: [PATCH 108/113] fix: local structs with references keep apart, and
 locals of many scopes are laid out in linear time

The layout of local variables visited every later scope from every earlier
one, so its time doubled with every pair of sibling scopes, and structs with
references of nested scopes were placed one over the other.
---
 modules/rt/__layout.h |  52 ++------------
 modules/rt/layout.cpp | 161 +++++++-----------------------------------
 2 files changed, 30 insertions(+), 183 deletions(-)

diff --git a/modules/rt/__layout.h b/modules/rt/__layout.h
index 3e2a71b..e6f3f05 100644
--- a/modules/rt/__layout.h
+++ b/modules/rt/__layout.h
@@ -323,30 +323,8 @@ namespace X_ROOT_NS::modules::rt {
         };
 
         msize_t __local_unit_size = 0;      // Local unit size.
-        static const msize_t __empty_msize = max_value<msize_t>();
-
         al::heap_t<__item_t> __items;
 
-        // Local variable partial.
-        struct __partial_t
-        {
-            // Constructor.
-            __partial_t(msize_t index, msize_t begin)
-                : index(index), begin(begin) { }
-
-            msize_t index, begin;
-            msize_t offset = 0;
-
-            // Converts to string.
-            operator string_t() const
-            {
-                return _F(_T("index: %1%, offset: %2%"), index, offset);
-            }
-        };
-
-        typedef al::svector_t<__partial_t *, 16> __partials_t;
-        typedef typename __partials_t::iterator __partial_iterator_t;
-
         // Local variable group.
         struct __group_t
         {
@@ -355,44 +333,26 @@ namespace X_ROOT_NS::modules::rt {
 
             __self_t * __owner;
             msize_t __index = 0;
-            bool __is_reset = true;
             storage_type_t storage_type;
 
             __vector_t<__item_t *> items;
-            __partials_t partials;
 
         } __groups[(size_t)storage_type_t::__end__];
 
-        typedef typename __vector_t<__item_t *>::iterator __item_iterator_t;
-        al::heap_t<__partial_t> __partial_heap;
-
         // Finds reset index.
         msize_t __find_reset_index(msize_t index, storage_type_t storage_type);
 
         // Returns current identity.
         msize_t __current_identity() { return __items.size(); }
 
-        // Arrange variables.
-        template<typename _f_t, typename _caller_t>
-        msize_t __arrange_variables_f(__group_t & g, msize_t offset,
-                    __partial_iterator_t it_begin, __partial_iterator_t it_end,
-                    _f_t f, _caller_t caller);
-
-        // Arrange variables.
-        msize_t __arrange_variables(__group_t & g, msize_t offset,
-                    __partial_iterator_t it_begin, __partial_iterator_t it_end);
-
-        // Arrange mixture variables.
-        msize_t __arrange_mixture_variables(__group_t & g, msize_t offset,
-                    __partial_iterator_t it_begin, __partial_iterator_t it_end);
+        // Sets offset of the variable, returns the end of it.
+        msize_t __set_offset(__item_t * item, msize_t offset);
 
-        // The min index of specified local variable sequences.
-        msize_t __min_index(__partial_iterator_t it_begin,
-                    __partial_iterator_t it_end, msize_t * out_end);
+        // Arrange variables, variables that are not alive at the same time share their space.
+        msize_t __arrange_variables(__group_t & g, msize_t offset);
 
-        // Sets offset.
-        msize_t __set_offsets(msize_t offset,
-                    __item_iterator_t it_begin, __item_iterator_t it_end);
+        // Arrange mixture variables, they do not share their space.
+        msize_t __arrange_mixture_variables(__group_t & g, msize_t offset);
 
         // Each variable items.
         template<typename f_t> void each(f_t f)
diff --git a/modules/rt/layout.cpp b/modules/rt/layout.cpp
index 672afaa..03c4f3f 100644
--- a/modules/rt/layout.cpp
+++ b/modules/rt/layout.cpp
@@ -503,23 +503,12 @@ namespace X_ROOT_NS::modules::rt {
     {
         item->new_index = __index++;
         items.push_back(item);
-
-        if (__is_reset)
-        {
-            __is_reset = false;
-            msize_t new_index = item->new_index;
-
-            partials.push_back(
-                __owner->__partial_heap.new_obj(new_index, items.size() - 1)
-            );
-        }
     }
 
     // Resets the index.
     void locals_layout_t::__group_t::reset(msize_t index)
     {
         __index = index;
-        __is_reset = true;
     }
 
     // Commits it.
@@ -535,15 +524,11 @@ namespace X_ROOT_NS::modules::rt {
                 {
                     case storage_type_t::ref:
                     case storage_type_t::value:
-                        offset = __arrange_variables(
-                            g, offset, g.partials.begin(), g.partials.end()
-                        );
+                        offset = __arrange_variables(g, offset);
                         break;
 
                     case storage_type_t::mixture:
-                        offset = __arrange_mixture_variables(
-                            g, offset, g.partials.begin(), g.partials.end()
-                        );
+                        offset = __arrange_mixture_variables(g, offset);
                         break;
 
                     default:
@@ -555,141 +540,43 @@ namespace X_ROOT_NS::modules::rt {
         __local_unit_size = unit_align(offset, sizeof(rt_stack_unit_t)) / sizeof(rt_stack_unit_t);
     }
 
-    // Arrange variables.
-    template<typename _f_t, typename _caller_t>
-    msize_t locals_layout_t::__arrange_variables_f(__group_t & g,
-            msize_t offset, __partial_iterator_t it_begin, __partial_iterator_t it_end,
-            _f_t f, _caller_t caller)
-    {
-        __partial_t * partial = *it_begin;
-
-        msize_t end_idx;
-        msize_t child_index = __min_index(it_begin, it_end, &end_idx);
-
-        __item_iterator_t begin = g.items.begin() + partial->begin;
-        __item_iterator_t end   = (child_index != __empty_msize)?
-                  begin + (child_index - partial->index)
-                : (end_idx != __empty_msize)? g.items.begin() + end_idx : g.items.end();
-
-        msize_t new_offset = f(offset, begin, end);
-
-        if (child_index != __empty_msize)
-        {
-            msize_t max_offset = 0;
-
-            __partial_t bk = **it_begin;
-            **it_begin = __partial_t(child_index, end - g.items.begin());
-            max_offset = al::max(max_offset, caller(g, new_offset, it_begin, it_end));
-            **it_begin = bk;
-
-            for (__partial_iterator_t it = it_begin + 1; it < it_end; it++)
-            {
-                __partial_t * partial1 = *it;
-                if (partial1->index <= partial->index)
-                    break;
-
-                if (partial1->index == child_index)
-                    max_offset = al::max(max_offset, caller(g, new_offset, it, it_end));
-            }
-
-            return al::max(new_offset, max_offset);
-        }
-
-        if (it_begin + 1 < it_end)
-        {
-            return al::max(new_offset,
-                __arrange_variables_f(g, offset, it_begin + 1, it_end, f, caller)
-            );
-        }
-
-        return new_offset;
-    }
-
-    // Arrange variables.
-    msize_t locals_layout_t::__arrange_variables(__group_t & g,
-            msize_t offset, __partial_iterator_t it_begin, __partial_iterator_t it_end)
-    {
-        using namespace std::placeholders;
-        return __arrange_variables_f(g, offset, it_begin, it_end,
-            std::bind(&locals_layout_t::__set_offsets, this, _1, _2, _3),
-            std::bind(&locals_layout_t::__arrange_variables, this, _1, _2, _3, _4)
-        );
-    }
-
-    // Arrange mixture variables.
-    msize_t locals_layout_t::__arrange_mixture_variables(__group_t & g,
-        msize_t offset, __partial_iterator_t it_begin, __partial_iterator_t it_end)
+    // Sets offset of the variable, returns the end of it.
+    msize_t locals_layout_t::__set_offset(__item_t * item, msize_t offset)
     {
-        using namespace std::placeholders;
-        __vector_t<__item_t *> items;
+        msize_t unit = sizeof(rt_stack_unit_t);
+        while (unit > 1 && unit > item->size)
+            unit /= 2;
 
-        __arrange_variables_f(g, 0, it_begin, it_end, [&](msize_t offset,
-            __item_iterator_t it_begin, __item_iterator_t it_end) {
-            return std::copy(it_begin, it_end, std::back_inserter(items)), 0;
-        }, std::bind(&locals_layout_t::__arrange_mixture_variables, this, _1, _2, _3, _4));
-
-        return __set_offsets(offset, items.begin(), items.end());
+        item->offset = unit_align(offset, unit);
+        return item->offset + item->size;
     }
 
-    // The min index of specified local variable sequences.
-    msize_t locals_layout_t::__min_index(__partial_iterator_t it_begin,
-                                         __partial_iterator_t it_end, msize_t * out_end)
+    // Arrange variables, variables that are not alive at the same time share their space.
+    msize_t locals_layout_t::__arrange_variables(__group_t & g, msize_t offset)
     {
-        __partial_t * partial = *it_begin;
+        std::vector<__item_t *> alives;
+        msize_t max_offset = offset;
 
-        msize_t min_index = __empty_msize;
-        for (__partial_iterator_t it = it_begin + 1; it < it_end; it++)
+        for (__item_t * item : g.items)
         {
-            __partial_t * partial1 = *it;
+            while (!alives.empty() && alives.back()->new_index >= item->new_index)
+                alives.pop_back();
 
-            if (partial1->index <= partial->index)
-            {
-                *out_end = partial1->begin;
-                return min_index;
-            }
+            msize_t begin = alives.empty()? offset : alives.back()->offset + alives.back()->size;
+            max_offset = al::max(max_offset, __set_offset(item, begin));
 
-            min_index = al::min(partial1->index, min_index);
+            alives.push_back(item);
         }
 
-        *out_end = __empty_msize;
-        return min_index;
+        return max_offset;
     }
 
-    // Sets offset.
-    msize_t locals_layout_t::__set_offsets(msize_t offset,
-                            __item_iterator_t it_begin, __item_iterator_t it_end)
+    // Arrange mixture variables, they do not share their space.
+    msize_t locals_layout_t::__arrange_mixture_variables(__group_t & g, msize_t offset)
     {
-        //_PF(_T("__set_offsets: %1%, %2%"), (*it_begin)->identity, (*(it_end - 1))->identity);
-
-        std::sort(it_begin, it_end, [](__item_t * it1, __item_t * it2) {
-            return it1->size > it2->size;
-        });
-
-        msize_t offset_aligned = unit_align(offset, (*it_begin)->size);
-
-        for (; it_end > it_begin + 1 && !unit_is_aligned(offset, (*it_begin)->size); )
-        {
-            __item_t * it = *(it_end - 1);
-            msize_t offset0 = unit_align(offset, it->size) + it->size;
-            if (offset0 <= offset_aligned)
-            {
-                it->offset = offset;
-                offset = offset0;
-                //_PF(_T("* %1%: size %2% offset %3%"), it->identity, it->size, it->offset);
-                it_end--;
-            }
-
-            if (offset0 >= offset_aligned)
-                break;
-        }
-
-        for (__item_iterator_t it = it_begin; it < it_end; it++)
+        for (__item_t * item : g.items)
         {
-            msize_t size = (*it)->size;
-            (*it)->offset = offset;
-
-            offset = unit_align(offset, size) + size;
-            //_PF(_T("# %1%: size %2% offset %3%"), (*it)->identity, size, (*it)->offset);
+            offset = __set_offset(item, offset);
         }
 
         return offset;
-- 
2.43.0


From 847a01e371c9b90e432e96bd4e041664f9d5ed19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:48 +0000
Subject: [PATCH 109/113] fix: constants of different types or signs are kept
 apart in an assembly

A constant 0ul shared the record of a constant 0 of another type, so that a
program that read it from the compiled library got a value of the wrong
type; -0.0 shared the record of 0.0.
---
 include/modules/core.h           | 30 +++++++-----------------------
 modules/core/__assembly_layout.h |  6 +++++-
 modules/core/assembly_reader.cpp |  2 +-
 modules/core/core.cpp            | 31 +++++++++++++++++++++++++++----
 4 files changed, 40 insertions(+), 29 deletions(-)

diff --git a/include/modules/core.h b/include/modules/core.h
index 02c2aaf..ac661ca 100644
--- a/include/modules/core.h
+++ b/include/modules/core.h
@@ -1716,6 +1716,12 @@ namespace X_ROOT_NS::modules::core {
         X_TO_STRING
     };
 
+    // Orders constant values, values of different types or with different signs are different.
+    struct cvalue_less_t
+    {
+        bool operator () (const cvalue_t & v1, const cvalue_t & v2) const _NE;
+    };
+
     // Converts a type_t to constant value.
     X_INLINE cvalue_t to_cvalue(type_t * type) _NE
     {
@@ -5140,30 +5146,8 @@ namespace X_ROOT_NS::modules::core {
         // decorate_value_t -> decorate_t * cache.
         std::map<decorate_value_t, decorate_t *> __decorate_map;
 
-        class __cvalue_t : public cvalue_t
-        {
-        public:
-            __cvalue_t(const cvalue_t & value)
-            {
-                *(cvalue_t *)this = value;
-            }
-
-            bool operator < (const __cvalue_t & other) const
-            {
-                if (value_type == cvalue_type_t::number && other.value_type == cvalue_type_t::number)
-                {
-                    if (number.type != other.number.type)
-                        return number.type < other.number.type;
-
-                    return number < other.number;
-                }
-
-                return *(cvalue_t *)this < *(cvalue_t *)&other;
-            }
-        };
-
         // cvalue_t -> cvalue_expression_t * cache.
-        std::map<__cvalue_t, cvalue_expression_t *> __cvalue_expression_map;
+        std::map<cvalue_t, cvalue_expression_t *, cvalue_less_t> __cvalue_expression_map;
 
         static xpool_t * __current; 
     };
diff --git a/modules/core/__assembly_layout.h b/modules/core/__assembly_layout.h
index aaf2da3..0be8a2f 100644
--- a/modules/core/__assembly_layout.h
+++ b/modules/core/__assembly_layout.h
@@ -368,6 +368,10 @@ namespace X_ROOT_NS::modules::core {
 
     //-------- ---------- ---------- ---------- ----------
 
+    // Orders entities.
+    template<typename _entity_t> struct __entity_less_t : std::less<_entity_t> { };
+    template<> struct __entity_less_t<cvalue_t> : cvalue_less_t { };
+
     // Base class of metadata manager.
     template<__tidx_t tidx, typename _mt_t=mt_t<tidx>>
     class mt_manager_base_t : public mt_manager_object_t
@@ -563,7 +567,7 @@ namespace X_ROOT_NS::modules::core {
         X_TO_STRING_IMPL(_T("mt_manager_base_t"))
 
     private:
-        std::map<entity_t, ref_t> __mt_map;
+        std::map<entity_t, ref_t, __entity_less_t<entity_t>> __mt_map;
         __heap_t __heap;
     };
 
diff --git a/modules/core/assembly_reader.cpp b/modules/core/assembly_reader.cpp
index e3b9b13..698235f 100644
--- a/modules/core/assembly_reader.cpp
+++ b/modules/core/assembly_reader.cpp
@@ -939,7 +939,7 @@ namespace X_ROOT_NS::modules::core {
         // Load constants.
         void __load_constants()
         {
-            std::map<cvalue_t, expression_t *> map;
+            std::map<cvalue_t, expression_t *, cvalue_less_t> map;
 
             auto & mgr = __mt_manager<__tidx_t::constant>();
             for (mt_constant_t * mt : mgr)
diff --git a/modules/core/core.cpp b/modules/core/core.cpp
index c25a26a..a54acff 100644
--- a/modules/core/core.cpp
+++ b/modules/core/core.cpp
@@ -1,6 +1,7 @@
 
 #include <core.h>
 #include "expression_executor.h"
+#include <cmath>
 
 namespace X_ROOT_NS::modules::core {
 
@@ -1238,6 +1239,29 @@ namespace X_ROOT_NS::modules::core {
         }
     }
 
+    // Orders constant values.
+    bool cvalue_less_t::operator () (const cvalue_t & v1, const cvalue_t & v2) const _NE
+    {
+        if (!is_number(v1) || !is_number(v2))
+            return v1 < v2;
+
+        if (v1.number.type != v2.number.type)
+            return v1.number.type < v2.number.type;
+
+        if (is_float(v1.number.type))
+        {
+            ldouble_t n1 = v1.number.get_value<ldouble_t>(), n2 = v2.number.get_value<ldouble_t>();
+
+            if (std::signbit(n1) != std::signbit(n2))
+                return std::signbit(n1);
+
+            if (std::isnan(n1) || std::isnan(n2))
+                return !std::isnan(n1);
+        }
+
+        return v1.number < v2.number;
+    }
+
     // Returns whether a cvalue is less or equals than other.
     bool cvalue_t::operator <= (const cvalue_t & other) const _NE
     {
@@ -6068,17 +6092,16 @@ namespace X_ROOT_NS::modules::core {
     // Returns cvalue_expression_t of specified cvalue.
     cvalue_expression_t * xpool_t::get_cvalue_expression(cvalue_t cvalue)
     {
-        __cvalue_t cv = (__cvalue_t)cvalue;
-        auto it = __cvalue_expression_map.find(cv);
+        auto it = __cvalue_expression_map.find(cvalue);
         if (it == __cvalue_expression_map.end())
         {
             auto pair = __cvalue_expression_map.insert(
-                std::make_pair(cv, (cvalue_expression_t *)nullptr)
+                std::make_pair(cvalue, (cvalue_expression_t *)nullptr)
             );
 
             it = pair.first;
             it->second = new_obj<cvalue_expression_t>(
-                const_cast<__cvalue_t *>(&it->first)
+                const_cast<cvalue_t *>(&it->first)
             );
         }
 
-- 
2.43.0


From 9b6818680d6e26992b4fe2faf14d35de423186d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:48 +0000
Subject: [PATCH 110/113] fix: a command that pushes -0.0 is not the one that
 pushes 0.0

---
 modules/exec/commands.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index f636aa3..75642c1 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -305,13 +305,31 @@ namespace X_ROOT_NS::modules::exec {
 
     ////////// ////////// ////////// ////////// //////////
 
+    // Returns the value that identifies an argument of a command. Floating-point values are
+    // identified by their representations, 0.0 and -0.0 are different.
+    template<typename _arg_t> X_INLINE _arg_t __command_key(_arg_t arg) { return arg; }
+
+    X_INLINE uint32_t __command_key(float arg)
+    {
+        uint32_t key;
+        return std::memcpy(&key, &arg, sizeof(key)), key;
+    }
+
+    X_INLINE uint64_t __command_key(double arg)
+    {
+        uint64_t key;
+        return std::memcpy(&key, &arg, sizeof(key)), key;
+    }
+
     template<typename _command_template_t, typename ... _template_keys_t>
     class __command_manager_t : public object_t
     {
     public:
         template<typename ... _args_t> class with_args_t
         {
-            typedef std::tuple<command_value_t, _args_t ...> __key_t;
+            typedef std::tuple<
+                command_value_t, decltype(__command_key(std::declval<_args_t>())) ...
+            > __key_t;
 
         public:
             with_args_t(memory_t * memory) : __memory(memory) { }
@@ -320,7 +338,7 @@ namespace X_ROOT_NS::modules::exec {
             template<command_value_t _cv, _template_keys_t ... _keys, typename ... _others_t>
             command_t * get_command(_args_t ... args, _others_t && ... others)
             {
-                __key_t key(_cv, args ...);
+                __key_t key(_cv, __command_key(args) ...);
 
                 auto it = __map.find(key);
                 if (it != __map.end())
-- 
2.43.0


From bc7e86bd0120fe8ccd3d28cdf0628f0268fe9c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:48 +0000
Subject: [PATCH 111/113] fix: adding 0 to a floating-point number is not left
 out by optimization

---
 modules/compile/expression.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 6328e19..6df0be1 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -680,11 +680,21 @@ namespace X_ROOT_NS::modules::compile {
         }
     }
 
+    // Returns whether an operand could take the place of the result of adding 0 to it,
+    // it's not for floating-point numbers: -0.0 + 0.0 is 0.0.
+    static bool __is_same_integer_operation(expression_t * exp1, expression_t * exp2)
+    {
+        xil_type_t type = __xil_type(exp1);
+
+        return type != xil_type_t::float_ && type != xil_type_t::double_
+            && __is_same_type_operation(exp1, exp2);
+    }
+
     // Compiles add expression.
     static void __compile_add(__cctx_t & ctx, xil_pool_t & pool,
                                 expression_t * exp1, expression_t * exp2)
     {
-        if (__is_optimize_basic_algorighm(ctx) && __is_same_type_operation(exp1, exp2))
+        if (__is_optimize_basic_algorighm(ctx) && __is_same_integer_operation(exp1, exp2))
         {
             if (__execute_expression(exp1) == cvalue_t(0))  // x + 0
             {
@@ -711,7 +721,7 @@ namespace X_ROOT_NS::modules::compile {
     static void __compile_sub(__cctx_t & ctx, xil_pool_t & pool,
                                 expression_t * exp1, expression_t * exp2)
     {
-        if (__is_optimize_basic_algorighm(ctx) && __is_same_type_operation(exp1, exp2))
+        if (__is_optimize_basic_algorighm(ctx) && __is_same_integer_operation(exp1, exp2))
         {
             if (__execute_expression(exp1) == cvalue_t(0))  // 0 * x
             {
-- 
2.43.0


From e87933f12674438dd3752ba78771e384284b6056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:18 +0000
Subject: [PATCH 112/113] fix: 0 - x of unsigned numbers is computed under
 optimization

---
 modules/compile/expression.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 6df0be1..d1f45a8 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -723,7 +723,8 @@ namespace X_ROOT_NS::modules::compile {
     {
         if (__is_optimize_basic_algorighm(ctx) && __is_same_integer_operation(exp1, exp2))
         {
-            if (__execute_expression(exp1) == cvalue_t(0))  // 0 * x
+            if (is_signed_integer(to_vtype(__xil_type(exp1)))
+                && __execute_expression(exp1) == cvalue_t(0))  // 0 - x
             {
                 exp2->compile(ctx, pool);
                 pool.append<x_al_xil_t>(xil_al_command_t::minus, __xil_type(exp1));
-- 
2.43.0


From c413e6962920c357584073b77f4a717028a28090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:49 +0000
Subject: [PATCH 113/113] fix: temporary structs of nested scopes do not
 overwrite local variables

A temporary variable is defined after all variables of its method, so its
index does not tell which variables are alive with it.
---
 include/modules/core.h |  4 ++++
 modules/core/core.cpp  |  6 +++++-
 modules/rt/__layout.h  |  4 ++++
 modules/rt/layout.cpp  | 26 ++++++++++++++++++++++++--
 4 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/include/modules/core.h b/include/modules/core.h
index ac661ca..eee281e 100644
--- a/include/modules/core.h
+++ b/include/modules/core.h
@@ -3070,6 +3070,10 @@ namespace X_ROOT_NS::modules::core {
         // Variable index defination in method.
         msize_t     index;
 
+        // The index of temporary variables: they are defined after all variables of the
+        // method, whichever region they belong to, and do not share their space with others.
+        static const msize_t temp_index = max_value<msize_t>();
+
         // Write the local variable as xil to buffer.
         void write(__assembly_layout_t & layout, xil_buffer_t & buffer);
     };
diff --git a/modules/core/core.cpp b/modules/core/core.cpp
index a54acff..f23a2a9 100644
--- a/modules/core/core.cpp
+++ b/modules/core/core.cpp
@@ -7076,7 +7076,11 @@ namespace X_ROOT_NS::modules::core {
             new_variable_region->current_local_index()
         ));
 
-        return new_variable_region->define_local(xpool.to_type_name(type), name);
+        local_variable_t * variable
+            = new_variable_region->define_local(xpool.to_type_name(type), name);
+        variable->index = local_variable_defination_t::temp_index;
+
+        return variable;
     }
 
     ////////// ////////// ////////// ////////// //////////
diff --git a/modules/rt/__layout.h b/modules/rt/__layout.h
index e6f3f05..62e7d99 100644
--- a/modules/rt/__layout.h
+++ b/modules/rt/__layout.h
@@ -325,6 +325,9 @@ namespace X_ROOT_NS::modules::rt {
         msize_t __local_unit_size = 0;      // Local unit size.
         al::heap_t<__item_t> __items;
 
+        bool __has_last = false;            // Whether a variable was appended.
+        msize_t __last_index = 0;           // The index of the last variable.
+
         // Local variable group.
         struct __group_t
         {
@@ -336,6 +339,7 @@ namespace X_ROOT_NS::modules::rt {
             storage_type_t storage_type;
 
             __vector_t<__item_t *> items;
+            __vector_t<__item_t *> temps;
 
         } __groups[(size_t)storage_type_t::__end__];
 
diff --git a/modules/rt/layout.cpp b/modules/rt/layout.cpp
index 03c4f3f..21c5e7a 100644
--- a/modules/rt/layout.cpp
+++ b/modules/rt/layout.cpp
@@ -472,7 +472,16 @@ namespace X_ROOT_NS::modules::rt {
         rt_type_t * type = __get_type(def.type);
         msize_t size = __ctx.variable_size_of(type, &storage_type);
 
-        if (__items.size() > 0 && def.index <= __items[__items.size() - 1].index)
+        if (def.index == local_variable_defination_t::temp_index)
+        {
+            __groups[(size_t)storage_type].temps.push_back(__items.new_obj(
+                def.index, __current_identity(), size, storage_type, type
+            ));
+
+            return;
+        }
+
+        if (__has_last && def.index <= __last_index)
         {
             for (int k = 0; k < X_ARRAY_SIZE(__groups); k++)
             {
@@ -488,6 +497,9 @@ namespace X_ROOT_NS::modules::rt {
         );
 
         __groups[(size_t)storage_type].append(item);
+
+        __has_last = true;
+        __last_index = def.index;
     }
 
     // Converts to string.
@@ -518,7 +530,7 @@ namespace X_ROOT_NS::modules::rt {
         for (int storage_type = 0; storage_type < (int)storage_type_t::__end__; storage_type++)
         {
             __group_t & g = __groups[storage_type];
-            if (!g.items.empty())
+            if (!g.items.empty() || !g.temps.empty())
             {
                 switch ((storage_type_t)storage_type)
                 {
@@ -568,6 +580,11 @@ namespace X_ROOT_NS::modules::rt {
             alives.push_back(item);
         }
 
+        for (__item_t * item : g.temps)
+        {
+            max_offset = __set_offset(item, max_offset);
+        }
+
         return max_offset;
     }
 
@@ -579,6 +596,11 @@ namespace X_ROOT_NS::modules::rt {
             offset = __set_offset(item, offset);
         }
 
+        for (__item_t * item : g.temps)
+        {
+            offset = __set_offset(item, offset);
+        }
+
         return offset;
     }
 
-- 
2.43.0

