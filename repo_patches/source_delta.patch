From c263a905acba29312debf572042162cbb06319c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:33 +0000
Subject: [PATCH 01/55] fix: do not print debug text when a struct argument is
 compiled

---
 modules/compile/expression.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index eb964ab..77d3b0a 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -1092,8 +1092,6 @@ namespace X_ROOT_NS::modules::compile {
             ref_t type_ref = __ref_of(ctx, atype);
             pool.append<x_stack_alloc_xil_t>(type_ref);
 
-            _PP(atype);
-
             exp->compile(ctx, pool);
         }
         else
-- 
2.43.0


From ad1278f7e4a950c5f1f4fea03e1484b04b2c0802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:33 +0000
Subject: [PATCH 02/55] fix: allocate and clear all elements of a
 multi-dimensional array

---
 modules/mm/mm.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/modules/mm/mm.cpp b/modules/mm/mm.cpp
index d05be4f..2097bfa 100644
--- a/modules/mm/mm.cpp
+++ b/modules/mm/mm.cpp
@@ -141,6 +141,11 @@ namespace X_ROOT_NS::modules::mm {
 
         array_length_t length = *lengths;
         size_t element_size = unit_align(1, type->element_type->get_size());
+        for (const l_t * l = lengths + 1, * l_end = lengths + dimension; l < l_end; l++)
+        {
+            length *= *l;
+        }
+
         size_t size = _alignf(length * element_size, sizeof(rt_stack_unit_t));
 
         void * obj;
@@ -158,11 +163,6 @@ namespace X_ROOT_NS::modules::mm {
         }
         else if (dimension >= 2)
         {
-            for (const l_t * l = lengths + 1, * l_end = lengths + dimension; l < l_end; l++)
-            {
-                length *= *l;
-            }
-
             // type info + length of each dimensions + array length.
             const size_t extern_size = _alignf(
                 sizeof(rt_type_t *) + sizeof(array_length_t) * dimension + sizeof(array_length_t),
-- 
2.43.0


From 4b1ccd87db84487e137c3572881851a30abe3a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:33 +0000
Subject: [PATCH 03/55] fix: end the line after Console.WriteLine of an UInt64

---
 modules/rtlib/system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/rtlib/system.cpp b/modules/rtlib/system.cpp
index fa9995e..8abed2f 100644
--- a/modules/rtlib/system.cpp
+++ b/modules/rtlib/system.cpp
@@ -138,7 +138,7 @@ namespace X_ROOT_NS::modules::rtlib {
 
     void console_write_uint64_line(rtlib_context_t & ctx)
     {
-        __console_write<ruint64_t>(ctx);
+        __console_write_line<ruint64_t>(ctx);
     }
 
     void console_write_float(rtlib_context_t & ctx)
-- 
2.43.0


From 635f6edeb80a87cbc1b3f73dfea792545293611d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:48 +0000
Subject: [PATCH 04/55] fix: end the line after Console.WriteLine of a null
 string

---
 modules/rtlib/system.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/rtlib/system.cpp b/modules/rtlib/system.cpp
index 8abed2f..49ae95a 100644
--- a/modules/rtlib/system.cpp
+++ b/modules/rtlib/system.cpp
@@ -48,7 +48,9 @@ namespace X_ROOT_NS::modules::rtlib {
         const char_t * s = *arg->value;
 
         if (s != nullptr)
-            std::wcout << s << std::endl;
+            std::wcout << s;
+
+        std::wcout << std::endl;
     }
 
     void console_write_char(rtlib_context_t & ctx)
-- 
2.43.0


From 12309b224c04035bab2f599a6d105f1ac3311e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:48 +0000
Subject: [PATCH 05/55] fix: write Int8 and UInt8 values as numbers

---
 modules/rtlib/system.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/modules/rtlib/system.cpp b/modules/rtlib/system.cpp
index 49ae95a..0c9f2b4 100644
--- a/modules/rtlib/system.cpp
+++ b/modules/rtlib/system.cpp
@@ -10,12 +10,17 @@ namespace X_ROOT_NS::modules::rtlib {
         _t  value;
     };
 
+    // Returns the value to be written, 8-bit integers are written as numbers.
+    template<typename _t> const _t & __to_write(const _t & value) { return value; }
+    int __to_write(int8_t  value) { return value; }
+    int __to_write(uint8_t value) { return value; }
+
     template<typename _t> void __console_write(rtlib_context_t & ctx)
     {
         typedef __write_args_t<_t> args_t;
 
         args_t * arg = ctx.args<args_t>();
-        std::wcout << *arg->value;
+        std::wcout << __to_write(*arg->value);
     }
 
     template<typename _t> void __console_write_line(rtlib_context_t & ctx)
@@ -23,7 +28,7 @@ namespace X_ROOT_NS::modules::rtlib {
         typedef __write_args_t<_t> args_t;
 
         args_t * arg = ctx.args<args_t>();
-        std::wcout << *arg->value << std::endl;
+        std::wcout << __to_write(*arg->value) << std::endl;
     }
 
 
-- 
2.43.0


From ef44cd81d48db5e7bdd34e3ce9011566867484a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:48 +0000
Subject: [PATCH 06/55] fix: negate an UInt32 as Int64

---
 modules/core/__vtype_traits.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/core/__vtype_traits.h b/modules/core/__vtype_traits.h
index 0b750a8..d1a42b3 100644
--- a/modules/core/__vtype_traits.h
+++ b/modules/core/__vtype_traits.h
@@ -262,7 +262,10 @@ namespace X_ROOT_NS::modules::core {
 
             vnum_t operator() (vnum1_t v1)
             {
-                return (vnum_t)__op_t()(v1);
+                if constexpr (op == operator_t::minus)
+                    return (vnum_t)__op_t()((vnum_t)v1);
+                else
+                    return (vnum_t)__op_t()(v1);
             }
         };
 
-- 
2.43.0


From 02b781dde1f0048d7fd7b2a0b7f5f851d6dbbc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:37 +0000
Subject: [PATCH 07/55] fix: calculate UInt32 with a signed integer as Int64

---
 modules/core/__vtype_traits.h | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/modules/core/__vtype_traits.h b/modules/core/__vtype_traits.h
index d1a42b3..6ec6e3b 100644
--- a/modules/core/__vtype_traits.h
+++ b/modules/core/__vtype_traits.h
@@ -394,9 +394,24 @@ namespace X_ROOT_NS::modules::core {
 
             typedef __binary_op_t<_op> __op_t;
 
+            // C++ would calculate an uint32 with a signed integer as uint32, but their common
+            // type is int64.
+            static constexpr bool is_signed32(vtype_t vt)
+            {
+                return vt == vtype_t::int8_ || vt == vtype_t::int16_ || vt == vtype_t::int32_;
+            }
+
+            static constexpr bool as_int64 = _op != operator_t::left_shift
+                && _op != operator_t::right_shift
+                && ((_t1 == vtype_t::uint32_ && is_signed32(_t2))
+                 || (_t2 == vtype_t::uint32_ && is_signed32(_t1)));
+
             vnum_t operator() (vnum1_t v1, vnum2_t v2)
             {
-                return (vnum_t)__op_t()(v1, v2);
+                if constexpr (as_int64)
+                    return (vnum_t)__op_t()((int64_t)v1, (int64_t)v2);
+                else
+                    return (vnum_t)__op_t()(v1, v2);
             }
         };
 
-- 
2.43.0


From 5f97108f8bcb7f4fda24c4b215b6f6d8d0b20cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:56 +0000
Subject: [PATCH 08/55] fix: run UInt64 operands with a float or double on the
 right

---
 modules/exec/commands.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index 5125de2..55b6e72 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -4902,7 +4902,7 @@ namespace X_ROOT_NS::modules::exec {
         __CaseBinary2(_op, float_,  int32)                                              \
         __CaseBinary2(_op, float_,  uint32)                                             \
         __CaseBinary2(_op, float_,  int64)                                              \
-        __CaseBinary1(_op, float_,  uint64)                                             \
+        __CaseBinary2(_op, float_,  uint64)                                             \
         __CaseBinary1(_op, float_,  float_)                                             \
                                                                                         \
         __CaseBinary2(_op, double_,  int8)                                              \
@@ -4912,7 +4912,7 @@ namespace X_ROOT_NS::modules::exec {
         __CaseBinary2(_op, double_,  int32)                                             \
         __CaseBinary2(_op, double_,  uint32)                                            \
         __CaseBinary2(_op, double_,  int64)                                             \
-        __CaseBinary1(_op, double_,  uint64)                                            \
+        __CaseBinary2(_op, double_,  uint64)                                            \
         __CaseBinary2(_op, double_,  float_)                                            \
         __CaseBinary1(_op, double_,  double_)
 
-- 
2.43.0


From c2afab0adfcb80bd3ed5927f39ba1c4201fcf128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:01 +0000
Subject: [PATCH 09/55] fix: convert a variable or constant to the target type
 only once

---
 modules/compile/expression.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 77d3b0a..ca49b71 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -2039,6 +2039,13 @@ namespace X_ROOT_NS::modules::compile {
         }
     }
 
+    // Returns whether __post_compile_expression converts a value of the type.
+    static bool __will_convert(const __environment_t & env, type_t * exp_type)
+    {
+        return env.type != nullptr && is_value_type(env.type)
+            && env.dtype != xil_type_t::empty && exp_type != nullptr && is_value_type(exp_type);
+    }
+
     void __post_compile_expression(__cctx_t & ctx, xil_pool_t & pool, expression_t * exp,
             const __environment_t & env = __environment_t::empty,
             type_t * exp_type = nullptr       // expression type maybe changed.
@@ -2412,7 +2419,13 @@ namespace X_ROOT_NS::modules::compile {
             case name_expression_type_t::variable:
             {
                 type_t * type = this->get_type();
-                __compile_variable(ctx, pool, this->variable, __only_value_type(env), this);
+                xil_type_t dtype = __only_value_type(env);
+
+                // Pushed as its own type, it will be converted in __post_compile_expression.
+                if (__will_convert(env, type) && dtype != xil_type_t::ptr)
+                    dtype = to_xil_type(type);
+
+                __compile_variable(ctx, pool, this->variable, dtype, this);
 
                 if (__is_custom_struct_like(type) && is_real_variable(this->variable)
                                            && __need_object_copy(this))
@@ -2602,6 +2615,10 @@ namespace X_ROOT_NS::modules::compile {
         else
         {
             __compile_cvalue(ctx, pool, cvalue, env);
+
+            // Already converted.
+            if (is_number(cvalue) && __will_convert(env, this->get_type()))
+                return __post_compile_expression(ctx, pool, this, env, env.type);
         }
 
         __post_compile_expression(ctx, pool, this, env);
-- 
2.43.0


From 8d1711059a59d86ef9d479c98dde41d8022b19a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:22 +0000
Subject: [PATCH 10/55] fix: convert or box an array element that is read as
 another type

---
 modules/compile/expression.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index ca49b71..c8de5ee 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -3050,6 +3050,8 @@ namespace X_ROOT_NS::modules::compile {
             pool.append<x_push_array_element_xil_t>(
                 __to_xil_type(element_type), array_type_ref
             );
+
+            __post_compile_expression(ctx, pool, this, env, element_type);
         }
     }
 
-- 
2.43.0


From cf4d20f98a6c9bfe233dfc9664e2b6d2ea71964e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:53 +0000
Subject: [PATCH 11/55] fix: convert the elements of an array initializer to
 the element type

---
 modules/compile/expression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index c8de5ee..f83de3f 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -3321,7 +3321,7 @@ namespace X_ROOT_NS::modules::compile {
 
                 // TODO: check init expression type.
 
-                element_exp->compile(ctx, pool);
+                element_exp->compile(ctx, pool, element_type);
 
                 if (this_effective)
                     pool.append<x_array_element_xil_t>(dtype);  // TODO: struct?
-- 
2.43.0


From 93729cee53b84504c618688e5983df03c2a6b4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:33 +0000
Subject: [PATCH 12/55] fix: store all bytes of the references in an array
 initializer

---
 modules/exec/commands.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index 55b6e72..2a805c4 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -6972,7 +6972,16 @@ namespace X_ROOT_NS::modules::exec {
             return 0;
         }
 
-        return size_of(xil.dtype());
+        switch (xil.dtype())
+        {
+            case xil_type_t::object:
+            case xil_type_t::ptr:
+            case xil_type_t::string:
+                return sizeof(rt_ref_t);    // size_of() returns the size of it in xil.
+
+            default:
+                return size_of(xil.dtype());
+        }
     }
 
     static command_t * __new_init_command(__context_t & ctx, const init_xil_t & xil)
-- 
2.43.0


From 32871de3c00e675d34392e6166146776b8d237bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:37 +0000
Subject: [PATCH 13/55] fix: compile both values of a conditional expression to
 the same type

---
 modules/lang_cs/expressions.cpp | 32 +++++++++++++++++++++++++-------
 modules/lang_cs/expressions.h   |  2 ++
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/modules/lang_cs/expressions.cpp b/modules/lang_cs/expressions.cpp
index 70fd96d..300a458 100644
--- a/modules/lang_cs/expressions.cpp
+++ b/modules/lang_cs/expressions.cpp
@@ -10,24 +10,42 @@ namespace X_ROOT_NS::modules::lang_cs {
 
     ////////// ////////// ////////// ////////// //////////
 
+    // Returns the value which decides the type: the second one when the first one is a number
+    // that should be promoted to it.
+    expression_t * cs_condition_expression_t::typed_value() const
+    {
+        vtype_t vtype1 = value1()->get_vtype(), vtype2 = value2()->get_vtype();
+
+        if (vtype1 != vtype2 && is_numberic_vtype(vtype1) && is_numberic_vtype(vtype2)
+            && get_binary_vtype(operator_t::add, vtype1, vtype2) == vtype2)
+            return value2();
+
+        return value1();
+    }
+
     // Returns vtype of cs_condition_expression.
     vtype_t cs_condition_expression_t::get_vtype() const
     {
-        return value1()->get_vtype();
+        return typed_value()->get_vtype();
     }
 
     // Returns type of cs_condigion_expression.
     type_t * cs_condition_expression_t::get_type() const
     {
-        return value1()->get_type();
+        return typed_value()->get_type();
     }
 
     // Compiles this expression.
     void cs_condition_expression_t::compile(__cctx_t & ctx, xil_pool_t & pool,
-                                                const __environment_t & env)
+                                                const __environment_t & env0)
     {
         //_PF(_T("__compile: %1%"), this);
 
+        // Both values should be compiled to the same type.
+        bool same_type = value1()->get_vtype() == value2()->get_vtype();
+        const __environment_t env = (env0.dtype != xil_type_t::empty || same_type)?
+            env0 : __environment_t(this->get_type());
+
         statement_compile_context_t & sctx = ctx.statement_ctx;
 
         bool value1_effective = is_effective(ctx, value1());
@@ -39,24 +57,24 @@ namespace X_ROOT_NS::modules::lang_cs {
         {
             if (condition_value == true)
             {
-                value1()->compile(ctx, pool);
+                value1()->compile(ctx, pool, env);
             }
             else if (condition_value == false)
             {
-                value2()->compile(ctx, pool);
+                value2()->compile(ctx, pool, env);
             }
             else
             {
                 condition()->compile(ctx, pool);
                 jmp_xil_t * false_jmp_xil = xil::append_jmp_xil(pool, xil_jmp_model_t::false_);
 
-                value1()->compile(ctx, pool);
+                value1()->compile(ctx, pool, env);
                 jmp_xil_t * finally_jmp_xil = xil::append_jmp_xil(pool, xil_jmp_model_t::none);
 
                 if (false_jmp_xil != nullptr)
                     xil::append_label_xil(sctx, pool, false_jmp_xil);
 
-                value2()->compile(ctx, pool);
+                value2()->compile(ctx, pool, env);
 
                 xil::append_label_xil(sctx, pool, finally_jmp_xil);
             }
diff --git a/modules/lang_cs/expressions.h b/modules/lang_cs/expressions.h
index 8053b11..90af19b 100644
--- a/modules/lang_cs/expressions.h
+++ b/modules/lang_cs/expressions.h
@@ -39,6 +39,8 @@ namespace X_ROOT_NS::modules::lang_cs {
         expression_t * value1()    const { return exps[1]; }
         expression_t * value2()    const { return exps[2]; }
 
+        expression_t * typed_value() const;
+
         virtual const string_t to_string() const override
         {
             return _F(_T("(%1%? %2% : %3%)"), condition(), value1(), value2());
-- 
2.43.0


From 0337c583f7941517d7ed287e7bb19675238c6927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:17 +0000
Subject: [PATCH 14/55] fix: raise OutOfRangeException for every array index
 out of range

---
 modules/exec/commands.cpp | 70 +++++++++++++++++++++++++++------------
 1 file changed, 49 insertions(+), 21 deletions(-)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index 2a805c4..5cba9d0 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -1172,15 +1172,21 @@ namespace X_ROOT_NS::modules::exec {
 
             template<__d_t _d> struct __mul_t
             {
-                X_ALWAYS_INLINE __l_t operator()(__stack_t & stack, __l_t * ls)
+                X_ALWAYS_INLINE __l_t operator()(__stack_t & stack, __l_t * ls, bool & in_range)
                 {
-                    return stack.pop<__l_t>() * (*ls) + __mul_t<_d - 1>()(stack, ls - 1);
+                    __l_t index = stack.pop<__l_t>();
+
+                    // lengths are accumulated from the last dimension.
+                    if (index < 0 || (int64_t)index * (*ls) >= *(ls - 1))
+                        in_range = false;
+
+                    return index * (*ls) + __mul_t<_d - 1>()(stack, ls - 1, in_range);
                 }
             };
 
             template<> struct __mul_t<0>
             {
-                X_ALWAYS_INLINE __l_t operator()(__stack_t & stack, __l_t * p)
+                X_ALWAYS_INLINE __l_t operator()(__stack_t & stack, __l_t * p, bool & in_range)
                 {
                     return 0;
                 }
@@ -1189,14 +1195,14 @@ namespace X_ROOT_NS::modules::exec {
 
         template<dimension_t _dimension>
         X_ALWAYS_INLINE array_length_t __mul_array_index(executor_stack_t & stack,
-                                                         array_length_t * lengths)
+                                            array_length_t * lengths, bool & in_range)
         {
-            return __mul_array_index_ns::__mul_t<_dimension>()(stack, lengths);
+            return __mul_array_index_ns::__mul_t<_dimension>()(stack, lengths, in_range);
         }
     }
 
     __AlwaysInline static array_length_t __array_index(executor_stack_t & stack,
-                                dimension_t dimension, array_length_t * lengths)
+                dimension_t dimension, array_length_t * lengths, bool & in_range)
     {
         array_length_t index = 0;
         const dimension_t partical_dimension = 8;
@@ -1209,8 +1215,9 @@ namespace X_ROOT_NS::modules::exec {
 
                 #define __Case(_d)                                                      \
                     case _d:                                                            \
-                        return index + __mul_array_index<_d>(stack, lengths);
+                        return index + __mul_array_index<_d>(stack, lengths, in_range);
 
+                __Case(1)
                 __Case(2)
                 __Case(3)
                 __Case(4)
@@ -1222,7 +1229,7 @@ namespace X_ROOT_NS::modules::exec {
                 #undef __Case
 
                 default:
-                    index += __mul_array_index<partical_dimension>(stack, lengths);
+                    index += __mul_array_index<partical_dimension>(stack, lengths, in_range);
                     lengths -= partical_dimension;
                     dimension -= partical_dimension;
                     continue;
@@ -1255,14 +1262,16 @@ namespace X_ROOT_NS::modules::exec {
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
             array_length_t index = ctx.stack.pop<array_length_t>();
+            bool in_range = index >= 0;
 
             if constexpr (_dimension >= 2)
             {
                 array_length_t * lengths = mm::get_array_lengths(array_ref);
-                index += __mul_array_index<_dimension - 1>(ctx.stack, lengths);
+                in_range = in_range && index < *lengths;
+                index += __mul_array_index<_dimension - 1>(ctx.stack, lengths, in_range);
             }
 
-            if (index >= mm::get_array_length(array_ref))
+            if (!in_range || index >= mm::get_array_length(array_ref))
                 __RaiseOutOfRangeException(ctx);
 
             ctx.stack.push<__value2_t>(static_cast<__value2_t>(
@@ -1298,9 +1307,10 @@ namespace X_ROOT_NS::modules::exec {
             array_length_t index = ctx.stack.pop<array_length_t>();
             array_length_t * lengths = mm::get_array_lengths(array_ref);
 
-            index += __array_index(ctx.stack, __This->__dimension - 1, lengths);
+            bool in_range = index >= 0 && index < *lengths;
+            index += __array_index(ctx.stack, __This->__dimension - 1, lengths, in_range);
 
-            if (index >= mm::get_array_length(array_ref))
+            if (!in_range)
                 __RaiseOutOfRangeException(ctx);
 
             ctx.stack.push<__value2_t>(static_cast<__value2_t>(
@@ -1369,14 +1379,16 @@ namespace X_ROOT_NS::modules::exec {
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
             array_length_t index = ctx.stack.pop<array_length_t>();
+            bool in_range = index >= 0;
 
             if constexpr (_dimension >= 2)
             {
                 array_length_t * lengths = mm::get_array_lengths(array_ref);
-                index += __mul_array_index<_dimension - 1>(ctx.stack, lengths);
+                in_range = in_range && index < *lengths;
+                index += __mul_array_index<_dimension - 1>(ctx.stack, lengths, in_range);
             }
 
-            if (index >= mm::get_array_length(array_ref))
+            if (!in_range || index >= mm::get_array_length(array_ref))
                 __RaiseOutOfRangeException(ctx);
 
             ctx.stack.push(array_ref + index * __element_size);
@@ -1411,9 +1423,10 @@ namespace X_ROOT_NS::modules::exec {
             array_length_t index = ctx.stack.pop<array_length_t>();
             array_length_t * lengths = mm::get_array_lengths(array_ref);
 
-            index += __array_index(ctx.stack, __This->__dimension - 1, lengths);
+            bool in_range = index >= 0 && index < *lengths;
+            index += __array_index(ctx.stack, __This->__dimension - 1, lengths, in_range);
 
-            if (index >= mm::get_array_length(array_ref))
+            if (!in_range)
                 __RaiseOutOfRangeException(ctx);
 
             ctx.stack.push(array_ref + index * __element_size);
@@ -2968,14 +2981,16 @@ namespace X_ROOT_NS::modules::exec {
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
             array_length_t index = ctx.stack.pop<array_length_t>();
+            bool in_range = index >= 0;
 
             if (_dimension >= 2)
             {
                 array_length_t * lengths = mm::get_array_lengths(array_ref);
-                index += __mul_array_index<_dimension - 1>(ctx.stack, lengths);
+                in_range = in_range && index < *lengths;
+                index += __mul_array_index<_dimension - 1>(ctx.stack, lengths, in_range);
             }
 
-            if (index >= mm::get_array_length(array_ref))
+            if (!in_range || index >= mm::get_array_length(array_ref))
                 __RaiseOutOfRangeException(ctx);
 
             mm::set_array_element<__value1_t>(
@@ -3010,7 +3025,11 @@ namespace X_ROOT_NS::modules::exec {
             array_length_t index = ctx.stack.pop<array_length_t>();
             array_length_t * lengths = mm::get_array_lengths(array_ref);
 
-            index += __array_index(ctx.stack, __This->__dimension - 1, lengths);
+            bool in_range = index >= 0 && index < *lengths;
+            index += __array_index(ctx.stack, __This->__dimension - 1, lengths, in_range);
+
+            if (!in_range)
+                __RaiseOutOfRangeException(ctx);
 
             mm::set_array_element<__value1_t>(
                 array_ref, index, static_cast<__value1_t>(ctx.stack.pop<__value2_t>())
@@ -3542,13 +3561,18 @@ namespace X_ROOT_NS::modules::exec {
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
             array_length_t index = ctx.stack.pop<array_length_t>();
+            bool in_range = index >= 0;
 
             if (_dimension >= 2)
             {
                 array_length_t * lengths = mm::get_array_lengths(array_ref);
-                index += __mul_array_index<_dimension - 1>(ctx.stack, lengths);
+                in_range = in_range && index < *lengths;
+                index += __mul_array_index<_dimension - 1>(ctx.stack, lengths, in_range);
             }
 
+            if (!in_range || index >= mm::get_array_length(array_ref))
+                __RaiseOutOfRangeException(ctx);
+
             mm::set_array_element<__value1_t>(
                 array_ref, index, static_cast<__value1_t>(ctx.stack.pick<__value2_t>())
             );
@@ -3581,7 +3605,11 @@ namespace X_ROOT_NS::modules::exec {
             array_length_t index = ctx.stack.pop<array_length_t>();
             array_length_t * lengths = mm::get_array_lengths(array_ref);
 
-            index += __array_index(ctx.stack, __This->__dimension - 1, lengths);
+            bool in_range = index >= 0 && index < *lengths;
+            index += __array_index(ctx.stack, __This->__dimension - 1, lengths, in_range);
+
+            if (!in_range)
+                __RaiseOutOfRangeException(ctx);
 
             mm::set_array_element<__value1_t>(
                 array_ref, index, static_cast<__value1_t>(ctx.stack.pick<__value2_t>())
-- 
2.43.0


From d4bca08d42a1ffb184e1c81e16f284e78bc90fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:47 +0000
Subject: [PATCH 15/55] fix: raise NullReferenceException when a field or
 element of null is accessed

---
 modules/exec/commands.cpp | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index 5cba9d0..70f393f 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -1044,8 +1044,11 @@ namespace X_ROOT_NS::modules::exec {
 
         __BeginExecute(ctx)
 
+            rt_ref_t obj = ctx.stack.pop<rt_ref_t>();
+            __CheckNullReference(ctx, obj);
+
             ctx.stack.push(static_cast<__value2_t>(
-                __Field(__value1_t, ctx.stack.pop<rt_ref_t>(), __This->__offset)
+                __Field(__value1_t, obj, __This->__offset)
             ));
 
         __EndExecute()
@@ -1078,9 +1081,10 @@ namespace X_ROOT_NS::modules::exec {
 
         __BeginExecute(ctx)
 
-            ctx.stack.push(
-                __FieldAddress(ctx.stack.pop<rt_ref_t>(), __This->__offset)
-            );
+            rt_ref_t obj = ctx.stack.pop<rt_ref_t>();
+            __CheckNullReference(ctx, obj);
+
+            ctx.stack.push(__FieldAddress(obj, __This->__offset));
 
         __EndExecute()
 
@@ -1261,6 +1265,8 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
+            __CheckNullReference(ctx, array_ref);
+
             array_length_t index = ctx.stack.pop<array_length_t>();
             bool in_range = index >= 0;
 
@@ -1304,6 +1310,8 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
+            __CheckNullReference(ctx, array_ref);
+
             array_length_t index = ctx.stack.pop<array_length_t>();
             array_length_t * lengths = mm::get_array_lengths(array_ref);
 
@@ -1378,6 +1386,8 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
+            __CheckNullReference(ctx, array_ref);
+
             array_length_t index = ctx.stack.pop<array_length_t>();
             bool in_range = index >= 0;
 
@@ -1420,6 +1430,8 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
+            __CheckNullReference(ctx, array_ref);
+
             array_length_t index = ctx.stack.pop<array_length_t>();
             array_length_t * lengths = mm::get_array_lengths(array_ref);
 
@@ -2935,7 +2947,10 @@ namespace X_ROOT_NS::modules::exec {
 
         __BeginExecute(ctx)
 
-            void * field = __FieldAddress(ctx.stack.pop<rt_ref_t>(), __This->__offset);
+            rt_ref_t obj = ctx.stack.pop<rt_ref_t>();
+            __CheckNullReference(ctx, obj);
+
+            void * field = __FieldAddress(obj, __This->__offset);
             *(__value1_t *)field = static_cast<__value1_t>(ctx.stack.pop<__value2_t>());
 
         __EndExecute()
@@ -2980,6 +2995,8 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
+            __CheckNullReference(ctx, array_ref);
+
             array_length_t index = ctx.stack.pop<array_length_t>();
             bool in_range = index >= 0;
 
@@ -3022,6 +3039,8 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
+            __CheckNullReference(ctx, array_ref);
+
             array_length_t index = ctx.stack.pop<array_length_t>();
             array_length_t * lengths = mm::get_array_lengths(array_ref);
 
@@ -3514,7 +3533,10 @@ namespace X_ROOT_NS::modules::exec {
 
         __BeginExecute(ctx)
 
-            void * field = __FieldAddress(ctx.stack.pop<rt_ref_t>(), __This->__offset);
+            rt_ref_t obj = ctx.stack.pop<rt_ref_t>();
+            __CheckNullReference(ctx, obj);
+
+            void * field = __FieldAddress(obj, __This->__offset);
             *(__value1_t *)field = static_cast<__value1_t>(ctx.stack.pick<__value2_t>());
 
         __EndExecute()
@@ -3560,6 +3582,8 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
+            __CheckNullReference(ctx, array_ref);
+
             array_length_t index = ctx.stack.pop<array_length_t>();
             bool in_range = index >= 0;
 
@@ -3602,6 +3626,8 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
+            __CheckNullReference(ctx, array_ref);
+
             array_length_t index = ctx.stack.pop<array_length_t>();
             array_length_t * lengths = mm::get_array_lengths(array_ref);
 
-- 
2.43.0


From 73d053afc34ad4b03f88eeb82102cdeda629ec0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:26 +0000
Subject: [PATCH 16/55] fix: calculate the return value before the finally
 blocks are executed

---
 modules/compile/__xilx.h       | 7 +++++--
 modules/compile/statements.cpp | 7 ++-----
 modules/compile/xilx.cpp       | 3 +++
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/modules/compile/__xilx.h b/modules/compile/__xilx.h
index 3d59a6f..f38d5dd 100644
--- a/modules/compile/__xilx.h
+++ b/modules/compile/__xilx.h
@@ -178,13 +178,16 @@ namespace X_ROOT_NS::modules::compile {
     public:
 
         // Constructor.
-        return_xilx_t(__region_t & region, expression_t * expression)
+        return_xilx_t(__region_t & region, expression_t * expression, bool leave = false)
             : __super_t(region)
-            , expression(expression) { }
+            , expression(expression), leave(leave) { }
 
         // Return expression.
         expression_t * expression;
 
+        // Whether leaves protected regions after the expression is calculated.
+        bool leave;
+
         // Writes xilx to a pool.
         virtual void write(__xw_context_t & ctx, xil_pool_t & pool) override;
 
diff --git a/modules/compile/statements.cpp b/modules/compile/statements.cpp
index 2ee30bf..4a8c4be 100644
--- a/modules/compile/statements.cpp
+++ b/modules/compile/statements.cpp
@@ -648,17 +648,14 @@ namespace X_ROOT_NS::modules::compile {
     // Compiles this statement.
     void return_statement_t::compile(statement_compile_context_t & ctx) 
     {
-        // Insert leave command before return in protected regions.
-        if (__need_leave(ctx))
-            xilx::append_xilx<leave_ret_xilx_t>(ctx);
-
         if (expression != nullptr)
         {
             __walk_variables(expression);
             set_assign_parent(expression);
         }
 
-        append_xilx<return_xilx_t>(ctx, expression);
+        // Insert leave command before return in protected regions.
+        append_xilx<return_xilx_t>(ctx, expression, __need_leave(ctx));
     }
 
     // Returns exit type.
diff --git a/modules/compile/xilx.cpp b/modules/compile/xilx.cpp
index 40f49e2..4e64683 100644
--- a/modules/compile/xilx.cpp
+++ b/modules/compile/xilx.cpp
@@ -492,6 +492,9 @@ namespace X_ROOT_NS::modules::compile {
             }
         }
 
+        if (leave)
+            xil::append_jmp_xil(pool, xil_jmp_model_t::leave);
+
         xil::append_ret(pool);
     }
 
-- 
2.43.0


From 91c82af050276dac234e4786b61313e10ae703a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:16 +0000
Subject: [PATCH 17/55] fix: parse numbers in scientific notation

---
 algorithm/numeric.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algorithm/numeric.cpp b/algorithm/numeric.cpp
index 0fd5376..082873f 100644
--- a/algorithm/numeric.cpp
+++ b/algorithm/numeric.cpp
@@ -211,7 +211,7 @@ namespace X_ROOT_NS::algorithm {
                     if (__point_zero_count > 0)
                     {
                         __numeric *= std::pow((_numeric_t)10.0, __point_zero_count);
-                        __pow -= __point_zero_count;
+                        __pow += (__ec == _T('+'))? -__point_zero_count : __point_zero_count;
                     }
 
                     _numeric_t ev = std::pow((_numeric_t)10.0, __pow);
@@ -505,7 +505,7 @@ namespace X_ROOT_NS::algorithm {
                         break;
 
                     case _T('E'): case _T('e'):
-                        if (__radix == 10)
+                        if (__radix == 10 || __radix == 0)
                         {
                             __set_e(__p);
                             if (*++__p != _T('+') && *__p != _T('-'))
-- 
2.43.0


From 30a8aa0705cc31c622d8812bbd37c5608d711de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:39 +0000
Subject: [PATCH 18/55] fix: negate an unsigned 32-bit literal as Int64

---
 algorithm/numeric.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/algorithm/numeric.cpp b/algorithm/numeric.cpp
index 082873f..965a552 100644
--- a/algorithm/numeric.cpp
+++ b/algorithm/numeric.cpp
@@ -642,7 +642,12 @@ namespace X_ROOT_NS::algorithm {
         __AlwaysInline tvalue_t __revise(tvalue_t value)
         {
             if (__tp == tp_negative)
-                value = -value;
+            {
+                if (value.type == value_type_t::uint32_)
+                    value = -(int64_t)value.get_value<uint32_t>();
+                else
+                    value = -value;
+            }
 
             return value;
         }
-- 
2.43.0


From 36bf6e515a8cd04fe80c5d3f87a9137e048c639e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:29 +0000
Subject: [PATCH 19/55] fix: do not evaluate the right operand of && and ||
 when the left one decides

---
 modules/compile/expression.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index f83de3f..9296159 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -897,6 +897,21 @@ namespace X_ROOT_NS::modules::compile {
         }
     }
 
+    // Compiles exp1, and compiles exp2 only when the value of exp1 doesn't decide the result.
+    static void __compile_short_circuit(__cctx_t & ctx, xil_pool_t & pool,
+                    expression_t * exp1, expression_t * exp2, xil_jmp_model_t jmp_model)
+    {
+        exp1->compile(ctx, pool);
+
+        pool.append<x_push_duplicate_xil_t>();
+        jmp_xil_t * finally_jmp_xil = xil::append_jmp_xil(pool, jmp_model);
+
+        pool.append<x_pop_empty_xil_t>(xil_type_t::bool_);
+        exp2->compile(ctx, pool);
+
+        xil::append_label_xil(ctx.statement_ctx, pool, finally_jmp_xil);
+    }
+
     // Compiles logic and expression.
     static void __compile_logic_and(__cctx_t & ctx, xil_pool_t & pool,
                                 expression_t * exp1, expression_t * exp2)
@@ -916,10 +931,7 @@ namespace X_ROOT_NS::modules::compile {
             }
         }
 
-        exp1->compile(ctx, pool);
-        exp2->compile(ctx, pool);
-
-        pool.append<x_logic_xil_t>(xil_logic_command_t::and_);
+        __compile_short_circuit(ctx, pool, exp1, exp2, xil_jmp_model_t::false_);
     }
 
     // Compiles logic or expression.
@@ -941,10 +953,7 @@ namespace X_ROOT_NS::modules::compile {
             }
         }
 
-        exp1->compile(ctx, pool);
-        exp2->compile(ctx, pool);
-
-        pool.append<x_logic_xil_t>(xil_logic_command_t::or_);
+        __compile_short_circuit(ctx, pool, exp1, exp2, xil_jmp_model_t::true_);
     }
 
     // Compiles logic not expression.
-- 
2.43.0


From e0f07fccc8893d1f08e43724136e226627dfeade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:57 +0000
Subject: [PATCH 20/55] fix: select the case of a switch by all bits of a small
 integer

---
 modules/compile/__xilx.h       |  6 ++++--
 modules/compile/statements.cpp | 24 +++++++++++++++++++++++-
 modules/compile/xilx.cpp       |  2 +-
 3 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/modules/compile/__xilx.h b/modules/compile/__xilx.h
index f38d5dd..e44e7c9 100644
--- a/modules/compile/__xilx.h
+++ b/modules/compile/__xilx.h
@@ -301,8 +301,9 @@ namespace X_ROOT_NS::modules::compile {
     public:
 
         // Constructor.
-        expression_xilx_t(__region_t & region, expression_t * expression)
-            : __super_t(region), __expression(expression)
+        expression_xilx_t(__region_t & region, expression_t * expression,
+                                                    xil_type_t dtype = xil_type_t::empty)
+            : __super_t(region), __expression(expression), __dtype(dtype)
         {
             _A(expression != nullptr);
         }
@@ -318,6 +319,7 @@ namespace X_ROOT_NS::modules::compile {
 
     private:
         expression_t * __expression;
+        xil_type_t __dtype;
     };
 
     ////////// ////////// ////////// ////////// //////////
diff --git a/modules/compile/statements.cpp b/modules/compile/statements.cpp
index 4a8c4be..6696872 100644
--- a/modules/compile/statements.cpp
+++ b/modules/compile/statements.cpp
@@ -1162,11 +1162,33 @@ namespace X_ROOT_NS::modules::compile {
         }
     }
 
+    // Returns whether it's an integer of less than 32 bits.
+    static bool __is_small_integer(vtype_t vtype)
+    {
+        switch (vtype)
+        {
+            case vtype_t::int8_:
+            case vtype_t::uint8_:
+            case vtype_t::int16_:
+            case vtype_t::uint16_:
+                return true;
+
+            default:
+                return false;
+        }
+    }
+
     // Compiles as switch statement.
     void switch_statement_t::__compile_as_switch (statement_compile_context_t & ctx, int row_count)
     {
         ctx.begin_region<__switch_statement_region_t>();
-        append_expression(ctx, expression);
+
+        // The switch command takes a whole int32 value from the stack.
+        __walk_variables(expression);
+        set_assign_parent(expression);
+        append_xilx<expression_xilx_t>(ctx, expression,
+            __is_small_integer(expression->get_vtype())? xil_type_t::int32 : xil_type_t::empty
+        );
 
         switch_table_t * tbl = ctx.switch_manager.append_table(row_count);
         __append_switch (ctx, tbl);
diff --git a/modules/compile/xilx.cpp b/modules/compile/xilx.cpp
index 4e64683..2866386 100644
--- a/modules/compile/xilx.cpp
+++ b/modules/compile/xilx.cpp
@@ -536,7 +536,7 @@ namespace X_ROOT_NS::modules::compile {
     // Writes xils to pool.
     void expression_xilx_t::write(__xw_context_t & ctx, xil_pool_t & pool)
     {
-        __compile_expression(ctx, pool, __expression);
+        __compile_expression(ctx, pool, __expression, __dtype);
     }
 
     ////////// ////////// ////////// ////////// //////////
-- 
2.43.0


From 1bbca3defd1a24cc6c64b0fdbc20572d38e3469e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:59 +0000
Subject: [PATCH 21/55] fix: do not print debug text when two analyze paths are
 compared

---
 modules/compile/analyze_tree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/compile/analyze_tree.cpp b/modules/compile/analyze_tree.cpp
index 1d504de..0221f87 100644
--- a/modules/compile/analyze_tree.cpp
+++ b/modules/compile/analyze_tree.cpp
@@ -3470,7 +3470,7 @@ namespace X_ROOT_NS::modules::compile {
         // action back track
         int back_track1 = __leaf_action_back_track(leaf1);
         int back_track2 = __leaf_action_back_track(leaf2);
-        _PF(_T("back track: %1%, %2%"), back_track1, back_track2);
+        // _PF(_T("back track: %1%, %2%"), back_track1, back_track2);
         __LessReturn(back_track1, back_track2);
 
         // action index
-- 
2.43.0


From 5a835bc0f3e81d25f1ebd69eeade9a910139b015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:21 +0000
Subject: [PATCH 22/55] fix: test the condition of do-while after a continue

---
 modules/compile/statements.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/modules/compile/statements.cpp b/modules/compile/statements.cpp
index 6696872..0cfce7e 100644
--- a/modules/compile/statements.cpp
+++ b/modules/compile/statements.cpp
@@ -682,15 +682,18 @@ namespace X_ROOT_NS::modules::compile {
     {
         ctx.begin_region<__do_while_statement_region_t>();
 
-        set_point(ctx, __exit_point_type_t::continue_);
+        local_label_t label_begin = ctx.next_local_label();
+        append_local_label(ctx, label_begin);
         compile_statement(ctx, body);
 
+        set_point(ctx, __exit_point_type_t::continue_);
+
         cvalue_t condition_value = __remove_unreached_codes(ctx)?
                         execute_expression(condition) : cvalue_t::nan;
 
         if (condition_value == true || condition == nullptr)
         {
-            append_jmp(ctx, __exit_point_type_t::continue_);
+            append_jmp(ctx, label_begin);
         }
         else if (condition_value == false)
         {
@@ -699,7 +702,7 @@ namespace X_ROOT_NS::modules::compile {
         else
         {
             append_expression(ctx, condition, true);
-            append_jmp(ctx, __exit_point_type_t::continue_, xil_jmp_model_t::true_);
+            append_jmp(ctx, label_begin, xil_jmp_model_t::true_);
         }
 
         set_point(ctx, __exit_point_type_t::break_);
-- 
2.43.0


From 19344c73264e53c854d92194e2bdec1d7451c01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:29 +0000
Subject: [PATCH 23/55] fix: copy all fields of a struct that is read from an
 array

---
 modules/compile/expression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 9296159..e1aa780 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -3052,7 +3052,7 @@ namespace X_ROOT_NS::modules::compile {
             );
 
             if (__need_object_copy(this))
-                __append_object_copy_xil(ctx, pool, array_type, xil_copy_kind_t::reverse);
+                __append_object_copy_xil(ctx, pool, element_type, xil_copy_kind_t::reverse);
         }
         else
         {
-- 
2.43.0


From 5aec7b0c3984deaaec17736c52517a0781a7c0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:29 +0000
Subject: [PATCH 24/55] fix: allocate array elements by the size of the element
 variable

---
 include/modules/rt.h | 3 +++
 modules/mm/mm.cpp    | 2 +-
 modules/rt/rt.cpp    | 6 ++++++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/modules/rt.h b/include/modules/rt.h
index c219c6d..063c8be 100644
--- a/include/modules/rt.h
+++ b/include/modules/rt.h
@@ -1516,6 +1516,9 @@ namespace X_ROOT_NS::modules::rt {
         // Dimension
         dimension_t dimension = 0;
 
+        // Size of an element, caculated when pre new.
+        msize_t element_size = unknown_msize;
+
         // Gets assembly.
         virtual rt_assembly_t * get_assembly() override final;
 
diff --git a/modules/mm/mm.cpp b/modules/mm/mm.cpp
index 2097bfa..70dba37 100644
--- a/modules/mm/mm.cpp
+++ b/modules/mm/mm.cpp
@@ -140,7 +140,7 @@ namespace X_ROOT_NS::modules::mm {
         dimension_t dimension = type->dimension;
 
         array_length_t length = *lengths;
-        size_t element_size = unit_align(1, type->element_type->get_size());
+        size_t element_size = type->element_size;
         for (const l_t * l = lengths + 1, * l_end = lengths + dimension; l < l_end; l++)
         {
             length *= *l;
diff --git a/modules/rt/rt.cpp b/modules/rt/rt.cpp
index bdcb780..a0eaaec 100644
--- a/modules/rt/rt.cpp
+++ b/modules/rt/rt.cpp
@@ -1792,6 +1792,12 @@ namespace X_ROOT_NS::modules::rt {
     void rt_array_type_t::pre_new(analyzer_env_t & env)
     {
         this->pre_static_call(env);
+
+        if (element_size == unknown_msize)
+        {
+            storage_type_t storage_type;
+            element_size = element_type->get_variable_size(env, &storage_type);
+        }
     }
 
     // Pre calling static method.
-- 
2.43.0


From 82d21183b29f353801a4544774a134779e39afbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:33 +0000
Subject: [PATCH 25/55] fix: keep the value of an assignment to an array
 element when it is used

---
 modules/compile/__xil_struct.h | 12 ++++++++++++
 modules/compile/expression.cpp |  8 +++++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/modules/compile/__xil_struct.h b/modules/compile/__xil_struct.h
index ddc2afe..8837a3c 100644
--- a/modules/compile/__xil_struct.h
+++ b/modules/compile/__xil_struct.h
@@ -700,6 +700,18 @@ namespace X_ROOT_NS::modules::compile {
         }
     };
 
+    // Pick array element xil.
+    struct x_pick_array_element_xil_t : xil_extra_t<pick_xil_t>
+    {
+        typedef xil_extra_t<pick_xil_t> __super_t;
+
+        x_pick_array_element_xil_t(xil_type_t xtype, ref_t array_type_ref)
+            : __super_t(xil_storage_type_t::array_element, xtype)
+        {
+            this->set_ref(array_type_ref);
+        }
+    };
+
     //-------- ---------- ---------- ---------- ----------
     // Pick variable address.
 
diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index e1aa780..36ece90 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -1267,9 +1267,11 @@ namespace X_ROOT_NS::modules::compile {
 
                 ref_t type_ref = __ref_of(ctx, array_type);
 
-                pool.append<x_pop_array_element_xil_t>(
-                    __to_xil_type(element_type), type_ref
-                );
+                xil_type_t xil_type = __to_xil_type(element_type);
+                if (pick)
+                    pool.append<x_pick_array_element_xil_t>(xil_type, type_ref);
+                else
+                    pool.append<x_pop_array_element_xil_t>(xil_type, type_ref);
 
             }   break;
 
-- 
2.43.0


From b14aecf3d4ef83e4c6870e2394385ff0551b7d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:55 +0000
Subject: [PATCH 26/55] fix: clear the struct created by new with the default
 constructor

---
 modules/compile/expression.cpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 36ece90..4e669ea 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -3202,8 +3202,9 @@ namespace X_ROOT_NS::modules::compile {
         }
         else
         {
-            // Pop the address of struct object.
-            pool.append<x_pop_empty_xil_t>(xil_type_t::ptr);
+            // Pop the address of struct object, and clear it.
+            ref_t type_ref = __ref_of(ctx, type);
+            pool.append<x_object_copy_xil_t>(type_ref, xil_copy_kind_t::zero);
         }
 
         if (this->arguments() != nullptr)
@@ -3221,14 +3222,6 @@ namespace X_ROOT_NS::modules::compile {
             ref_t method_ref = __search_method_ref(ctx, this->constructor);
             pool.append<x_method_call_xil_t>(xil_call_type_t::instance, method_ref);
         }
-
-        /*
-        else    // default constructor.
-        {
-            ref_t type_ref = __ref_of(ctx, type);
-            pool.append<x_object_copy_xil_t>(type_ref, xil_copy_kind_t::zero);
-        }
-        */
     }
 
     // Creates instance of a generic param type.
-- 
2.43.0


From d99d29d79d2cf231bc38c0a7d38d40f51dae81c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:22 +0000
Subject: [PATCH 27/55] fix: do not share the command writing a parameter with
 the one writing through a ref parameter

---
 modules/exec/commands.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index 70f393f..4f13af2 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -3272,7 +3272,7 @@ namespace X_ROOT_NS::modules::exec {
             #define __CaseArgumentAddr(_xt1, _xt2)                                      \
                 case __V(xil_storage_type_t::argument_addr, xil_type_t::_xt1, xil_type_t::_xt2): \
                     return __command_manager.template get_command<                      \
-                        __StCmd(pop, argument, _xt1, _xt2),                             \
+                        __StCmd(pop, argument_addr, _xt1, _xt2),                        \
                         xil_storage_type_t::argument_addr, xil_type_t::_xt1, xil_type_t::_xt2 \
                     >(ctx.params_layout.offset_of(xil.get_identity()));
 
-- 
2.43.0


From dc7f8482bfef4995e8e143b8e5d2d9320ad28742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:05 +0000
Subject: [PATCH 28/55] fix: an interface call runs an override inherited from
 an intermediate class

---
 modules/rt/rt.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/modules/rt/rt.cpp b/modules/rt/rt.cpp
index a0eaaec..54a627f 100644
--- a/modules/rt/rt.cpp
+++ b/modules/rt/rt.cpp
@@ -979,9 +979,7 @@ namespace X_ROOT_NS::modules::rt {
                 vfs[index] = __rt_interface_vfunction_t {
                     method, (uint32_t)type->get_assembly()->index, ref.index
                 };
-            }
-            else
-            {
+
                 stop_build = true;
             }
 
@@ -1032,7 +1030,7 @@ namespace X_ROOT_NS::modules::rt {
                 rt_type_t * type1 = raw_type;
                 while (type1 != type)
                 {
-                    if (!__build_interface_override(analyzer, type1, vfs, index,
+                    if (__build_interface_override(analyzer, type1, vfs, index,
                                                             interface_type, prototype))
                         break;
 
-- 
2.43.0


From 1db1d09e6847fcda1fc2adcd71ef5176bec3d638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:50 +0000
Subject: [PATCH 29/55] fix: the escape sequence \f is a form feed

---
 modules/compile/token_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/compile/token_reader.cpp b/modules/compile/token_reader.cpp
index 4d7c2df..b585838 100644
--- a/modules/compile/token_reader.cpp
+++ b/modules/compile/token_reader.cpp
@@ -254,7 +254,7 @@ namespace X_ROOT_NS::modules::compile {
                 break;
 
             case _T('f'):
-                *out_c = _T('f');
+                *out_c = _T('\f');
                 break;
 
             default:
-- 
2.43.0


From 135a0f1cedcd617d988c28a1144c0fe013968233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:50 +0000
Subject: [PATCH 30/55] fix: "" in a verbatim string is a quote, not the end of
 the string

---
 modules/compile/token_reader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/compile/token_reader.cpp b/modules/compile/token_reader.cpp
index b585838..0f62108 100644
--- a/modules/compile/token_reader.cpp
+++ b/modules/compile/token_reader.cpp
@@ -331,6 +331,7 @@ namespace X_ROOT_NS::modules::compile {
                         s << *(__p++);
                     else
                         goto __end;
+                    break;
 
                 case _T('\0'):
                     error_code = e_t::string_format_error;
-- 
2.43.0


From 1100037a54939b3df006c805d757dcf58707fe90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:35 +0000
Subject: [PATCH 31/55] fix: a character literal without its closing quote no
 longer hangs the compiler

---
 modules/compile/token_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/compile/token_reader.cpp b/modules/compile/token_reader.cpp
index 0f62108..63b3f17 100644
--- a/modules/compile/token_reader.cpp
+++ b/modules/compile/token_reader.cpp
@@ -384,7 +384,7 @@ namespace X_ROOT_NS::modules::compile {
                 case _T('\r'): case _T('\n'): case _T('\0'):
                     error_code = e_t::char_format_error;
                     error_message = _T("missing terminating ' character");
-                    break;
+                    goto __end;
 
                 default:
                     ret_c = *__p++;
-- 
2.43.0


From acbdf6645854f6638bc1007db0fe6ec3a3804436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:49 +0000
Subject: [PATCH 32/55] fix: an indexer's setter receives the assigned value
 and is called virtually when it is virtual

---
 modules/compile/expression.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 4e669ea..feb2569 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -1287,9 +1287,10 @@ namespace X_ROOT_NS::modules::compile {
                     __Failed("property '%1%' cannot be write", var);
 
                 __validate_set_method(ctx, method);
+                __compile_argument(ctx, pool, exp2, method, index_var->arguments->size());
 
                 ref_t method_ref = __search_method_ref(ctx, method);
-                pool.append<x_method_call_xil_t>(xil_call_type_t::instance, method_ref);
+                pool.append<x_method_call_xil_t>(__call_type_of_method(method), method_ref);
 
             }   break;
 
-- 
2.43.0


From 776bd13dfbe8e60e3351eca071439b0808975a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:49 +0000
Subject: [PATCH 33/55] fix: simplified operations (x + 0, 1 * x, x << 0 ...)
 keep the type and the value of the result

---
 modules/compile/expression.cpp | 41 ++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index feb2569..8249048 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -671,19 +671,35 @@ namespace X_ROOT_NS::modules::compile {
         return is_optimize(ctx, compile_optimize_code_t::optimize_basic_algorighm);
     }
 
+    // Returns whether an operand with specified constant value can be omitted, so that the other
+    // operand alone gives the result: it must have the type of the result.
+    static bool __can_omit(operator_t op, expression_t * exp, const cvalue_t & value,
+                           expression_t * other, bool integer_only = false)
+    {
+        vtype_t vtype = other->get_vtype();
+
+        if (get_binary_vtype(op, exp->get_vtype(), vtype) != vtype)
+            return false;
+
+        if (integer_only && (vtype == vtype_t::float_ || vtype == vtype_t::double_))
+            return false;   // 0.0 and -0.0 are different.
+
+        return __execute_expression(exp) == value;
+    }
+
     // Compiles add expression.
     static void __compile_add(__cctx_t & ctx, xil_pool_t & pool,
                                 expression_t * exp1, expression_t * exp2)
     {
         if (__is_optimize_basic_algorighm(ctx))
         {
-            if (__execute_expression(exp1) == cvalue_t(0))  // x + 0
+            if (__can_omit(operator_t::add, exp1, cvalue_t(0), exp2, true))  // x + 0
             {
                 exp2->compile(ctx, pool);
                 return;
             }
 
-            if (__execute_expression(exp2) == cvalue_t(0)) // 0 + x
+            if (__can_omit(operator_t::add, exp2, cvalue_t(0), exp1, true)) // 0 + x
             {
                 exp1->compile(ctx, pool);
                 return;
@@ -704,14 +720,15 @@ namespace X_ROOT_NS::modules::compile {
     {
         if (__is_optimize_basic_algorighm(ctx))
         {
-            if (__execute_expression(exp1) == cvalue_t(0))  // 0 * x
+            if (__can_omit(operator_t::sub, exp1, cvalue_t(0), exp2, true)
+                && get_unitary_vtype(operator_t::minus, exp2->get_vtype()) == exp2->get_vtype())  // 0 - x
             {
                 exp2->compile(ctx, pool);
-                pool.append<x_al_xil_t>(xil_al_command_t::minus, __xil_type(exp1));
+                pool.append<x_al_xil_t>(xil_al_command_t::minus, __xil_type(exp2));
                 return;
             }
 
-            if (__execute_expression(exp2) == cvalue_t(0))  // x * 0
+            if (__can_omit(operator_t::sub, exp2, cvalue_t(0), exp1))  // x - 0
             {
                 exp1->compile(ctx, pool);
                 return;
@@ -732,13 +749,13 @@ namespace X_ROOT_NS::modules::compile {
     {
         if (__is_optimize_basic_algorighm(ctx))
         {
-            if (__execute_expression(exp1) == cvalue_t(1)) // 1 * x
+            if (__can_omit(operator_t::mul, exp1, cvalue_t(1), exp2)) // 1 * x
             {
                 exp2->compile(ctx, pool);
                 return;
             }
 
-            if (__execute_expression(exp2) == cvalue_t(1))  // x * 1
+            if (__can_omit(operator_t::mul, exp2, cvalue_t(1), exp1))  // x * 1
             {
                 exp1->compile(ctx, pool);
                 return;
@@ -761,7 +778,7 @@ namespace X_ROOT_NS::modules::compile {
     {
         if (__is_optimize_basic_algorighm(ctx))
         {
-            if (__execute_expression(exp2) == cvalue_t(1))      // x / 1
+            if (__can_omit(operator_t::div, exp2, cvalue_t(1), exp1))      // x / 1
             {
                 exp1->compile(ctx, pool);
                 return;
@@ -806,13 +823,13 @@ namespace X_ROOT_NS::modules::compile {
     {
         if (__is_optimize_basic_algorighm(ctx))
         {
-            if (__execute_expression(exp1) == cvalue_t(0))     // 0 | x
+            if (__can_omit(operator_t::bit_or, exp1, cvalue_t(0), exp2))     // 0 | x
             {
                 exp2->compile(ctx, pool);
                 return;
             }
 
-            if (__execute_expression(exp2) == cvalue_t(0))     // x | 0
+            if (__can_omit(operator_t::bit_or, exp2, cvalue_t(0), exp1))     // x | 0
             {
                 exp1->compile(ctx, pool);
                 return;
@@ -845,7 +862,7 @@ namespace X_ROOT_NS::modules::compile {
     {
         if (__is_optimize_basic_algorighm(ctx))
         {
-            if (__execute_expression(exp2) == cvalue_t(0))     // x << 0
+            if (__can_omit(operator_t::left_shift, exp2, cvalue_t(0), exp1))     // x << 0
             {
                 exp1->compile(ctx, pool);
                 return;
@@ -866,7 +883,7 @@ namespace X_ROOT_NS::modules::compile {
     {
         if (__is_optimize_basic_algorighm(ctx))
         {
-            if (__execute_expression(exp2) == cvalue_t(0))     // x >> 0
+            if (__can_omit(operator_t::right_shift, exp2, cvalue_t(0), exp1))     // x >> 0
             {
                 exp1->compile(ctx, pool);
                 return;
-- 
2.43.0


From 94d0ee2b54624ea1669f1a2f941888f658b7af3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:49 +0000
Subject: [PATCH 34/55] fix: only variables that are never written again, also
 through ref or out, become constants

---
 include/modules/core.h         |  2 +-
 modules/compile/statements.cpp | 21 ++++++++++++++++++++-
 modules/compile/xilx.cpp       |  2 +-
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/modules/core.h b/include/modules/core.h
index 74f79a7..26e831b 100644
--- a/include/modules/core.h
+++ b/include/modules/core.h
@@ -6732,7 +6732,7 @@ namespace X_ROOT_NS::modules::core {
     // Returns whether it is a constant expression.
     X_INLINE bool is_constant_expression(expression_t * exp)
     {
-        return exp->execute() == cvalue_t::nan;
+        return exp->execute() != cvalue_t::nan;
     }
 
     // Executes the expression.
diff --git a/modules/compile/statements.cpp b/modules/compile/statements.cpp
index 0cfce7e..7c413e3 100644
--- a/modules/compile/statements.cpp
+++ b/modules/compile/statements.cpp
@@ -385,6 +385,25 @@ namespace X_ROOT_NS::modules::compile {
         return nullptr;
     }
 
+    // Returns whether the expression is passed as a ref or out argument.
+    static bool __is_ref_argument(expression_t * exp)
+    {
+        expression_t * parent = exp->parent;
+        if (parent == nullptr)
+            return false;
+
+        arguments_t * arguments = nullptr;
+
+        if (parent->this_family() == expression_family_t::function)
+            arguments = ((function_expression_t *)parent)->arguments();
+        else if (parent->this_family() == expression_family_t::new_)
+            arguments = ((new_expression_t *)parent)->arguments();
+
+        return arguments != nullptr && al::any_of(*arguments, [exp](argument_t * argument) {
+            return argument->expression == exp && argument->atype != param_type_t::__default__;
+        });
+    }
+
     // Walk variables, add variable reference count.
     void __walk_variables(expression_t * exp)
     {
@@ -401,7 +420,7 @@ namespace X_ROOT_NS::modules::compile {
             const operator_property_t * op_property;
 
             if (op_exp && (op_property = op_exp->get_operator_property()) != nullptr
-                      && op_property->is_assign)
+                      && op_property->is_assign || __is_ref_argument(e))
             {
                 var->write_count++;
             }
diff --git a/modules/compile/xilx.cpp b/modules/compile/xilx.cpp
index 2866386..4d7ebe1 100644
--- a/modules/compile/xilx.cpp
+++ b/modules/compile/xilx.cpp
@@ -448,7 +448,7 @@ namespace X_ROOT_NS::modules::compile {
 
         if (local->write_count == 1)
         {
-            if (is_constant_expression(expression))
+            if (is_constant_expression(expression) && expression->get_type() == local_type)
             {
                 if (is_optimize(ctx, compile_optimize_code_t::auto_determine_constant_variables))
                 {
-- 
2.43.0


From f47508e9d902c179e66da37d2b7cebb66ccda43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:53 +0000
Subject: [PATCH 35/55] fix: a constant expression used as an object is boxed
 when constants are computed by the compiler

---
 modules/compile/expression.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 8249048..b27b053 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -146,6 +146,10 @@ namespace X_ROOT_NS::modules::compile {
 
         cvalue_t cvalue = __execute_expression(expression);
 
+        // It will be boxed, not supported here.
+        if (is_number(cvalue) && (env.dtype == xil_type_t::object || env.is_ref()))
+            return false;
+
         if (!is_nan(cvalue) && cvalue.value_type != cvalue_type_t::__default__)
         {
             if (is_effective(ctx, expression))
-- 
2.43.0


From b1f16b702566c77e9ca4a038c44fcc22e87064b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:52 +0000
Subject: [PATCH 36/55] fix: an assignment of a string literal is no longer
 taken for a constant and dropped

---
 modules/core/expression_executor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/core/expression_executor.cpp b/modules/core/expression_executor.cpp
index c784173..580cf2f 100644
--- a/modules/core/expression_executor.cpp
+++ b/modules/core/expression_executor.cpp
@@ -545,7 +545,10 @@ namespace X_ROOT_NS::modules::core {
             return cvalue_t::nan;
 
         cvalue_t cv1 = e1->execute(), cv2 = e2->execute();
-        if (is_string(cv1) || is_string(cv2))
+        if (is_nan(cv1) || is_nan(cv2))
+            return cvalue_t::nan;
+
+        if (this->op() == operator_t::add && (is_string(cv1) || is_string(cv2)))
         {
             string_t s = _F(_T("%1%%2%"), cv1, cv2);
             return cvalue_t(__SPool.to_sid(s).c_str());
-- 
2.43.0


From 7c070b6bf9e1574d8577ffa11e0923fd951a77a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:52 +0000
Subject: [PATCH 37/55] fix: a constant string used as an object is boxed too
 when constants are computed

---
 modules/compile/expression.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index b27b053..91f719e 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -146,8 +146,8 @@ namespace X_ROOT_NS::modules::compile {
 
         cvalue_t cvalue = __execute_expression(expression);
 
-        // It will be boxed, not supported here.
-        if (is_number(cvalue) && (env.dtype == xil_type_t::object || env.is_ref()))
+        // It may be boxed, not supported here.
+        if (env.dtype == xil_type_t::object || env.is_ref())
             return false;
 
         if (!is_nan(cvalue) && cvalue.value_type != cvalue_type_t::__default__)
-- 
2.43.0


From 16e4f7d3151abaf89831aef9eab73521bf68abb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:32 +0000
Subject: [PATCH 38/55] fix: read the upper half of a 64-bit constant from the
 two bytes it is written in

---
 modules/core/__assembly_layout.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/__assembly_layout.h b/modules/core/__assembly_layout.h
index 63b65ca..aaf2da3 100644
--- a/modules/core/__assembly_layout.h
+++ b/modules/core/__assembly_layout.h
@@ -1816,7 +1816,7 @@ namespace X_ROOT_NS::modules::core {
             if (!mt.constant_flag.extern_)
             {
                 uint32_t v2 = *(uint32_t *)mt.data2;
-                uint32_t v1 = *(uint32_t *)mt.data1;
+                uint32_t v1 = *(uint16_t *)mt.data1;
 
                 if (mt.constant_flag.cpl)
                     v1 = ~v1;
-- 
2.43.0


From 7e1ffbc154b417ccc9ce4c51b2306eba02c22f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:32 +0000
Subject: [PATCH 39/55] fix: give a constant the type it is declared with

---
 modules/compile/expression.cpp | 15 ++++++---------
 modules/core/core.cpp          | 14 ++++++++++++--
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 91f719e..29df166 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -1692,7 +1692,7 @@ namespace X_ROOT_NS::modules::compile {
 
         if (variable->constant)
         {
-            cvalue_t cvalue = __execute_expression(variable->expression);
+            cvalue_t cvalue = variable->execute();
             _A(cvalue != cvalue_t::nan);
 
             __compile_cvalue(ctx, pool, cvalue, dtype);
@@ -2005,16 +2005,13 @@ namespace X_ROOT_NS::modules::compile {
 
     // Compiles static const field.
     static void __compile_static_const_field(__cctx_t & ctx, xil_pool_t & pool,
-                    field_t * field, xil_type_t dtype)
+                    field_variable_t * variable, xil_type_t dtype)
     {
-        cvalue_t cv;
-        if (field->init_value != nullptr)
-            cv = field->init_value->execute();
-        else
-            cv = default_value_of(field->get_vtype());
+        cvalue_t cv = variable->execute();
 
         if (is_nan(cv))
-            __Failed("expected constant value for static const field '%1%'", field->name);
+            __Failed("expected constant value for static const field '%1%'",
+                                                    variable->field->name);
 
         __compile_cvalue(ctx, pool, cv, dtype);
     }
@@ -2040,7 +2037,7 @@ namespace X_ROOT_NS::modules::compile {
                 field_t * field = ((field_variable_t *)variable)->field;
                 if (is_static_const(field))
                 {
-                    __compile_static_const_field(ctx, pool, field, env);
+                    __compile_static_const_field(ctx, pool, (field_variable_t *)variable, env);
                 }
                 else
                 {
diff --git a/modules/core/core.cpp b/modules/core/core.cpp
index 0bdea18..9858bdd 100644
--- a/modules/core/core.cpp
+++ b/modules/core/core.cpp
@@ -5431,11 +5431,21 @@ namespace X_ROOT_NS::modules::core {
 
     //-------- ---------- ---------- ---------- ----------
 
+    // Converts the value of a constant to the type it is declared with.
+    static cvalue_t __to_declared_type(const cvalue_t & value, vtype_t vtype)
+    {
+        if (!is_number(value))
+            return value;
+
+        cvalue_t value1 = value.change_type(vtype);
+        return is_nan(value1)? value : value1;
+    }
+
     // Execute the variable.
     cvalue_t local_variable_t::execute()
     {
         return expression == nullptr || !constant?
-            cvalue_t::nan : expression->execute();
+            cvalue_t::nan : __to_declared_type(expression->execute(), get_vtype());
     }
 
     // Returns vtype.
@@ -5501,7 +5511,7 @@ namespace X_ROOT_NS::modules::core {
         if (field->init_value == nullptr)
             return default_value_of(get_vtype());
 
-        return field->init_value->execute();
+        return __to_declared_type(field->init_value->execute(), get_vtype());
     }
 
     // Converts field variable to a string.
-- 
2.43.0


From 9dd21c6bfb1b0615c3c76c3b92ba8bc5264f7ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:18 +0000
Subject: [PATCH 40/55] fix: accept a generic return type when a library's
 method references are read

---
 modules/core/assembly_reader.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/modules/core/assembly_reader.cpp b/modules/core/assembly_reader.cpp
index e3b9b13..578e3ca 100644
--- a/modules/core/assembly_reader.cpp
+++ b/modules/core/assembly_reader.cpp
@@ -806,6 +806,13 @@ namespace X_ROOT_NS::modules::core {
             }
         }
 
+        // Returns whether the type is the generic param which the ref stands for.
+        bool __is_import_generic_param(type_t * type, ref_t ref)
+        {
+            return type != nullptr && type->this_gtype() == gtype_t::generic_param
+                && (mt_type_extra_t)ref.extra == mt_type_extra_t::generic_param_index;
+        }
+
         // Imports method refs.
         void __import_method_refs()
         {
@@ -841,7 +848,8 @@ namespace X_ROOT_NS::modules::core {
                     throw _ED(__e_t::method_not_found, name);
 
                 type_t * ret_type = __get_import_method_param_type(mt->type);
-                if (to_type(method->type_name) != ret_type)
+                if (to_type(method->type_name) != ret_type
+                    && !__is_import_generic_param(to_type(method->type_name), mt->type))
                 {
                     throw _ED(__e_t::method_return_type_not_matched, name);
                 }
-- 
2.43.0


From d517fc6cdd2c2f1b2201f5be1b8877013b2bff8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:50 +0000
Subject: [PATCH 41/55] fix: a throw outside every try block of its method no
 longer reads past the method's blocks

---
 include/modules/exec.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/modules/exec.h b/include/modules/exec.h
index ea40ec2..a78c842 100644
--- a/include/modules/exec.h
+++ b/include/modules/exec.h
@@ -608,6 +608,10 @@ namespace X_ROOT_NS::modules::exec {
                 }
             }
 
+            // No block contains the point.
+            if (block == block_end)
+                return;
+
             while ((block = block->parent) != nullptr)
             {
                 if (__MatchBlockType(block) && !f(block))
-- 
2.43.0


From a007b25be83a3d723f91511f5236b08fc8b7d576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:55 +0000
Subject: [PATCH 42/55] fix: a loop, switch or try statement that can end
 normally is no longer taken for one that cannot

---
 modules/compile/statements.cpp | 43 ++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/modules/compile/statements.cpp b/modules/compile/statements.cpp
index 7c413e3..8fc7219 100644
--- a/modules/compile/statements.cpp
+++ b/modules/compile/statements.cpp
@@ -166,6 +166,19 @@ namespace X_ROOT_NS::modules::compile {
         return statement->exit_type(ctx);
     }
 
+    // Returns exit type of a loop.
+    // pass: whether the loop can be ended by its condition.
+    __e_exit_type_t __loop_exit_type(__e_exit_type_t et_body, bool pass)
+    {
+        pass |= et_body.has(__exit_type_t::break_);
+
+        et_body.remove(__exit_type_t::break_, __exit_type_t::continue_, __exit_type_t::pass);
+        if (pass)
+            et_body.add(__exit_type_t::pass);
+
+        return et_body;
+    }
+
     // Returns whether statement is pass through.
     bool __statement_pass(statement_compile_context_t & ctx, statement_t * statement)
     {
@@ -740,12 +753,12 @@ namespace X_ROOT_NS::modules::compile {
             if (!et_body.has(__FreeExitFlags))
                 return __exit_type_t::dead_cycle;
 
-            return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_,
-                                  __exit_type_t::pass);
+            return __loop_exit_type(et_body, false);
         }
 
         __e_exit_type_t et_body = __exit_type(ctx, body);
-        return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_);
+        return __loop_exit_type(et_body, !et_body
+            || et_body.has(__exit_type_t::pass, __exit_type_t::continue_));
     }
 
     X_DEFINE_TO_STRING(do_while_statement_t)
@@ -882,12 +895,11 @@ namespace X_ROOT_NS::modules::compile {
             if (!et_body.has(__FreeExitFlags))
                 return __exit_type_t::dead_cycle;
 
-            return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_,
-                                  __exit_type_t::pass);
+            return __loop_exit_type(et_body, false);
         }
 
         __e_exit_type_t et_body = __exit_type(ctx, body);
-        return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_);
+        return __loop_exit_type(et_body, true);
     }
 
     X_DEFINE_TO_STRING(while_statement_t)
@@ -975,12 +987,11 @@ namespace X_ROOT_NS::modules::compile {
             if (!et_body.has(__FreeExitFlags))
                 return __exit_type_t::dead_cycle;
 
-            return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_,
-                                  __exit_type_t::pass);
+            return __loop_exit_type(et_body, false);
         }
 
         __e_exit_type_t et_body = __exit_type(ctx, body);
-        return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_);
+        return __loop_exit_type(et_body, true);
     }
 
     X_DEFINE_TO_STRING(for_statement_t)
@@ -1514,7 +1525,7 @@ namespace X_ROOT_NS::modules::compile {
                 __e_exit_type_t et = __exit_type_of(ctx, (*it)->statements);
                 type |= et;
 
-                if (et.has(__exit_type_t::break_))
+                if (!et || et.has(__exit_type_t::break_))
                     type.add(__exit_type_t::pass);
             }
 
@@ -1708,8 +1719,8 @@ namespace X_ROOT_NS::modules::compile {
             return et_finally;
 
         __e_exit_type_t et = __exit_type_of(ctx, try_statement);
-        if (!et.has(__exit_type_t::throw_))
-            return et;
+        if (!et)
+            et.add(__exit_type_t::pass);
 
         general_type_t * exception_type = __XPool.get_exception_type();
         for (catch_t * c : catches)
@@ -1718,6 +1729,14 @@ namespace X_ROOT_NS::modules::compile {
                 et.remove(__exit_type_t::throw_);
         }
 
+        for (catch_t * c : catches)
+        {
+            __e_exit_type_t et_catch = c == nullptr?
+                __exit_type_t::none : __exit_type_of(ctx, c->body);
+
+            et |= et_catch? *et_catch : __exit_type_t::pass;
+        }
+
         return *et;
     }
 
-- 
2.43.0


From 81c51791a0e7f51e8252c1d7c9e50ef48b629d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:05 +0000
Subject: [PATCH 43/55] fix: a delegate of a static method no longer leaves its
 instance slot on the stack

---
 include/modules/exec.h    | 11 +++++++++++
 modules/exec/commands.cpp |  9 ++++++++-
 modules/exec/parser.cpp   |  2 ++
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/modules/exec.h b/include/modules/exec.h
index a78c842..5cc559f 100644
--- a/include/modules/exec.h
+++ b/include/modules/exec.h
@@ -909,6 +909,7 @@ namespace X_ROOT_NS::modules::exec {
 
         uint16_t    ref_objects;
         msize_t     stack_unit_size;
+        msize_t     param_unit_size;
         msize_t     this_offset;
 
     private:
@@ -1011,6 +1012,16 @@ namespace X_ROOT_NS::modules::exec {
             this->current = method->get_commands();
         }
 
+        // Removes units from the stack, below the calling stub. (offset: from the calling bottom)
+        __AlwaysInline void remove_units(msize_t offset, msize_t units) _NE
+        {
+            rt_stack_unit_t * lp = stack.lp();
+
+            std::copy(lp - offset + units, lp, lp - offset);
+            stack.set_lp(lp - units);
+            stack.set_top(stack.top() - units);
+        }
+
         // Returns whether stack is on head.
         __AlwaysInline bool stack_empty() _NE
         {
diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index 4f13af2..ed5ee9d 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -4715,7 +4715,14 @@ namespace X_ROOT_NS::modules::exec {
 
             exec_method_t * exec_method = ctx.env.exec_method_of(method);
 
-            __Argument(rt_object_t *, __this_offset) = object;
+            // A static method takes no instance.
+            msize_t this_units = __this_offset - __stack_stub_size - exec_method->param_unit_size;
+
+            if (this_units > 0)
+                ctx.remove_units(__this_offset, this_units);
+            else
+                __Argument(rt_object_t *, __this_offset) = object;
+
             ctx.switch_to(exec_method);
 
         __EndExecute()
diff --git a/modules/exec/parser.cpp b/modules/exec/parser.cpp
index 84c9c38..2739d0e 100644
--- a/modules/exec/parser.cpp
+++ b/modules/exec/parser.cpp
@@ -202,6 +202,7 @@ namespace X_ROOT_NS::modules::exec {
 
         __exec_method->ref_objects = ref_objects;
         __exec_method->stack_unit_size = locals_layout.unit_size();
+        __exec_method->param_unit_size = params_layout.unit_size();
         __exec_method->this_offset = this_offset;
     }
 
@@ -336,6 +337,7 @@ namespace X_ROOT_NS::modules::exec {
 
         __exec_method->ref_objects = ref_objects;
         __exec_method->stack_unit_size = locals_layout.unit_size();
+        __exec_method->param_unit_size = params_layout.unit_size();
         __exec_method->this_offset = this_offset;
     }
 
-- 
2.43.0


From 76bab079038cff4eba7ba63025f5c74de338238a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:01 +0000
Subject: [PATCH 44/55] fix: box the result of a method that is called by its
 simple name or through a delegate

---
 modules/compile/expression.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 29df166..be66a93 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -2748,6 +2748,18 @@ namespace X_ROOT_NS::modules::compile {
         return array_type;
     }
 
+    // Converts or boxes the result of a method.
+    static void __convert_method_result(__cctx_t & ctx, xil_pool_t & pool,
+                                        method_base_t * method, const __environment_t & env)
+    {
+        type_t * type = method->get_type();
+
+        if (env.is_ref() && type != nullptr && is_value_type(type))
+            pool.append<x_push_box_xil_t>(__ref_of(ctx, type));
+        else
+            __try_append_convert_xil(pool, type, env);
+    }
+
     // Compile method calling expression.
     void __sys_t<function_expression_t>::__compile_method(__cctx_t & ctx, xil_pool_t & pool,
                                                           const __environment_t & env)
@@ -2825,7 +2837,7 @@ namespace X_ROOT_NS::modules::compile {
             }
 
             if (env.dtype != xil_type_t::empty)
-                __try_append_convert_xil(pool, method->get_type(), env);
+                __convert_method_result(ctx, pool, method, env);
             else
                 __try_pop_empty_for_method(ctx, pool, method, this);
         }
@@ -2870,7 +2882,7 @@ namespace X_ROOT_NS::modules::compile {
         pool.append<x_method_call_xil_t>(xil_call_type_t::instance, method_ref);
 
         if (env.dtype != xil_type_t::empty)
-            __try_append_convert_xil(pool, method->get_type(), env);
+            __convert_method_result(ctx, pool, method, env);
         else
             __try_pop_empty_for_method(ctx, pool, method, this);
     }
@@ -2907,7 +2919,7 @@ namespace X_ROOT_NS::modules::compile {
         pool.append<x_method_call_xil_t>(xil_call_type_t::instance, method_ref);
 
         if (env.dtype != xil_type_t::empty)
-            __try_append_convert_xil(pool, method->get_type(), env);
+            __convert_method_result(ctx, pool, method, env);
         else
             __try_pop_empty_for_method(ctx, pool, method, this);
     }
-- 
2.43.0


From 0f33f28b38483ba016179cbe3b988c77d8a08efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:01 +0000
Subject: [PATCH 45/55] fix: convert and box the value of an indexer

---
 modules/compile/expression.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index be66a93..d5227e3 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -3104,6 +3104,9 @@ namespace X_ROOT_NS::modules::compile {
     {
         namex->compile(ctx, pool);
         __compile_property_index_variable(ctx, pool, variable, env, this);
+
+        if (this->parent != nullptr)
+            __post_compile_expression(ctx, pool, this, env, variable->get_type());
     }
 
     ////////// ////////// ////////// ////////// //////////
-- 
2.43.0


From 1c256b46a337e8523c7dc9dde384a11ff20f82e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:20 +0000
Subject: [PATCH 46/55] fix: an index of an array of structs is not converted
 to the element type

An assignment to an element of an array of structs compiled the index with
the element type as its expected type and left one unit too many on the
evaluation stack.
---
 modules/compile/expression.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index d5227e3..6eb8c33 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -437,8 +437,7 @@ namespace X_ROOT_NS::modules::compile {
                 __FailedWhenNull(var->arguments, "index '%1%' arguments missing", var);
                 __FailedWhenNull(var->body, "index '%1%' body missing", var);
 
-                __static_param_types_t param_types(var);
-                __compile_arguments(ctx, pool, var->arguments, &param_types);
+                __compile_arguments(ctx, pool, var->arguments);
                 var->body->compile(ctx, pool);
 
                 pool.append<x_push_array_element_addr_xil_t>(
-- 
2.43.0


From 615d1015c7a021c8080eafec81a73de41d71f564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:49 +0000
Subject: [PATCH 47/55] fix: a + or - after ) ] ++ -- or a comment is an
 operator and not the sign of a number

'F(k)-1', 'a[k]-1', '(k + 1)-1', 'k++-1' and 'k /* */-1' were read as an
operand followed by a signed literal and the program was rejected.
---
 include/modules/lang_cs.h           |  6 +++
 modules/lang_cs/cs_token_reader.cpp | 68 ++++++++++++++++++++++++++---
 2 files changed, 69 insertions(+), 5 deletions(-)

diff --git a/include/modules/lang_cs.h b/include/modules/lang_cs.h
index f91d54e..d6fcf0e 100644
--- a/include/modules/lang_cs.h
+++ b/include/modules/lang_cs.h
@@ -91,6 +91,12 @@ namespace X_ROOT_NS::modules::lang_cs {
 
     private:
         token_t * __next_token = nullptr;
+
+        // Values of the last tokens except comments, the newest first.
+        cs_token_value_t __last_values[4] = { };
+
+        token_t * __read_next();
+        bool __follows_operand() const;
     };
 
     typedef ttoken_reader_t<cs_token_enumerator_t> cs_token_reader_t;
diff --git a/modules/lang_cs/cs_token_reader.cpp b/modules/lang_cs/cs_token_reader.cpp
index 56907e3..a2ab815 100644
--- a/modules/lang_cs/cs_token_reader.cpp
+++ b/modules/lang_cs/cs_token_reader.cpp
@@ -52,6 +52,67 @@ namespace X_ROOT_NS::modules::lang_cs {
 
     // Returns the next token.
     token_t * cs_token_enumerator_t::next()
+    {
+        token_t * token = __read_next();
+
+        if (token != nullptr && token->value != __Wt(comment))
+        {
+            token_value_t value = token->value;
+            if (value == __Wt(__unknown__) && token->data != nullptr
+                && token->data->possible_values != nullptr)
+            {
+                value = token->data->possible_values[0];
+            }
+
+            std::copy_backward(__last_values, __last_values + 3, __last_values + 4);
+            __last_values[0] = (w_t)value;
+        }
+
+        return token;
+    }
+
+    // Returns whether the last token is the end of an operand, a '+' or '-' after it is a binary
+    // operator but not the sign of a number.
+    bool cs_token_enumerator_t::__follows_operand() const
+    {
+        switch (__last_values[0])
+        {
+            case w_t::name:
+            case w_t::cvalue:
+            case w_t::right_square:
+            case w_t::left_increment:
+            case w_t::left_decrement:
+            case w_t::k_add:                    // Contextual keywords.
+            case w_t::k_get:
+            case w_t::k_global:
+            case w_t::k_remove:
+            case w_t::k_set:
+            case w_t::k_where:
+                return true;
+
+            case w_t::right_bracket:            // Except the type cast: (int)-1
+                switch (__last_values[1])
+                {
+                    case w_t::k_byte:   case w_t::k_sbyte:  case w_t::k_short:
+                    case w_t::k_ushort: case w_t::k_int:    case w_t::k_uint:
+                    case w_t::k_long:   case w_t::k_ulong:  case w_t::k_char:
+                    case w_t::k_float:  case w_t::k_double: case w_t::k_decimal:
+                    case w_t::k_bool:   case w_t::k_object: case w_t::k_string:
+                        return __last_values[2] != w_t::left_bracket
+                            || al::in(__last_values[3],
+                                w_t::k_sizeof, w_t::k_typeof, w_t::k_default);
+
+                    default:
+                        return true;
+                }
+
+            default:
+                return false;
+        }
+    }
+
+    // Reads the next token.
+    token_t * cs_token_enumerator_t::__read_next()
     {
         token_t * next_token;
 
@@ -64,7 +125,6 @@ namespace X_ROOT_NS::modules::lang_cs {
         char_t c;
         token_data_t * d;
         const __cptr_t p0 = __p;
-        cs_token_value_t value;
 
         switch ((c = *__p++))
         {
@@ -338,8 +398,7 @@ namespace X_ROOT_NS::modules::lang_cs {
                         return __Nw(add_assign);
 
                     default:
-                        if (is_numeric_prefix(*__p)
-                            && (value = (w_t)__last_value()) != w_t::name && value != w_t::cvalue)
+                        if (is_numeric_prefix(*__p) && !__follows_operand())
                         {
                             __p--;
                             return __Nw_(cvalue, __read_number());
@@ -361,8 +420,7 @@ namespace X_ROOT_NS::modules::lang_cs {
                         return __Nw(sub_assign);
 
                     default:
-                        if (is_numeric_prefix(*__p)
-                            && (value = (w_t)__last_value()) != w_t::name && value != w_t::cvalue)
+                        if (is_numeric_prefix(*__p) && !__follows_operand())
                         {
                             __p--;
                             return __Nw_(cvalue, __read_number());
-- 
2.43.0


From f9cb8f9d0c382bb34fa1e1bc1006bcc205f0a24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:27 +0000
Subject: [PATCH 48/55] fix: analyze the elements of an array initializer
 before the constructors they call

new C[] { new C(k) } was rejected: the constructor was looked up before the
type of the argument k was known.
---
 modules/compile/ast.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/compile/ast.cpp b/modules/compile/ast.cpp
index 00d953a..d7a6915 100644
--- a/modules/compile/ast.cpp
+++ b/modules/compile/ast.cpp
@@ -4754,13 +4754,13 @@ namespace X_ROOT_NS::modules::compile {
             case walk_step_t::default_:
                 __walk_default(context);
 
+                // Before the elements, whose arguments have to be analyzed when they need them.
+                if (this->initializer() != nullptr)
+                    this->__delay(context, walk_step_t::analysis);
+
                 if (__super_t::on_walk(context, step, tag))
                 {
                     this->__delay(context, walk_step_t::confirm);
-
-                    if (this->initializer() != nullptr)
-                        this->__delay(context, walk_step_t::analysis);
-
                     return true;
                 }
 
-- 
2.43.0


From e090a7220a39901e705d9f97a9411049c025783c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:25 +0000
Subject: [PATCH 49/55] fix: calls between the methods of a generic class keep
 its type arguments

A static method, or a generic method, called from another method of the same
generic class was looked up on the template of the class and could not run.
---
 modules/exec/commands.cpp | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index ed5ee9d..e9669dd 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -913,6 +913,18 @@ namespace X_ROOT_NS::modules::exec {
         return is_host_type_template(type, template_);
     }
 
+    // Returns the generic method of the current generic type, when it belongs to its template.
+    static rt_generic_method_t * __to_current_generic_method(__context_t & ctx,
+                                                             rt_generic_method_t * method)
+    {
+        if (!__is_current_template(ctx, method->host_type))
+            return method;
+
+        return ctx.to_generic_method(
+            method->template_, ctx.type, method->atypes, method->atype_count()
+        );
+    }
+
     // Returns field type.
     static rt_type_t * __field_type(__context_t & ctx, ref_t field_ref)
     {
@@ -4192,20 +4204,27 @@ namespace X_ROOT_NS::modules::exec {
         }
     };
 
+    static command_t * __new_static_call_command(__context_t & ctx,
+                                                 rt_generic_method_t * rt_generic_method)
+    {
+        static __command_manager_t<
+            __static_call_command_template_t<rt_generic_method_t>
+        >::with_args_t<rt_generic_method_t *> __static_generic_call_command_manager;
+
+        return __static_generic_call_command_manager.template
+            get_command<__CallCmd_(static_, generic)>(rt_generic_method, ctx);
+    }
+
     command_t * new_static_call_command(__context_t & ctx, ref_t method_ref)
     {
         switch ((mt_member_extra_t)method_ref.extra)
         {
             case mt_member_extra_t::generic: {
 
-                static __command_manager_t<
-                    __static_call_command_template_t<rt_generic_method_t>
-                >::with_args_t<rt_generic_method_t *> __static_generic_call_command_manager;
-
                 auto * rt_generic_method = _M(rt_generic_method_t *, ctx.get_method(method_ref));
+                rt_generic_method = __to_current_generic_method(ctx, rt_generic_method);
 
-                return __static_generic_call_command_manager.template
-                    get_command<__CallCmd_(static_, generic)>(rt_generic_method, ctx);
+                return __new_static_call_command(ctx, rt_generic_method);
 
             }   break;
 
@@ -4217,6 +4236,9 @@ namespace X_ROOT_NS::modules::exec {
                 >::with_args_t<rt_method_t *> __static_call_command_manager;
 
                 rt_method_t * rt_method = _M(rt_method_t *, ctx.get_method(method_ref));
+                if (__is_current_template(ctx, rt_method->host_type))
+                    return __new_static_call_command(ctx, ctx.to_generic_method(rt_method, ctx.type));
+
                 return __static_call_command_manager.template
                     get_command<__CallCmd_(static_, general)>(rt_method, ctx);
 
@@ -4295,6 +4317,7 @@ namespace X_ROOT_NS::modules::exec {
                 >::with_args_t<rt_generic_method_t *> __instance_generic_call_command_manager;
 
                 rt_generic_method_t * rt_generic_method = (rt_generic_method_t *)method;
+                rt_generic_method = __to_current_generic_method(ctx, rt_generic_method);
 
                 return __instance_generic_call_command_manager.template
                     get_command<__CallCmd_(instance, generic)>(rt_generic_method, ctx);
-- 
2.43.0


From 1e836e1955c09a59a25475f166da8b1292ee688b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:25 +0000
Subject: [PATCH 50/55] fix: box a struct given as an object argument, result
 or cast operand

The struct was copied over the pending operand of the evaluation stack before it
was boxed, so that F(s), return s and (object)s crashed for a struct s.
---
 modules/compile/expression.cpp | 13 +++++++++++++
 modules/compile/xilx.cpp       |  7 +++++++
 2 files changed, 20 insertions(+)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 6eb8c33..28e588f 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -1123,6 +1123,13 @@ namespace X_ROOT_NS::modules::compile {
 
             exp->compile(ctx, pool);
         }
+        else if (is_ref_type(atype) && is_custom_struct(exp->get_type()))   // Box
+        {
+            pool.append<x_new_xil_t>(__ref_of(ctx, exp->get_type()));
+            pool.append<x_push_duplicate_xil_t>();
+
+            exp->compile(ctx, pool);
+        }
         else
         {
             vtype_t vtype = vtype_t::__default__;
@@ -2968,6 +2975,12 @@ namespace X_ROOT_NS::modules::compile {
                     pool.append<x_push_duplicate_xil_t>();
                     exp->compile(ctx, pool, type);
                 }
+                else if (is_custom_struct(exp_type))
+                {
+                    pool.append<x_new_xil_t>(__ref_of(ctx, exp_type));
+                    pool.append<x_push_duplicate_xil_t>();
+                    exp->compile(ctx, pool);
+                }
                 else
                 {
                     exp->compile(ctx, pool);
diff --git a/modules/compile/xilx.cpp b/modules/compile/xilx.cpp
index 4d7ebe1..3d6cbd7 100644
--- a/modules/compile/xilx.cpp
+++ b/modules/compile/xilx.cpp
@@ -486,6 +486,13 @@ namespace X_ROOT_NS::modules::compile {
                 expression_compile_context_t cctx(ctx);
                 __do_custom_struct_return(cctx, pool, expression, type);
             }
+            else if (is_ref_type(type) && is_custom_struct(expression->get_type()))   // Box
+            {
+                pool.append<x_new_xil_t>(__ref_of(ctx, expression->get_type()));
+                pool.append<x_push_duplicate_xil_t>();
+
+                __compile_expression(ctx, pool, expression);
+            }
             else
             {
                 __compile_expression(ctx, pool, expression, type);
-- 
2.43.0


From 085829811a82e5022568ae2752150f5c9daab95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:36 +0000
Subject: [PATCH 51/55] fix: copy a struct argument of a call whose result is
 used as a member's object

In F(s).x the struct s was taken for the object of the member and its address was
passed instead of a copy.
---
 modules/compile/expression.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 28e588f..f8eeef3 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -2400,6 +2400,14 @@ namespace X_ROOT_NS::modules::compile {
         );
     }
 
+    // Returns whether an expression is one of the arguments.
+    static bool __is_argument(arguments_t * arguments, expression_t * exp)
+    {
+        return arguments != nullptr && al::any_of(*arguments, [exp](argument_t * argument) {
+            return argument->expression == exp;
+        });
+    }
+
     // Returns whether a variable need object copy.
     static bool __need_object_copy(expression_t * exp)
     {
@@ -2426,6 +2434,20 @@ namespace X_ROOT_NS::modules::compile {
                     break;
                 }
 
+                // The value of an argument is always copied.
+                case expression_family_t::function:
+                    if (__is_argument(((function_expression_t *)parent_exp)->arguments(), exp))
+                        return true;
+                    break;
+
+                case expression_family_t::index:
+                    if (__is_argument(((index_expression_t *)parent_exp)->arguments(), exp))
+                        return true;
+                    break;
+
+                case expression_family_t::new_:
+                    return true;
+
                 default:
                     break;
             }
-- 
2.43.0


From 7d8e462fbe3c58a27a4724a9c112cc8bf9e9effe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:28 +0000
Subject: [PATCH 52/55] fix: unbox a struct whose member is used into a
 temporary variable

((S)o).x crashed, because there was no place to unbox the struct to.
---
 modules/compile/expression.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index f8eeef3..f608757 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -3021,8 +3021,19 @@ namespace X_ROOT_NS::modules::compile {
             {
                 if (__is_custom_struct_like(type)) // Unbox custom struct.
                 {
+                    // The object of a member is unboxed to a temporary variable.
+                    local_variable_t * variable = nullptr;
+                    if (!__need_object_copy(this))
+                    {
+                        variable = ctx.define_temp_local(type);
+                        __compile_local_variable(ctx, pool, variable);
+                    }
+
                     exp->compile(ctx, pool);
                     pool.append<x_object_copy_xil_t>(__ref_of(ctx, type), xil_copy_kind_t::reverse);
+
+                    if (variable != nullptr)
+                        __compile_local_variable(ctx, pool, variable);
                 }
                 else    // internal value types.
                 {
-- 
2.43.0


From 4c82b595dc4886f9335b1682a772876668ccade5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:00 +0000
Subject: [PATCH 53/55] fix: unboxing null to a struct throws
 NullReferenceException

---
 modules/exec/commands.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index e9669dd..aabefc5 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -6730,6 +6730,7 @@ namespace X_ROOT_NS::modules::exec {
             void * src = ctx.stack.pop<void *>();
             void * dst = ctx.stack.pop<void *>();
 
+            __CheckNullReference(ctx, rt_ref_t(src));   // Unbox null.
             al::quick_copy<_size>(dst, src);
         }
     };
@@ -6786,6 +6787,7 @@ namespace X_ROOT_NS::modules::exec {
                 void * src = ctx.stack.pop<void *>();
                 void * dst = ctx.stack.pop<void *>();
 
+                __CheckNullReference(ctx, rt_ref_t(src));   // Unbox null.
                 al::quick_copy(dst, src, __This->__size);
             }
             else if(__This->__kind == xil_copy_kind_t::zero)
-- 
2.43.0


From 402ccbc771bf4c7852b897dd91e2fb6c4f33ad36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:48 +0000
Subject: [PATCH 54/55] fix: constant folding compares bool and char constants

true != false and 'a' < 'b' were rejected when constants are computed by the compiler.
---
 modules/core/expression_executor.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/modules/core/expression_executor.cpp b/modules/core/expression_executor.cpp
index 580cf2f..04bce19 100644
--- a/modules/core/expression_executor.cpp
+++ b/modules/core/expression_executor.cpp
@@ -408,6 +408,10 @@ namespace X_ROOT_NS::modules::core {
                 case operator_t::sub:
                 case operator_t::equal:
                 case operator_t::not_equal:
+                case operator_t::greater:
+                case operator_t::greater_equal:
+                case operator_t::less:
+                case operator_t::less_equal:
 
                     switch (((int)v1.type << 8) | (int)v2.type)
                     {
@@ -417,10 +421,6 @@ namespace X_ROOT_NS::modules::core {
                     // continue case operator_t::add
 
                 case operator_t::add:
-                case operator_t::greater:
-                case operator_t::greater_equal:
-                case operator_t::less:
-                case operator_t::less_equal:
 
                     switch (((int)v1.type << 8) | (int)v2.type)
                     {
@@ -613,22 +613,22 @@ namespace X_ROOT_NS::modules::core {
                 return __binary_execute<operator_t::bit_xor_assign, d>(cv1, cv2);
 
             case operator_t::greater:
-                return __binary_execute<operator_t::greater, df>(cv1, cv2);
+                return __binary_execute<operator_t::greater, dfc>(cv1, cv2);
 
             case operator_t::greater_equal:
-                return __binary_execute<operator_t::greater_equal, df>(cv1, cv2);
+                return __binary_execute<operator_t::greater_equal, dfc>(cv1, cv2);
 
             case operator_t::less:
-                return __binary_execute<operator_t::less, df>(cv1, cv2);
+                return __binary_execute<operator_t::less, dfc>(cv1, cv2);
 
             case operator_t::less_equal:
-                return __binary_execute<operator_t::less_equal, df>(cv1, cv2);
+                return __binary_execute<operator_t::less_equal, dfc>(cv1, cv2);
 
             case operator_t::equal:
                 return __binary_execute<operator_t::equal>(cv1, cv2);
 
             case operator_t::not_equal:
-                return __binary_execute<operator_t::not_equal, df>(cv1, cv2);
+                return __binary_execute<operator_t::not_equal>(cv1, cv2);
 
             case operator_t::logic_and:
                 return __binary_execute<operator_t::logic_and, g_t::bool_>(cv1, cv2);
-- 
2.43.0


From 43210b476745b663a4ea4242332b24d7e6c0cb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:48 +0000
Subject: [PATCH 55/55] fix: typeof is not a bool constant

Computed by the compiler, typeof(int) == typeof(uint) was true.
---
 modules/core/core.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/core.cpp b/modules/core/core.cpp
index 9858bdd..c783d51 100644
--- a/modules/core/core.cpp
+++ b/modules/core/core.cpp
@@ -8008,7 +8008,7 @@ namespace X_ROOT_NS::modules::core {
         if (type_name == nullptr)
             return cvalue_t();
 
-        return cvalue_t(type_name->type);
+        return to_cvalue(type_name->type);
     }
 
     // Returns vtype of a type_of expression.
-- 
2.43.0

