From f40717c437854da5cb7aa90eeed750ea75a6a3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 01/83] fix: subscripts of the form index[array]

---
 src/main.c  | 8 ++++++++
 src/parse.c | 5 ++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index a4b32f0..c0f0ba0 100644
--- a/src/main.c
+++ b/src/main.c
@@ -2381,6 +2381,14 @@ func void evaluate_static_initializer__internal(struct context *context, struct
             // Binary expressions:
             // 
             
+            case IR_swap_lhs_rhs:{
+                ir_offset += sizeof(struct ir);
+                
+                struct evaluate_static_initializer_ir_stack_node temp = ir_stack[ir_stack_at-1];
+                ir_stack[ir_stack_at-1] = ir_stack[ir_stack_at-2];
+                ir_stack[ir_stack_at-2] = temp;
+            }break;
+            
             case IR_array_subscript:{
                 struct ir_subscript *subscript = (struct ir_subscript *)ir_node;
                 ir_offset += sizeof(struct ir_subscript);
diff --git a/src/parse.c b/src/parse.c
index 5056f2e..1c4669f 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -1833,7 +1833,7 @@ func void push_nodes_for_subscript(struct context *context, struct expr *lhs, st
         
         struct ast_array_type *array = (struct ast_array_type *)lhs_type;
         
-        if(lhs->ir->kind == IR_pointer_literal_deref && index->ir->kind == IR_integer_literal){
+        if(lhs->ir->kind == IR_pointer_literal_deref && index->ir->kind == IR_integer_literal && lhs->ir < index->ir){
             
             // Transform
             //    (*((int (*) [])0))[3]
@@ -5171,6 +5171,9 @@ case NUMBER_KIND_##type:{ \
                     struct expr temp = operand;
                     operand = index;
                     index = temp;
+                    
+                    // The ir of the index was pushed first, the array has to be the left hand side.
+                    push_ir(context, IR_swap_lhs_rhs);
                 }
                 
                 if(!check_unary_for_basic_types(context, index.resolved_type, CHECK_integer, test)) return index;
-- 
2.43.0


From a8ee006efd658031134bdd67a2589d60bb002cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 02/83] fix: _Generic associations following the selected one
 overwrote it

---
 src/parse.c | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 1c4669f..9350f55 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -4969,7 +4969,7 @@ case NUMBER_KIND_##type:{ \
             
             context->ir_arena.current = ir_arena_start;
             
-            struct expr default_expression = zero_struct;
+            smm default_marker = -1;
             struct expr choosen_expression = zero_struct;
             
             while(in_current_token_array(context) && !peek_token_eat(context, TOKEN_closed_paren)){
@@ -4980,7 +4980,16 @@ case NUMBER_KIND_##type:{ \
                 if(peek_token_eat(context, TOKEN_default)){
                     expect_token(context, TOKEN_colon, "Expected ':' after 'default' while parsing a _Generic association list.");
                     
-                    default_expression = parse_expression(context, /*skip_comma_expression*/1);
+                    // 
+                    // The default expression is only used if no other association matches, in that case it is parsed again below.
+                    // 
+                    u8 *ir_arena_default = arena_current(&context->ir_arena);
+                    default_marker = context->token_at;
+                    
+                    parse_expression(context, /*skip_comma_expression*/1);
+                    
+                    memset(ir_arena_default, 0, context->ir_arena.current - ir_arena_default);
+                    context->ir_arena.current = ir_arena_default;
                 }else{
                     struct type_info_return type_name = maybe_parse_type_for_cast_or_sizeof(context);
                     if(!type_name.type){
@@ -4991,21 +5000,27 @@ case NUMBER_KIND_##type:{ \
                     
                     expect_token(context, TOKEN_colon, "Expected ':' after the type-name while parsing a _Generic association list.");
                     
+                    u8 *ir_arena_association = arena_current(&context->ir_arena);
                     struct expr expression = parse_expression(context, /*skip_comma_expression*/1);
                     
-                    if(types_are_equal(type_name.type, choice)){
+                    if(!choosen_expression.ir && types_are_equal(type_name.type, choice)){
                         choosen_expression = expression;
                     }else{
-                        memset(ir_arena_start, 0, context->ir_arena.current - ir_arena_start);
-                        context->ir_arena.current = ir_arena_start;
+                        memset(ir_arena_association, 0, context->ir_arena.current - ir_arena_association);
+                        context->ir_arena.current = ir_arena_association;
                     }
                 }
             }
             
             if(choosen_expression.ir){
                 operand = choosen_expression;
-            }else if(default_expression.ir){
-                operand = default_expression;
+            }else if(default_marker != -1){
+                smm end_marker = context->token_at;
+                context->token_at = default_marker;
+                
+                operand = parse_expression(context, /*skip_comma_expression*/1);
+                
+                context->token_at = end_marker;
             }else{
                 // :Error
                 report_error(context, generic, "_Generic choice did not match any of the associations.");
-- 
2.43.0


From 6bc30bb00bf056f27592f1c2485bfe6775fb17d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 03/83] fix: /= and %= with operands of different signedness

---
 src/parse.c | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index 9350f55..04224c8 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -4077,6 +4077,31 @@ static void parse_call_to_printlike_function_arguments(struct context *context,
 }
 
 // :compound_assignments
+// 
+// The quotient (or remainder) may only be calculated in the type of the left hand side,
+// if this gives the same result as performing the calculation in the type resulting from
+// the usual arithmetic conversions. This is not the case if the types disagree about the sign, e.g:
+// 
+//     int a = -1; a /= 2u; 
+//     unsigned char b = 200; signed char c = -1; b /= c;
+// 
+func b32 division_assignment_has_to_be_punted(struct expr *lhs, struct expr *rhs){
+    struct ast_type *lhs_type = lhs->resolved_type;
+    struct ast_type *rhs_type = rhs->resolved_type;
+    
+    if(lhs_type->kind != AST_integer_type || rhs_type->kind != AST_integer_type) return false;
+    if(type_is_signed(lhs_type) == type_is_signed(rhs_type)) return false;
+    
+    if(type_is_signed(lhs_type)){
+        // The conversion of the right hand side to the type of the left hand side needs to preserve the value
+        // and the calculation needs to be signed.
+        return rhs_type->size >= 4 || rhs_type->size >= lhs_type->size;
+    }
+    
+    // If the left hand side gets promoted to 'int', the calculation is signed.
+    return lhs_type->size < 4 && !(rhs->ir->kind == IR_integer_literal && integer_literal_as_s64(rhs) >= 0);
+}
+
 func void punt_compound_assignment(struct context *context, struct expr *lhs, struct expr *rhs, struct token *site, enum ast_kind ast_kind){
     // 
     // IR_duplicate_lhs:
@@ -7110,6 +7135,8 @@ case NUMBER_KIND_##type:{ \
                     }
                 }
                 
+                if(division_assignment_has_to_be_punted(lhs, rhs)) punt = true;
+                
                 if(lhs->resolved_type == &globals.typedef_Bool || (lhs->resolved_type->kind == AST_bitfield_type)) punt = 1;
                 
                 if(punt){
@@ -7211,6 +7238,8 @@ case NUMBER_KIND_##type:{ \
                     }
                 }
                 
+                if(ast_kind == AST_divide_assignment && division_assignment_has_to_be_punted(lhs, rhs)) punt = true;
+                
                 if(lhs->resolved_type == &globals.typedef_Bool || lhs->resolved_type->kind == AST_bitfield_type) punt = 1;
                 
                 if(punt){
-- 
2.43.0


From 2ac61788859603ba4ffa67a0cc702f90912a7747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 04/83] fix: pointer differences are signed

---
 src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 04224c8..6a832ff 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -6162,7 +6162,7 @@ case NUMBER_KIND_##type:{ \
                         struct ast_pointer_type *pointer = cast(struct ast_pointer_type *)op_lhs->resolved_type;
                         if(pointer->pointer_to->size != 1){ // @cleanup: 0?
                             ast_push_s64_literal(context, pointer->pointer_to->size, null);
-                            operand.ir = push_ir(context, IR_divide_u64);
+                            operand.ir = push_ir(context, IR_divide_s64);
                         }
                         
                         operand.resolved_type = &globals.typedef_s64;
-- 
2.43.0


From fe2add8de28862862c528cdc73fd5768008a3f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:05 +0000
Subject: [PATCH 05/83] fix: displacement of a compound shift of a global by a
 constant

---
 src/emit_x64.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 1f03a6c..ba2a154 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -2138,14 +2138,15 @@ func struct emit_location *emit_shift_or_rotate__internal(struct context *contex
         }
         
         if(compound){
-            emit_register_relative_extended(context, prefixes, one_byte_opcode(inst), reg_extension, lhs_loc);
+            // @note: The immediate has to be known here, as it counts towards the displacement of a rip-relative location.
+            emit_register_relative_immediate(context, prefixes, one_byte_opcode(inst), reg_extension, lhs_loc, rhs_loc);
             ret = lhs_loc;
         }else{
             struct emit_location *lhs = emit_load_gpr(context, lhs_loc);
             emit_reg_extended_op(context, prefixes, one_byte_opcode(inst), reg_extension, lhs);
+            emit(rhs_loc->value);
             ret = lhs;
         }
-        emit(rhs_loc->value);
     }else{
         struct emit_location *rhs;
         if(rhs_loc->state == EMIT_LOCATION_loaded && rhs_loc->loaded_register == REGISTER_C){
-- 
2.43.0


From 223e3ffad6b6105a4d685cb8d025d7ff06e36f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 06/83] fix: conversions of constants that were not folded did
 not truncate or extend

---
 src/emit_x64.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index ba2a154..98e382d 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -2526,14 +2526,14 @@ struct emit_location *emit_integer_cast(struct context *context, struct emit_loc
     
     loc->size = source_size;
     
+    // This can happen for things like: (__int64)(1ull, 0)
+    if(loc->state == EMIT_LOCATION_immediate) loc = emit_load_gpr(context, loc);
+    
     if(loc->state == EMIT_LOCATION_register_relative){
         enum register_encoding reg = allocate_register(context, REGISTER_KIND_gpr);
         emit_register_relative_register(context, no_prefix(), opcode, reg, loc);
         free_emit_location(context, loc);
         loc = emit_location_loaded(context, REGISTER_KIND_gpr, reg, source_size);
-    }else if(loc->state == EMIT_LOCATION_immediate){
-        // This can happen for things like: (__int64)(1ull, 0)
-        loc = emit_load_gpr(context, loc);
     }else{
         emit_register_register(context, no_prefix(), opcode, loc, loc);
     }
-- 
2.43.0


From 33632507effb39d0e91766c10c09701d1b3fb79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:14 +0000
Subject: [PATCH 07/83] fix: /= and %= of small signed types by -1 trapped

---
 src/parse.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index 6a832ff..d98e4ed 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -4090,6 +4090,13 @@ func b32 division_assignment_has_to_be_punted(struct expr *lhs, struct expr *rhs
     struct ast_type *rhs_type = rhs->resolved_type;
     
     if(lhs_type->kind != AST_integer_type || rhs_type->kind != AST_integer_type) return false;
+    
+    if(type_is_signed(lhs_type) && type_is_signed(rhs_type)){
+        // Dividing the smallest value by '-1' does not overflow the promoted type, but the division in the type
+        // of the left hand side would trap.
+        return lhs_type->size < 4 && !(rhs->ir->kind == IR_integer_literal && integer_literal_as_s64(rhs) != -1);
+    }
+    
     if(type_is_signed(lhs_type) == type_is_signed(rhs_type)) return false;
     
     if(type_is_signed(lhs_type)){
-- 
2.43.0


From 5ff486c6a3b530eb46336ba0d2d2bac77719d920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:18 +0000
Subject: [PATCH 08/83] fix: results of floating point assignments as operands

---
 src/emit_x64.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 98e382d..5c9bb0a 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -1407,7 +1407,8 @@ func struct emit_location *emit_load_float_into_specific_register(struct context
 }
 
 func struct emit_location *emit_load_float(struct context *context, struct emit_location *loc){
-    if(loc->state == EMIT_LOCATION_loaded) return loc;
+    // @note: The result of an assignment is loaded into a general purpose register.
+    if(loc->state == EMIT_LOCATION_loaded && loc->register_kind == REGISTER_KIND_xmm) return loc;
     return emit_load_float_into_specific_register(context, loc, allocate_register(context, REGISTER_KIND_xmm));
 }
 
@@ -1862,7 +1863,9 @@ func struct emit_location *emit_binary_op_xmm(struct context *context, struct em
     struct prefixes sse_prefix = get_sse_prefix_for_scalar(lhs->size);
     
     if(rhs->state == EMIT_LOCATION_loaded){
-        assert(rhs->register_kind == REGISTER_KIND_xmm);
+        emit_location_prevent_spilling(context, lhs);
+        rhs = emit_load_float(context, rhs);
+        emit_location_allow_spilling(context, lhs);
         emit_register_register(context, sse_prefix, two_byte_opcode(inst), lhs, rhs);
     }else{
         assert(rhs->state == EMIT_LOCATION_register_relative);
@@ -2542,6 +2545,8 @@ struct emit_location *emit_integer_cast(struct context *context, struct emit_loc
 }
 
 struct emit_location *emit_float_cast(struct context *context, struct emit_location *loc, enum legacy_prefixes prefix, int size, int big_size, u8 opcode){
+    if(loc->state == EMIT_LOCATION_loaded) loc = emit_load_float(context, loc);
+    
     struct emit_location *loaded = emit_location_loaded(context, REGISTER_KIND_gpr, allocate_register(context, REGISTER_KIND_gpr), size);
     
     if(loc->state == EMIT_LOCATION_register_relative){
@@ -2795,6 +2800,7 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 ir_arena_at += sizeof(struct ir);
                 smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
                 struct emit_location *loc = emit_location_stack[stack_index];
+                if(loc->state == EMIT_LOCATION_loaded) loc = emit_load_float(context, loc);
                 loc->size = 8;
                 
                 // cvtss2sd - convert_scalar_single_to_scalar_double
@@ -2816,6 +2822,7 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 ir_arena_at += sizeof(struct ir);
                 smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
                 struct emit_location *loc = emit_location_stack[stack_index];
+                if(loc->state == EMIT_LOCATION_loaded) loc = emit_load_float(context, loc);
                 loc->size = 4;
                 
                 // cvtss2sd - convert_scalar_single_to_scalar_double
-- 
2.43.0


From dd8f27573f11cde763fd405557366c0c339f8199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:24 +0000
Subject: [PATCH 09/83] fix: floating point conditions and comparisons with
 NaN, -0.0 and constants

---
 src/emit_x64.c | 65 ++++++++++++++++++++++++++++++++++++++++++++------
 src/parse.c    | 33 +++++++++++++++++++++----
 2 files changed, 87 insertions(+), 11 deletions(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 5c9bb0a..1c69ac4 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -336,6 +336,7 @@ enum TWO_BYTE_OPCODES{ // these are of the form 0x0F opcode
     // @cleanup: where to use which?
     UNORDERED_COMPARE_XMM  = 0x2e,
     COMPARE_XMM  = 0x2f,
+    COMPARE_XMM_REGM_IMMEDIATE = 0xC2,
     
     AND_XMM = 0x54,
     AND_NOT_XMM = 0x55,
@@ -2099,7 +2100,32 @@ struct emit_location *emit_store_atomic_integer(struct context *context, struct
 //_____________________________________________________________________________________________________________________
 // Conditions
 
-func struct emit_location *emit_compare_to_zero(struct context *context, struct emit_location *loaded){
+func // 
+// 'comiss' and 'comisd' report unordered operands (one operand is a NaN) as equal.
+// Hence, we have to use 'cmpss' or 'cmpsd', the result is an integer.
+// 
+func struct emit_location *emit_float_equality(struct context *context, struct emit_location *lhs, struct emit_location *rhs, enum comp_condition condition){
+    
+    lhs = emit_load_float(context, lhs);
+    emit_location_prevent_spilling(context, lhs);
+    rhs = emit_load_float(context, rhs);
+    
+    // cmpss/cmpsd lhs, rhs, (equal or not-equal)
+    emit_register_register(context, get_sse_prefix_for_scalar(lhs->size), two_byte_opcode(COMPARE_XMM_REGM_IMMEDIATE), lhs, rhs);
+    emit(condition == COMP_equals ? 0 : 4);
+    free_emit_location(context, rhs);
+    
+    struct emit_location *result = emit_location_loaded(context, REGISTER_KIND_gpr, allocate_register(context, REGISTER_KIND_gpr), 4);
+    emit_register_op__internal(context, create_prefixes(ASM_PREFIX_66), two_byte_opcode(0x7E), lhs->loaded_register, result->loaded_register, 4); // movd result, lhs
+    emit_reg_extended_op(context, no_prefix(), one_byte_opcode(REG_EXTENDED_OPCODE_REGM_SIGN_EXTENDED_IMMIDIATE8), REG_OPCODE_AND, result);
+    emit(1);
+    
+    emit_location_allow_spilling(context, lhs);
+    free_emit_location(context, lhs);
+    return result;
+}
+
+struct emit_location *emit_compare_to_zero(struct context *context, struct emit_location *loaded){
     assert(loaded->state == EMIT_LOCATION_loaded);
     
     if(loaded->register_kind == REGISTER_KIND_gpr){
@@ -2109,14 +2135,14 @@ func struct emit_location *emit_compare_to_zero(struct context *context, struct
         emit_register_register(context, no_prefix(), one_byte_opcode(inst), loaded, loaded);
         free_emit_location(context, loaded);
     }else{
+        emit_location_prevent_spilling(context, loaded);
         enum register_encoding reg = allocate_register(context, REGISTER_KIND_xmm);
         struct emit_location *zero = emit_location_loaded(context, REGISTER_KIND_xmm, reg, loaded->size);
+        emit_location_allow_spilling(context, loaded);
+        
         emit_register_register(context, no_prefix(), two_byte_opcode(XOR_XMM), zero, zero);
         
-        enum legacy_prefixes prefix = loaded->size == 8 ? ASM_PREFIX_NON_PACKED_OP_double : ASM_PREFIX_NON_PACKED_OP_float;
-        emit_register_register(context, create_prefixes(prefix), two_byte_opcode(COMPARE_XMM), loaded, zero);
-        free_emit_location(context, loaded);
-        free_emit_location(context, zero);
+        return emit_compare_to_zero(context, emit_float_equality(context, loaded, zero, COMP_unequals));
     }
     
     return emit_location_conditional(context, COMP_not_zero);
@@ -3512,7 +3538,7 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                     
                     enum register_encoding expected_register = argument_registers[expected_register_kind][returns_big_struct + argument_index];
                     
-                    if(argument->state == EMIT_LOCATION_loaded && argument->loaded_register == expected_register){
+                    if(argument->state == EMIT_LOCATION_loaded && argument->register_kind == expected_register_kind && argument->loaded_register == expected_register){
                         // The argument is already in the correct slot.
                         emit_location_prevent_spilling(context, argument);
                         argument_locations[argument_index] = argument;
@@ -3882,11 +3908,32 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 
                 struct emit_location *result;
                 if(ir_type == IR_TYPE_f32 || ir_type == IR_TYPE_f64){
+                    if(comp == COMP_equals || comp == COMP_unequals){
+                        emit_location_stack[emit_location_stack_at-1] = emit_float_equality(context, lhs, rhs, comp);
+                        break;
+                    }
+                    
+                    // 
+                    // An unordered comparison (one operand is a NaN) sets the carry flag.
+                    // Hence, we may only use 'ja' or 'jae', otherwise we have to swap the operands.
+                    // 
+                    if(comp == COMP_smaller || comp == COMP_smaller_equals){
+                        struct emit_location *temp = lhs;
+                        lhs = rhs;
+                        rhs = temp;
+                        
+                        comp = (comp == COMP_smaller) ? COMP_bigger : COMP_bigger_equals;
+                    }
+                    
                     lhs = emit_load_float(context, lhs);
                     
                     struct prefixes prefix = create_prefixes((ir_type == IR_TYPE_f32) ? ASM_PREFIX_NON_PACKED_OP_float : ASM_PREFIX_NON_PACKED_OP_double);
                     
                     if(rhs->state == EMIT_LOCATION_loaded){
+                        emit_location_prevent_spilling(context, lhs);
+                        rhs = emit_load_float(context, rhs);
+                        emit_location_allow_spilling(context, lhs);
+                        
                         emit_register_register(context, prefix, two_byte_opcode(COMPARE_XMM), lhs, rhs);
                     }else{
                         assert(rhs->state == EMIT_LOCATION_register_relative);
@@ -4181,7 +4228,11 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 
                 struct emit_location *loc = emit_location_stack[emit_location_stack_at - 1];
                 if(loc->state != EMIT_LOCATION_conditional){
-                    if(loc->state != EMIT_LOCATION_loaded) loc = emit_load_gpr(context, loc); // @cleanup: float?
+                    if(ir_kind == IR_logical_not_f32 || ir_kind == IR_logical_not_f64){
+                        loc = emit_load_float(context, loc);
+                    }else{
+                        loc = emit_load_gpr(context, loc);
+                    }
                     loc = emit_compare_to_zero(context, loc);
                 }
                 
diff --git a/src/parse.c b/src/parse.c
index d98e4ed..d52259d 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -291,6 +291,19 @@ func enum ast_kind *defined_type_for_promotion(struct expr *ast){
 
 //_____________________________________________________________________________________________________________________
 
+// 
+// A floating point value is true if it compares unequal to zero. This includes NaN, but not '-0.0'.
+// Hence, looking at the bits of the value is not enough to determine if we should jump.
+// 
+func void maybe_convert_floating_point_condition(struct context *context, struct expr *condition){
+    if(condition->resolved_type->kind != AST_float_type) return;
+    
+    push_ir(context, (condition->resolved_type->size == 4) ? IR_logical_not_f32 : IR_logical_not_f64);
+    condition->ir = push_ir(context, IR_logical_not_u32);
+    condition->resolved_type = &globals.typedef_s32;
+    condition->defined_type  = &globals.typedef_u8.kind;
+}
+
 func void push_cast(struct context *context, enum ast_kind lhs_or_rhs, struct ast_type *cast_to, enum ast_kind *cast_to_defined_type, struct expr *cast_what){
     
     int should_skip_cast = 0;
@@ -323,12 +336,12 @@ func void push_cast(struct context *context, enum ast_kind lhs_or_rhs, struct as
                     invalid_default_case();
                 }
             }else{
-                if(f_value < 0.0){
+                if(f_value < 0.0 && cast_to != &globals.typedef_Bool){
                     report_error(context, cast_what->token, "Cast from negative a floating point number to an unsigned type is illegal.");
                 }
                 
                 if(cast_to == &globals.typedef_Bool){
-                    i->_u8 = (_Bool)f_value;
+                    i->_u64 = (f_value != 0.0);
                 }else{
                     switch(cast_to->size){
                         case 1: i->_u8  = (u8) f_value; break;
@@ -479,7 +492,10 @@ func void push_cast(struct context *context, enum ast_kind lhs_or_rhs, struct as
         enum ir_type ir_cast_to   = ir_type_from_type(cast_to);
         if(ir_cast_to == IR_TYPE_pointer) ir_cast_to = IR_TYPE_u64;
         
-        if(ir_cast_to == IR_TYPE_bool){
+        if(ir_cast_to == IR_TYPE_bool && lhs_or_rhs != AST_cast_lhs && cast_what->resolved_type->kind == AST_float_type){
+            maybe_convert_floating_point_condition(context, cast_what);
+            cast_what->ir = push_ir(context, IR_truncate_to_u8);
+        }else if(ir_cast_to == IR_TYPE_bool){
             enum ir_kind ir_cast = IR_cast_to_bool;
             
             if(lhs_or_rhs == AST_cast_lhs) ir_cast += 1;
@@ -2931,7 +2947,7 @@ func void perform_float_operation(struct context *context, enum ast_kind binary_
         // "The result has type int".
         struct ir_integer_literal *lit = (struct ir_integer_literal *)lhs;
         lit->base.kind = IR_integer_literal;
-        lit->_u64 = 1;
+        lit->_u64 = compare_value;
         lit->type = &globals.typedef_s32;
         op_rhs->resolved_type = &globals.typedef_s32;
         op_rhs->defined_type = &globals.typedef_u8.kind;
@@ -6659,6 +6675,7 @@ case NUMBER_KIND_##type:{ \
                     // we should have special cases, that do not load the condition.
                     // 
                     
+                    maybe_convert_floating_point_condition(context, &operand);
                     struct ir_jump_node *rhs_jump = push_jump(context, IR_jump_if_false);
                     rhs_jump->label_number = conditional_jump->label_number;
                     
@@ -6765,6 +6782,7 @@ case NUMBER_KIND_##type:{ \
                     // we should have special cases, that do not load the condition.
                     // 
                     
+                    maybe_convert_floating_point_condition(context, &operand);
                     struct ir_jump_node *rhs_jump = push_jump(context, IR_jump_if_true);
                     rhs_jump->label_number = conditional_jump->label_number;
                     
@@ -7360,6 +7378,7 @@ case NUMBER_KIND_##type:{ \
                 return operand;
             }
             
+            maybe_convert_floating_point_condition(context, &operand);
             struct ir_jump_node *conditional_jump = push_jump(context, IR_jump_if_false);
             conditional_jump->label_number = context->jump_label_index++;
             
@@ -7378,6 +7397,7 @@ case NUMBER_KIND_##type:{ \
                 return operand;
             }
             
+            maybe_convert_floating_point_condition(context, &operand);
             struct ir_jump_node *conditional_jump = push_jump(context, IR_jump_if_true);
             conditional_jump->label_number = context->jump_label_index++;
             
@@ -7447,6 +7467,7 @@ case NUMBER_KIND_##type:{ \
                 // Non-constant conditional. We have to insert jumps and such.
                 // 
                 
+                maybe_convert_floating_point_condition(context, &operand);
                 struct ir_jump_node *conditional_jump = push_jump(context, IR_jump_if_false);
                 conditional_jump->label_number = context->jump_label_index++;
                 
@@ -9123,6 +9144,7 @@ func void parse_statement(struct context *context){
             // Get the initial "returns a value state".
             int statement_returns_a_value = context->current_statement_returns_a_value;
             
+            maybe_convert_floating_point_condition(context, &condition);
             // :ir_refactor - new
             struct ir_jump_node *condition_jump = push_jump(context, IR_jump_if_false);
             condition_jump->label_number = if_false_label;
@@ -9226,6 +9248,7 @@ func void parse_statement(struct context *context){
                     expect_token(context, TOKEN_semicolon, "Expected ';' after 'for'-condition.");
                 }
                 
+                maybe_convert_floating_point_condition(context, &condition);
                 // :ir_refactor - new
                 struct ir_jump_node *condition_jump = push_jump(context, IR_jump_if_false);
                 condition_jump->label_number = break_label_index;
@@ -9305,6 +9328,7 @@ func void parse_statement(struct context *context){
             }
             expect_token(context, TOKEN_closed_paren, "Expected ')' at the end of 'while'.");
             
+            maybe_convert_floating_point_condition(context, &condition);
             // :ir_refactor - new
             struct ir_jump_node *condition_jump = push_jump(context, IR_jump_if_false);
             condition_jump->label_number = break_label_index;
@@ -9377,6 +9401,7 @@ func void parse_statement(struct context *context){
             }
             expect_token(context, TOKEN_closed_paren, "Expected ')' ending 'while'-condition.");
             
+            maybe_convert_floating_point_condition(context, &condition);
             // :ir_refactor - new
             struct ir_jump_node *condition_jump = push_jump(context, IR_jump_if_true);
             condition_jump->label_number = loop_label_index;
-- 
2.43.0


From d336e001880cb9f2e3b9bde6f9ee9fe1224a1476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:37 +0000
Subject: [PATCH 10/83] fix: conversion of big floating point values to
 unsigned 64-bit integers

---
 src/emit_x64.c | 106 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 72 insertions(+), 34 deletions(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 1c69ac4..902d43b 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -2586,6 +2586,66 @@ struct emit_location *emit_float_cast(struct context *context, struct emit_locat
     return loaded;
 }
 
+// 
+// We want to cast some float-type to 'u64'.
+// 
+// The instructions 'cvttsd2si' or 'cvttss2si' convert to a *signed* integer type.
+// If the destination is a 'u8' or 'u16', we can simply use the 32-bit version and then truncate.
+// If the destination is a 'u32', we can simply use the 64-bit version and then truncate.
+// If the destination is a 'u64', the conversion only works for values smaller than 2^63. 
+// For values which are bigger (or equal), it returns 0x8000000000000000 and we have to use the conversion 
+// of the value minus 2^63 to obtain the lower bits:
+// 
+//     cvttsd2si low, value
+//     value -= 2^63
+//     cvttsd2si high, value
+//     result = low | (high & (low >> 63))
+// 
+struct emit_location *emit_float_cast_to_u64(struct context *context, struct emit_location *loc){
+    
+    smm float_size = loc->size;
+    struct prefixes sse_prefix = get_sse_prefix_for_scalar(float_size);
+    
+    loc = emit_load_float(context, loc);
+    emit_location_prevent_spilling(context, loc);
+    
+    // cvttsd2si low, loc
+    struct emit_location *low = emit_location_loaded(context, REGISTER_KIND_gpr, allocate_register(context, REGISTER_KIND_gpr), 8);
+    emit_location_prevent_spilling(context, low);
+    emit_register_op__internal(context, sse_prefix, two_byte_opcode(0x2C), low->loaded_register, loc->loaded_register, 8);
+    
+    // subsd loc, 2^63
+    struct emit_location *high = emit_load_gpr(context, emit_location_immediate(context, (float_size == 8) ? 0x43e0000000000000 : 0x5f000000, float_size));
+    emit_location_prevent_spilling(context, high);
+    struct emit_location *big = emit_location_loaded(context, REGISTER_KIND_xmm, allocate_register(context, REGISTER_KIND_xmm), float_size);
+    emit_register_op__internal(context, create_prefixes(ASM_PREFIX_66), two_byte_opcode(0x6E), big->loaded_register, high->loaded_register, float_size); // movd / movq big, high
+    emit_register_register(context, sse_prefix, two_byte_opcode(SUB_XMM), loc, big);
+    free_emit_location(context, big);
+    
+    // cvttsd2si high, loc
+    high->size = 8;
+    emit_register_op__internal(context, sse_prefix, two_byte_opcode(0x2C), high->loaded_register, loc->loaded_register, 8);
+    emit_location_allow_spilling(context, loc);
+    free_emit_location(context, loc);
+    
+    // mask = low >> 63
+    struct emit_location *mask = emit_location_loaded(context, REGISTER_KIND_gpr, allocate_register(context, REGISTER_KIND_gpr), 8);
+    emit_register_register(context, no_prefix(), one_byte_opcode(MOVE_REG_REGM), mask, low);
+    emit_reg_extended_op(context, no_prefix(), one_byte_opcode(SHIFT_OR_ROTATE_REGM_IMMEDIATE8), REG_OPCODE_SHIFT_ARITHMETIC_RIGHT, mask);
+    emit(63);
+    
+    // low | (high & mask)
+    emit_register_register(context, no_prefix(), one_byte_opcode(AND_REG_REGM), high, mask);
+    free_emit_location(context, mask);
+    emit_register_register(context, no_prefix(), one_byte_opcode(OR_REG_REGM), low, high);
+    
+    emit_location_allow_spilling(context, high);
+    free_emit_location(context, high);
+    
+    emit_location_allow_spilling(context, low);
+    return low;
+}
+
 
 //_____________________________________________________________________________________________________________________
 // :emit_code_for_function__internal
@@ -2955,12 +3015,16 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
                 emit_location_stack[stack_index] = emit_float_cast(context, emit_location_stack[stack_index], ASM_PREFIX_SSE_float, 4, 4, 0x2c);
             }break;
-            case IR_cast_f32_to_s64: case IR_cast_f32_to_s64_lhs:
-            case IR_cast_f32_to_u64: case IR_cast_f32_to_u64_lhs:{
+            case IR_cast_f32_to_s64: case IR_cast_f32_to_s64_lhs:{
                 ir_arena_at += sizeof(struct ir);
                 smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
                 emit_location_stack[stack_index] = emit_float_cast(context, emit_location_stack[stack_index], ASM_PREFIX_SSE_float, 8, 8, 0x2c);
             }break;
+            case IR_cast_f32_to_u64: case IR_cast_f32_to_u64_lhs:{
+                ir_arena_at += sizeof(struct ir);
+                smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
+                emit_location_stack[stack_index] = emit_float_cast_to_u64(context, emit_location_stack[stack_index]);
+            }break;
             
             case IR_cast_f64_to_s8: case IR_cast_f64_to_s8_lhs:
             case IR_cast_f64_to_u8: case IR_cast_f64_to_u8_lhs:{
@@ -2984,42 +3048,16 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
                 emit_location_stack[stack_index] = emit_float_cast(context, emit_location_stack[stack_index], ASM_PREFIX_SSE_double, 4, 8, 0x2c);
             }break;
-            case IR_cast_f64_to_s64: case IR_cast_f64_to_s64_lhs:
-            case IR_cast_f64_to_u64: case IR_cast_f64_to_u64_lhs:{
+            case IR_cast_f64_to_s64: case IR_cast_f64_to_s64_lhs:{
                 ir_arena_at += sizeof(struct ir);
                 smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
-                
-                // @cleanup:
-                // 
-                // We want to cast some float-type to some integer-type.
-                // 
-                // We use the instructions 'cvttsd2si' or 'cvttss2si' based on the 
-                // the floating point type. These instructions convert to *signed* integer type.
-                // Hence, we have to do something special here for unsigned types.
-                // 
-                // If the destination is a 'u8' or 'u16',  we can simply use the 32-bit version and then truncate.
-                // If the destination is a 'u32', we can simply use the 64-bit version and then truncate.
-                // If the destination is a 'u64', we have to check first if the value in the source is large.
-                // 
-                // gcc and msvc compare emit something like this:
-                //     movsd  xmm0, doubled              ; Load the initial value into xmm0.
-                //     comisd xmm0, qword ptr[rip + big] ; Compare against a big number 9.22337e+19 (0x8000000000000000).
-                //     jb simple_conversion              ; We are less then the first value which overflows a s64.
-                //     
-                //     sub xmm0, qword ptr[rip + big]    ; We exceed the big value, subtract it.
-                //     cvttsd2si rax, xmm0               ; Then convert, now the result should be (unless overflow in the correct range).
-                //     mov rcx, 0x8000000000000000       ; Then finally, add the 0x8000000000000000 back into rax.
-                //     add rax, rcx
-                //     jmp end
-                //     
-                // simple_conversion:
-                //     cvttsd2si rax, xmm0               ; We know it is in range, simply convert.
-                //     
-                // end:
-                //     
-                
                 emit_location_stack[stack_index] = emit_float_cast(context, emit_location_stack[stack_index], ASM_PREFIX_SSE_double, 8, 8, 0x2c);
             }break;
+            case IR_cast_f64_to_u64: case IR_cast_f64_to_u64_lhs:{
+                ir_arena_at += sizeof(struct ir);
+                smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
+                emit_location_stack[stack_index] = emit_float_cast_to_u64(context, emit_location_stack[stack_index]);
+            }break;
             
             case IR_cast_s8_to_f32: case IR_cast_s8_to_f32_lhs:{
                 ir_arena_at += sizeof(struct ir);
-- 
2.43.0


From 8e7d58840b33f43ec77c8a5f54227a444869a65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:46 +0000
Subject: [PATCH 11/83] fix: conversion of big floats to unsigned int

---
 src/emit_x64.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 902d43b..01c7ea2 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -3009,12 +3009,16 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
                 emit_location_stack[stack_index] = emit_float_cast(context, emit_location_stack[stack_index], ASM_PREFIX_SSE_float, 2, 4, 0x2c);
             }break;
-            case IR_cast_f32_to_s32: case IR_cast_f32_to_s32_lhs:
-            case IR_cast_f32_to_u32: case IR_cast_f32_to_u32_lhs:{
+            case IR_cast_f32_to_s32: case IR_cast_f32_to_s32_lhs:{
                 ir_arena_at += sizeof(struct ir);
                 smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
                 emit_location_stack[stack_index] = emit_float_cast(context, emit_location_stack[stack_index], ASM_PREFIX_SSE_float, 4, 4, 0x2c);
             }break;
+            case IR_cast_f32_to_u32: case IR_cast_f32_to_u32_lhs:{
+                ir_arena_at += sizeof(struct ir);
+                smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
+                emit_location_stack[stack_index] = emit_float_cast(context, emit_location_stack[stack_index], ASM_PREFIX_SSE_float, 4, 8, 0x2c);
+            }break;
             case IR_cast_f32_to_s64: case IR_cast_f32_to_s64_lhs:{
                 ir_arena_at += sizeof(struct ir);
                 smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
-- 
2.43.0


From e6ca134d57f040fe9136f04dd8734cac39b96c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:46 +0000
Subject: [PATCH 12/83] fix: dividing a floating point variable by an integer
 literal zero is no error

---
 src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index d52259d..64ed074 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -7247,7 +7247,7 @@ case NUMBER_KIND_##type:{ \
                     // 
                     
                     u64 value = integer_literal_as_u64(rhs);
-                    if(value == 0){
+                    if(value == 0 && lhs_type->kind != AST_float_type){
                         if(ast_kind == AST_divide_assignment){
                             report_error(context, stack_entry->token, "Compile time '/=' by 0.");
                             return operand;
-- 
2.43.0


From 0bd3dd426e0c33923928ec240a351a2c5a652d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:22 +0000
Subject: [PATCH 13/83] fix: subscripts of constant arrays had the type of a
 pointer

---
 src/parse.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 64ed074..5f9058d 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -1859,11 +1859,10 @@ func void push_nodes_for_subscript(struct context *context, struct expr *lhs, st
             struct ir_pointer_literal *pointer_literal_deref = (struct ir_pointer_literal *)lhs->ir;
             pointer_literal_deref->pointer += array->element_type->size * integer_literal_as_u64(index); // @cleanup: overflow?
             
-            struct ast_type *pointer_type = parser_push_pointer_type(context, array->element_type, array->element_type_defined_type);
-            pointer_literal_deref->type = pointer_type;
+            pointer_literal_deref->type = array->element_type;
             
-            lhs->resolved_type = pointer_type;
-            lhs->defined_type = null;
+            lhs->resolved_type = array->element_type;
+            lhs->defined_type  = array->element_type_defined_type;
             
             pop_from_ir_arena(context, (struct ir_integer_literal *)index->ir);
             return;
-- 
2.43.0


From 7abf25e95c1bc0587a848f768a6f072720b516e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:22 +0000
Subject: [PATCH 14/83] fix: constant pointer arithmetic is in units of the
 pointed-to type

---
 src/parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 5f9058d..92b5133 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -1780,9 +1780,9 @@ func void handle_pointer_arithmetic(struct context *context, enum ir_kind ir_kin
         
         struct ir_pointer_literal *pointer_lit = (struct ir_pointer_literal *)pointer->ir;
         if(ir_kind == IR_add_u64){
-            pointer_lit->pointer += integer_literal_as_s64(integer);
+            pointer_lit->pointer += integer_literal_as_s64(integer) * deref_type->size;
         }else{
-            pointer_lit->pointer -= integer_literal_as_s64(integer);
+            pointer_lit->pointer -= integer_literal_as_s64(integer) * deref_type->size;
         }
         
         if(integer->ir < pointer->ir){
-- 
2.43.0


From 42cd75740cc442a403836340a0884fb3b308a933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:09 +0000
Subject: [PATCH 15/83] fix: layout of bitfields in unions, unnamed bitfields
 and the interaction of alignment and packing

---
 src/ast.c   |   7 +++-
 src/parse.c | 117 ++++++++++++++++++++++++++++++++++------------------
 2 files changed, 83 insertions(+), 41 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 0524d75..597e0e8 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -487,7 +487,6 @@ enum type_flags{
     TYPE_FLAG_ends_in_array_of_unknown_size = 0x4,
     TYPE_FLAG_is_intrin_type = 0x8,
     TYPE_FLAG_is_atomic      = 0x10,
-    TYPE_FLAG_is_user_aligned = 0x20,
 };
 
 struct ast_type{
@@ -621,7 +620,7 @@ struct ast_bitfield_type{
 
 inline smm get_declaration_alignment(struct ast_declaration *decl){
     smm alignment = decl->type->alignment;
-    if(decl->overwrite_alignment) alignment = decl->overwrite_alignment;
+    if(decl->overwrite_alignment > alignment) alignment = decl->overwrite_alignment; // An alignment can only be increased.
     return alignment;
 }
 
@@ -712,6 +711,10 @@ struct ast_compound_type{
     struct compound_member *members;
     u32 amount_of_members;
     u32 current_max_amount_of_members;
+    
+    // The alignment requested by '__declspec(align(#))' for this type or any of its members.
+    // In contrast to the natural alignment, this is not lowered by '#pragma pack'.
+    smm required_alignment;
 };
 
 #define FUNCTION_TYPE_FLAGS_is_varargs    0x1
diff --git a/src/parse.c b/src/parse.c
index 92b5133..b5a95e0 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -7900,7 +7900,6 @@ case TOKEN_##type_name:{                                                 \
                 u64 declspec_alignment = 1;
                 b32 is_intrin_type = false;
                 b32 is_packed = false;
-                b32 has_declspec_alignment = false;
                 while(peek_token(context, TOKEN_declspec)){
                     next_token(context);
                     struct token *open = expect_token(context, TOKEN_open_paren, "Expected '(' to follow '__declspec'.");
@@ -7915,8 +7914,6 @@ case TOKEN_##type_name:{                                                 \
                         
                         u64 value = integer_literal_as_u64(&const_expr);
                         
-                        has_declspec_alignment = true;
-                        
                         //
                         // struct __declspec(align(0x100)) asd;
                         //
@@ -8008,7 +8005,7 @@ case TOKEN_##type_name:{                                                 \
                     }
                     
                     if(is_intrin_type) compound->base.flags |= TYPE_FLAG_is_intrin_type;
-                    if(has_declspec_alignment) compound->base.flags |= TYPE_FLAG_is_user_aligned;
+                    compound->required_alignment = declspec_alignment;
                     if(name){
                         compound->identifier = name;
                     }else{
@@ -8021,8 +8018,12 @@ case TOKEN_##type_name:{                                                 \
                     smm size = 0;
                     smm alignment = declspec_alignment;
                     
+                    // The maximal natural alignment of any member.
+                    smm max_natural_alignment = is_packed ? 1 : context->pragma_alignment;
+                    
                     struct ast_type *current_bitfield_type = null;
                     s64 current_bitfield_index = 0;
+                    smm current_bitfield_offset = 0; // The offset of the storage unit of the current bitfield.
                     
                     struct token *had_array_of_unknown_size = null;
                     
@@ -8122,7 +8123,6 @@ case TOKEN_##type_name:{                                                 \
                             }
                             
                             // :bitfields :parse_bitfields
-                            b32 this_was_a_bitfield_type_that_fits = false;
                             if(peek_token(context, TOKEN_colon)){
                                 struct token *colon = next_token(context);
                                 
@@ -8142,6 +8142,19 @@ case TOKEN_##type_name:{                                                 \
                                 //  that no further bit-field is to be packed into the unit in which the previous 
                                 //  bitfield, if any, was placed."
                                 if(width == 0){
+                                    
+                                    // A zero-width bitfield only has an effect, if it directly follows another bitfield.
+                                    if(current_bitfield_type){
+                                        if(is_union){
+                                            size = max_of(declarator.type->size, size);
+                                        }else{
+                                            smm zero_width_alignment = max_of(declarator.type->alignment, struct_specifiers.alignment);
+                                            if(zero_width_alignment > max_natural_alignment) zero_width_alignment = max_natural_alignment;
+                                            size = align_up(size, zero_width_alignment);
+                                            alignment = max_of(zero_width_alignment, alignment);
+                                        }
+                                    }
+                                    
                                     current_bitfield_type = null;
                                     current_bitfield_index = 0;
                                     
@@ -8164,19 +8177,36 @@ case TOKEN_##type_name:{                                                 \
                                 
                                 u64 bitfield_base = current_bitfield_index;
                                 
-                                if(current_bitfield_type && current_bitfield_type->size == declarator.type->size && current_bitfield_index + width <= declarator.type->size * 8){
-                                    // 
-                                    // If there was no prior named bitfield, it was not a bitfield that fits. This can happen for e.g.:
-                                    //   
-                                    //   struct { int : 4; int a: 4; };
-                                    // 
-                                    if(compound->amount_of_members) this_was_a_bitfield_type_that_fits = true;
-                                    
+                                // 
+                                // In a union every bitfield starts at bit 0.
+                                // 
+                                if(!is_union && current_bitfield_type && current_bitfield_type->size == declarator.type->size && current_bitfield_index + width <= declarator.type->size * 8){
                                     current_bitfield_index += width;
                                 }else{
                                     bitfield_base = 0;
                                     current_bitfield_type  = declarator.type;
                                     current_bitfield_index = width;
+                                    
+                                    // 
+                                    // Allocate the storage unit here, as unnamed bitfields use up storage as well.
+                                    // 
+                                    if(is_union){
+                                        // 
+                                        // @note: The alignment of bitfields in unions is ignored.
+                                        // 
+                                        current_bitfield_offset = 0;
+                                        size = max_of(declarator.type->size, size);
+                                    }else{
+                                        smm bitfield_alignment = declarator.type->alignment;
+                                        
+                                        // For bitfields the specifier acts on the natural alignment.
+                                        if(struct_specifiers.alignment > bitfield_alignment) bitfield_alignment = struct_specifiers.alignment;
+                                        if(bitfield_alignment > max_natural_alignment) bitfield_alignment = max_natural_alignment;
+                                        
+                                        current_bitfield_offset = align_up(size, bitfield_alignment);
+                                        size = current_bitfield_offset + declarator.type->size;
+                                        alignment = max_of(bitfield_alignment, alignment);
+                                    }
                                 }
                                 
                                 if(declarator.ident == globals.invalid_identifier_token){
@@ -8213,40 +8243,49 @@ case TOKEN_##type_name:{                                                 \
                                 current_bitfield_index = 0;
                             }
                             
-                            smm decl_alignment = declarator.type->alignment;
-                            if(struct_specifiers.alignment){ 
-                                decl_alignment = struct_specifiers.alignment; // Member specifiers are the most inner so they should take precedence.
-                                compound->base.flags |= TYPE_FLAG_is_user_aligned;
-                            }else if(is_packed){
-                                decl_alignment = 1; // If the struct is __declspec(packed), overwrite the _natural_ alignment.
-                            }else if(!(declarator.type->flags & TYPE_FLAG_is_user_aligned) && decl_alignment > context->pragma_alignment){
-                                decl_alignment = context->pragma_alignment;
-                            }
-                            
                             smm offset_in_type;
                             
-                            if(this_was_a_bitfield_type_that_fits){
-                                // 
-                                // Copy the offset from the previous bitfield type.
-                                // 
-                                assert(compound->members[compound->amount_of_members-1].type->kind == AST_bitfield_type);
-                                offset_in_type = compound->members[compound->amount_of_members-1].offset_in_type;
-                            }else if(is_union){
-                                offset_in_type = 0;
-                                size = max_of(declarator.type->size, size);
+                            if(declarator.type->kind == AST_bitfield_type){
+                                // The storage for the bitfield was allocated above.
+                                offset_in_type = current_bitfield_offset;
                             }else{
+                                
                                 // 
-                                // @note: first align up!
+                                // The required alignment of the member, i.e. the one which was specified by the user,
+                                // is not affected by packing, while the natural alignment is.
                                 // 
-                                size = align_up(size, decl_alignment);
+                                smm required_alignment = max_of(struct_specifiers.alignment, 1);
+                                
+                                struct ast_type *element_type = declarator.type;
+                                while(element_type->kind == AST_array_type) element_type = ((struct ast_array_type *)element_type)->element_type;
+                                
+                                if(element_type->kind == AST_struct || element_type->kind == AST_union){
+                                    required_alignment = max_of(required_alignment, ((struct ast_compound_type *)element_type)->required_alignment);
+                                }
+                                
+                                compound->required_alignment = max_of(compound->required_alignment, required_alignment);
                                 
-                                offset_in_type = size;
-                                size += declarator.type->size;
+                                smm decl_alignment = declarator.type->alignment;
+                                if(decl_alignment > max_natural_alignment) decl_alignment = max_natural_alignment;
+                                decl_alignment = max_of(decl_alignment, required_alignment);
+                                
+                                if(is_union){
+                                    offset_in_type = 0;
+                                    size = max_of(declarator.type->size, size);
+                                }else{
+                                    // 
+                                    // @note: first align up!
+                                    // 
+                                    size = align_up(size, decl_alignment);
+                                    
+                                    offset_in_type = size;
+                                    size += declarator.type->size;
+                                }
+                                
+                                // The alignment is the strictest alignment for any of the members.
+                                alignment = max_of(decl_alignment, alignment);
                             }
                             
-                            // The alignment is the strictest alignment for any of the members.
-                            alignment = max_of(decl_alignment, alignment);
-                            
                             if(!context->should_exit_statement){
                                 
                                 if(declarator.ident != globals.invalid_identifier_token){
-- 
2.43.0


From 7b65555f02b4175124282a7c0b9cb5a327134422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 16/83] fix: packing does not lower the alignment of user
 aligned types

---
 src/parse.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index b5a95e0..ef5df38 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -7900,6 +7900,7 @@ case TOKEN_##type_name:{                                                 \
                 u64 declspec_alignment = 1;
                 b32 is_intrin_type = false;
                 b32 is_packed = false;
+                b32 has_declspec_alignment = false;
                 while(peek_token(context, TOKEN_declspec)){
                     next_token(context);
                     struct token *open = expect_token(context, TOKEN_open_paren, "Expected '(' to follow '__declspec'.");
@@ -7914,6 +7915,8 @@ case TOKEN_##type_name:{                                                 \
                         
                         u64 value = integer_literal_as_u64(&const_expr);
                         
+                        has_declspec_alignment = true;
+                        
                         //
                         // struct __declspec(align(0x100)) asd;
                         //
@@ -8363,6 +8366,10 @@ case TOKEN_##type_name:{                                                 \
                         
                         compound->base.size = (size + (alignment - 1)) & ~(alignment - 1); // @cleanup: overflow
                         compound->base.alignment = alignment;
+                        
+                        // If the type itself was aligned by the user, none of its alignment gets lowered by '#pragma pack'.
+                        if(has_declspec_alignment) compound->required_alignment = alignment;
+                        
                         if(name){
                             compound->compilation_unit = context->current_compilation_unit;
                             register_compound_type(context, &compound->base, compound->identifier);
-- 
2.43.0


From b26cc1107d3c7519007014c833467f437837b5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:14 +0000
Subject: [PATCH 17/83] fix: 64-bit wide bitfields and static initialization of
 bitfields with values that do not fit

---
 src/ast.c      | 5 +++++
 src/emit_x64.c | 4 ++--
 src/main.c     | 6 ++----
 src/parse.c    | 6 +++---
 4 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 597e0e8..c412c14 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -618,6 +618,11 @@ struct ast_bitfield_type{
     u32 width;
 };
 
+// A mask for the bits of the value of the bitfield (before it is shifted by 'bit_index').
+inline u64 get_bitfield_mask(struct ast_bitfield_type *bitfield){
+    return (bitfield->width >= 64) ? ~0ull : ((1ull << bitfield->width) - 1);
+}
+
 inline smm get_declaration_alignment(struct ast_declaration *decl){
     smm alignment = decl->type->alignment;
     if(decl->overwrite_alignment > alignment) alignment = decl->overwrite_alignment; // An alignment can only be increased.
diff --git a/src/emit_x64.c b/src/emit_x64.c
index 01c7ea2..8034691 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -2044,7 +2044,7 @@ struct emit_location *emit_store_bitfield(struct context *context, struct ast_bi
     emit_location_prevent_spilling(context, rhs_loaded);
     
     // Truncate the right hand side.
-    struct emit_location *mask = emit_location_immediate(context, (1ull << bitfield->width) - 1, lhs->size);
+    struct emit_location *mask = emit_location_immediate(context, get_bitfield_mask(bitfield), lhs->size);
     struct emit_location *mask_loaded = emit_load_gpr(context, mask);
     emit_register_register(context, no_prefix(), one_byte_opcode(AND_REG_REGM), rhs_loaded, mask_loaded);
     free_emit_location(context, mask_loaded);
@@ -2059,7 +2059,7 @@ struct emit_location *emit_store_bitfield(struct context *context, struct ast_bi
     struct emit_location *lhs_loaded = emit_load_gpr(context, lhs);
     emit_location_prevent_spilling(context, lhs_loaded);
     
-    mask = emit_location_immediate(context, ~(((1ull << bitfield->width) - 1) << bitfield->bit_index), lhs->size);
+    mask = emit_location_immediate(context, ~(get_bitfield_mask(bitfield) << bitfield->bit_index), lhs->size);
     mask_loaded = emit_load_gpr(context, mask);
     emit_register_register(context, no_prefix(), one_byte_opcode(AND_REG_REGM), lhs_loaded, mask_loaded);
     free_emit_location(context, mask_loaded);
diff --git a/src/main.c b/src/main.c
index c0f0ba0..7545b65 100644
--- a/src/main.c
+++ b/src/main.c
@@ -2499,10 +2499,8 @@ func void evaluate_static_initializer__internal(struct context *context, struct
                                 memcpy(&old_value, data + offset, lhs_type->size);
                                 
                                 struct ast_bitfield_type *bitfield = cast(struct ast_bitfield_type *)lhs_type;
-                                value <<= bitfield->bit_index;
-                                
-                                u64 mask = ~(((1ull << bitfield->width) - 1) << bitfield->bit_index);
-                                u64 new_value = (mask & old_value) | value;
+                                u64 mask = get_bitfield_mask(bitfield) << bitfield->bit_index;
+                                u64 new_value = (old_value & ~mask) | ((value << bitfield->bit_index) & mask);
                                 memcpy(data + offset, &new_value, lhs_type->size);
                             }else{
                                 assert(lhs_type->kind == AST_integer_type || lhs_type->kind == AST_pointer_type || lhs_type->kind == AST_atomic_integer_type);
diff --git a/src/parse.c b/src/parse.c
index ef5df38..02d3ffd 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -420,8 +420,8 @@ func void push_cast(struct context *context, enum ast_kind lhs_or_rhs, struct as
             struct ast_bitfield_type *bitfield = (struct ast_bitfield_type *)cast_to;
             
             if(type_is_signed(bitfield->base_type)){
-                smm min_value = -(1ll << (bitfield->width - 1));
-                smm max_value =  (1ll << (bitfield->width - 1)) - 1;
+                smm min_value = (smm)(~0ull << (bitfield->width - 1));
+                smm max_value = ~min_value;
                 
                 if(type_is_signed(cast_what->resolved_type)){
                     s64 value = integer_literal_as_u64(cast_what);
@@ -435,7 +435,7 @@ func void push_cast(struct context *context, enum ast_kind lhs_or_rhs, struct as
                     }
                 }
             }else{
-                u64 max_value = (1ull << bitfield->width) - 1;
+                u64 max_value = get_bitfield_mask(bitfield);
                 
                 if(type_is_signed(cast_what->resolved_type)){
                     s64 value = integer_literal_as_u64(cast_what);
-- 
2.43.0


From df10be402a34b9ffad90c02fbc4feea88c547953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:21 +0000
Subject: [PATCH 18/83] fix: address constants through dereferences and pointer
 subscripts in static initializers

---
 src/main.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 7545b65..b603b15 100644
--- a/src/main.c
+++ b/src/main.c
@@ -2366,6 +2366,25 @@ func void evaluate_static_initializer__internal(struct context *context, struct
                 ir_stack[ir_stack_at-1].offset += dot->member->offset_in_type;
             }break;
             
+            case IR_member_deref:{
+                ir_offset += sizeof(struct ir_dot_or_arrow);
+                
+                // '(&global)->member', we can only handle this, if the pointer is the address of something.
+                if(!ir_stack[ir_stack_at-1].is_address || !ir_stack[ir_stack_at-1].ir) goto initializer_not_constant;
+                
+                struct ir_dot_or_arrow *arrow = (struct ir_dot_or_arrow *)ir_node;
+                ir_stack[ir_stack_at-1].offset += arrow->member->offset_in_type;
+                ir_stack[ir_stack_at-1].is_address = 0;
+            }break;
+            
+            case IR_deref:{
+                ir_offset += sizeof(struct ir_deref);
+                
+                if(!ir_stack[ir_stack_at-1].is_address || !ir_stack[ir_stack_at-1].ir) goto initializer_not_constant;
+                
+                ir_stack[ir_stack_at-1].is_address = 0;
+            }break;
+            
             case IR_load_address:{
                 ir_offset += sizeof(struct ir);
                 
@@ -2389,6 +2408,7 @@ func void evaluate_static_initializer__internal(struct context *context, struct
                 ir_stack[ir_stack_at-2] = temp;
             }break;
             
+            case IR_pointer_subscript:
             case IR_array_subscript:{
                 struct ir_subscript *subscript = (struct ir_subscript *)ir_node;
                 ir_offset += sizeof(struct ir_subscript);
@@ -2396,7 +2416,13 @@ func void evaluate_static_initializer__internal(struct context *context, struct
                 
                 struct ir *index = ir_stack[ir_stack_at].ir;
                 
-                if(index->kind == IR_integer_literal){
+                if(ir_node->kind == IR_pointer_subscript){
+                    // '(global + 1)[2]', we can only handle this, if the pointer is the address of something.
+                    if(!ir_stack[ir_stack_at-1].is_address || !ir_stack[ir_stack_at-1].ir) goto initializer_not_constant;
+                    ir_stack[ir_stack_at-1].is_address = 0;
+                }
+                
+                if(index && index->kind == IR_integer_literal && !ir_stack[ir_stack_at].is_address){
                     ir_stack[ir_stack_at-1].offset += integer_literal_to_bytes((struct ir *)index) * subscript->type->size;
                 }else{
                     report_error(context, /*ir->token*/error_token, "Expected a constant in array subscript, when evaluating initializer at compile time.");
-- 
2.43.0


From 45d08bc41273b5e4c9f9e7e973ce36a1243efdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:41 +0000
Subject: [PATCH 19/83] fix: designators of members of anonymous members and of
 unsized arrays

---
 src/parse.c | 57 +++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 02d3ffd..abe7330 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -2253,15 +2253,36 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
                         goto error;
                     }
                     
-                    u64 new_offset = designator_stack.first->offset_at + found->offset_in_type;
-                    
-                    designator_stack.first->member_at = found - compound->members;
-                    designator_stack.first->offset_at = new_offset;
-                    
-                    struct designator_node *new_node = push_struct(&context->scratch, struct designator_node);
-                    new_node->lhs_type  = found->type;
-                    new_node->offset_at = new_offset;
-                    sll_push_front(designator_stack, new_node);
+                    // :member_list_contains_both_linear_and_nested
+                    // 
+                    // If the member is contained in an anonymous member, walk through the anonymous member
+                    // such that the initializers following this one, continue inside of the anonymous member.
+                    // 
+                    while(true){
+                        
+                        smm found_index = found - compound->members;
+                        smm member_index = 0;
+                        while(member_index + compound->members[member_index].next_member_increment <= found_index){
+                            member_index += compound->members[member_index].next_member_increment;
+                        }
+                        
+                        struct compound_member *member = &compound->members[member_index];
+                        
+                        u64 new_offset = designator_stack.first->offset_at + member->offset_in_type;
+                        
+                        designator_stack.first->member_at = member_index;
+                        designator_stack.first->offset_at = new_offset;
+                        
+                        struct designator_node *new_node = push_struct(&context->scratch, struct designator_node);
+                        new_node->lhs_type  = member->type;
+                        new_node->offset_at = new_offset;
+                        sll_push_front(designator_stack, new_node);
+                        
+                        if(member == found) break;
+                        
+                        compound = (struct ast_compound_type *)member->type;
+                        found = find_member_in_compound(compound, identifier->atom);
+                    }
                     
                 }else if(token->type == TOKEN_open_index){
                     
@@ -2615,6 +2636,18 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
             }
         }
         
+        // :trailing_arrays
+        // 
+        // We might not get back to the array of unknown size, if there is a designator next.
+        // 
+        for(struct designator_node *node = designator_stack.first; node; node = node->next){
+            struct ast_array_type *array = (struct ast_array_type *)node->lhs_type;
+            if(array->base.kind == AST_array_type && array->is_of_unknown_size){
+                smm array_size = (node->array_at + 1) * array->element_type->size; // @cleanup: overflow
+                trailing_initializer_size = max_of(trailing_initializer_size, array_size);
+            }
+        }
+        
         int at_end = peek_token(context, TOKEN_closed_curly) != 0;
         
         while(true){
@@ -2655,12 +2688,6 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
                     // the structure.
                     // 
                     
-                    smm amount_of_elements = node->array_at;
-                    smm element_size = array->element_type->size;
-                    
-                    smm array_size = amount_of_elements * element_size; // @cleanup: overflow
-                    
-                    trailing_initializer_size = max_of(trailing_initializer_size, array_size);
                     break;
                 }
                 if(!at_end && (node->array_at < array->amount_of_elements)) break;
-- 
2.43.0


From 005157546395000af605568031828455815ce910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:41 +0000
Subject: [PATCH 20/83] fix: overridden address constants and strings in static
 initializers

---
 src/main.c | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/main.c b/src/main.c
index b603b15..7029b35 100644
--- a/src/main.c
+++ b/src/main.c
@@ -2199,7 +2199,26 @@ func void parser_emit_memory_location(struct context *context, struct ast_declar
 //_____________________________________________________________________________________________________________________
 
 
-func void evaluate_static_initializer__internal(struct context *context, struct ir *initializer, struct ast_declaration *patch_declaration, u8 *data, smm data_size, smm root_offset){
+func void discard_overridden_patches(struct context *context, struct patch_node *last_patch_before_initializer, smm offset, smm size){
+    // 
+    // For an initializer like 
+    //     static int *array[2] = {[0] = &a, [0] = 0};
+    // the later initializer has to override the patch of the earlier initializer.
+    // All patches after `last_patch_before_initializer` are patches of the declaration we are currently evaluating.
+    // 
+    struct patch_node *previous = last_patch_before_initializer;
+    for(struct patch_node *patch = previous ? previous->next : context->local_patch_list.first; patch; patch = patch->next){
+        smm patch_offset = patch->location_offset_in_dest_declaration;
+        if(offset < patch_offset + 8 && patch_offset < offset + size){
+            if(previous) previous->next = patch->next; else context->local_patch_list.first = patch->next;
+            if(!patch->next) context->local_patch_list.last = previous;
+        }else{
+            previous = patch;
+        }
+    }
+}
+
+func void evaluate_static_initializer__internal(struct context *context, struct ir *initializer, struct ast_declaration *patch_declaration, u8 *data, smm data_size, smm root_offset, smm *initialized_end, struct patch_node *last_patch_before_initializer){
     
     // @cleanup: There has to be a better solution.
     struct token *error_token = get_initializer_token(patch_declaration);
@@ -2334,8 +2353,14 @@ func void evaluate_static_initializer__internal(struct context *context, struct
                     smm lhs_size = lhs_type->size;
                     assert(offset + lhs_size <= data_size);
                     
+                    if(offset < *initialized_end){
+                        discard_overridden_patches(context, last_patch_before_initializer, offset, lhs_size);
+                        memset(data + offset, 0, lhs_size);
+                    }
+                    
                     // Recursively evaluate the compound literal.
-                    evaluate_static_initializer__internal(context, ir_node, patch_declaration, data, data_size, offset);
+                    evaluate_static_initializer__internal(context, ir_node, patch_declaration, data, data_size, offset, initialized_end, last_patch_before_initializer);
+                    *initialized_end = max_of(*initialized_end, offset + lhs_size);
                 }else{
                     // Add this compound literal to the list of unnamed global declarations.
                     ast_list_append(&context->global_struct_and_array_literals, context->arena, &compound_literal->decl->kind);
@@ -2477,7 +2502,7 @@ func void evaluate_static_initializer__internal(struct context *context, struct
                     ir_stack[ir_stack_at-1].ir = 0;
                     ir_stack[ir_stack_at-1].offset = offset_in_ir;
                     ir_stack[ir_stack_at-1].is_address = 1;
-                }else if(patch_lhs && patch_rhs){
+                }else if(patch_rhs && (patch_lhs || ir_node->kind != IR_add_u64)){
                     goto initializer_not_constant;
                 }else{
                     ir_stack[ir_stack_at-1].ir = patch_lhs ? patch_lhs : patch_rhs;
@@ -2497,6 +2522,9 @@ func void evaluate_static_initializer__internal(struct context *context, struct
                 smm lhs_size = lhs_type->size;
                 assert(offset + lhs_size <= data_size);
                 
+                if(offset < *initialized_end) discard_overridden_patches(context, last_patch_before_initializer, offset, lhs_size);
+                *initialized_end = max_of(*initialized_end, offset + lhs_size);
+                
                 if(ir_stack[ir_stack_at].is_address){
                     // 
                     // We have to emit an absolute patch.
@@ -2583,10 +2611,8 @@ func void evaluate_static_initializer__internal(struct context *context, struct
                             
                             memcpy(data + offset, str->value.data, str->value.size);
                             
-                            // @cleanup: should we memset the whole "upper" part?
-                            if(offset + str->value.size + lhs_array->element_type->size <= array_size){
-                                memset(&data[offset + str->value.size], 0, lhs_array->element_type->size); // zero-terminate
-                            }
+                            // Zero-terminate and zero the rest of the array (it might have been initialized by a previous initializer).
+                            memset(&data[offset + str->value.size], 0, array_size - str->value.size);
                         }break;
                         
                         case IR_embed:{
@@ -2648,7 +2674,8 @@ func u8 *evaluate_static_initializer(struct context *context, struct ast_declara
     push_zero_align(context->arena, data_align); // @cleanup: Do we need this?
     u8 *data = push_uninitialized_data(context->arena, u8, data_size); // @note: This will be zero-initialized, as we never free from arena.
     
-    evaluate_static_initializer__internal(context, decl->assign_expr, decl, data, data_size, 0);
+    smm initialized_end = 0;
+    evaluate_static_initializer__internal(context, decl->assign_expr, decl, data, data_size, 0, &initialized_end, context->local_patch_list.last);
     
     return data;
 }
-- 
2.43.0


From b81c1635f006ae93017d4822799d143e0b6e430f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:41 +0000
Subject: [PATCH 21/83] fix: initialization of structures starting with an
 unnamed bitfield

---
 src/parse.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index abe7330..71b65bd 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -2185,6 +2185,13 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
     
     struct designator_node initial_list_node = initial_node;
     
+    if(type_to_initialize->kind == AST_struct || type_to_initialize->kind == AST_union){
+        struct ast_compound_type *compound = (struct ast_compound_type *)type_to_initialize;
+        
+        // The first member does not have to be at offset zero, as there might be an unnamed bitfield before it.
+        if(compound->amount_of_members) initial_list_node.offset_at += compound->members[0].offset_in_type;
+    }
+    
     struct{
         struct designator_node *first;
         struct designator_node *last;
@@ -2614,7 +2621,7 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
                     // 
                     new_node = push_struct(&context->scratch, struct designator_node);
                     new_node->lhs_type = current_object_type;
-                    new_node->offset_at = designator_stack.first->offset_at;
+                    new_node->offset_at = designator_stack.first->offset_at + compound->members[0].offset_in_type;
                     new_node->member_at = 0;
                 }else if(type->kind == AST_array_type){
                     new_node = push_struct(&context->scratch, struct designator_node);
-- 
2.43.0


From 1854aa57f2a4ba00f9768d13b63c59bf18ef538f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:57 +0000
Subject: [PATCH 22/83] fix: string literals as initializers of arrays of
 arrays with one element

---
 src/parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 71b65bd..50a222f 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -2536,7 +2536,7 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
                 struct ast_array_type *wanted_array = (struct ast_array_type *)designator_stack.first->lhs_type;
                 struct ast_array_type *given_array  = (struct ast_array_type *)expression.resolved_type;
                 
-                if(wanted_array->element_type->size == given_array->element_type->size){
+                if(wanted_array->element_type->kind == AST_integer_type && wanted_array->element_type->size == given_array->element_type->size){
                     
                     // Pop one layer off the designator stack, making `designator_stack.first->lhs_type` the current object type.
                     current_object_type = designator_stack.first->lhs_type;
@@ -2576,7 +2576,7 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
                     struct ast_array_type *wanted_array = (struct ast_array_type *)current_object_type;
                     struct ast_array_type *given_array = (struct ast_array_type *)expression.resolved_type;
                     
-                    if(wanted_array->element_type->size == given_array->element_type->size){
+                    if(wanted_array->element_type->kind == AST_integer_type && wanted_array->element_type->size == given_array->element_type->size){
                         
                         if(wanted_array->is_of_unknown_size){
                             trailing_initializer_size = max_of(trailing_initializer_size, given_array->base.size);
-- 
2.43.0


From a952ccc98c1f3e1a3fbab923d0b7a4d85912f9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:16 +0000
Subject: [PATCH 23/83] fix: logical operators on floating point constants are
 constant

---
 src/parse.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 50a222f..75c1109 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -298,6 +298,20 @@ func enum ast_kind *defined_type_for_promotion(struct expr *ast){
 func void maybe_convert_floating_point_condition(struct context *context, struct expr *condition){
     if(condition->resolved_type->kind != AST_float_type) return;
     
+    if(condition->ir->kind == IR_float_literal){
+        static_assert(sizeof(struct ir_float_literal) == sizeof(struct ir_integer_literal));
+        
+        struct ir_integer_literal *lit = (struct ir_integer_literal *)condition->ir;
+        int is_true = float_literal_as_f64((struct ir_float_literal *)condition->ir) != 0.0;
+        
+        lit->base.kind = IR_integer_literal;
+        lit->_u64 = is_true;
+        lit->type = &globals.typedef_s32;
+        condition->resolved_type = &globals.typedef_s32;
+        condition->defined_type  = &globals.typedef_u8.kind;
+        return;
+    }
+    
     push_ir(context, (condition->resolved_type->size == 4) ? IR_logical_not_f32 : IR_logical_not_f64);
     condition->ir = push_ir(context, IR_logical_not_u32);
     condition->resolved_type = &globals.typedef_s32;
@@ -5885,6 +5899,8 @@ case NUMBER_KIND_##type:{ \
             
             case AST_unary_logical_not:{
                 
+                if(operand.ir->kind == IR_float_literal) maybe_convert_floating_point_condition(context, &operand);
+                
                 if(operand.ir->kind == IR_integer_literal){
                     struct ir_integer_literal *lit = cast(struct ir_integer_literal *)operand.ir;
                     lit->_u64 = !integer_literal_as_u64(&operand);
@@ -6682,6 +6698,8 @@ case NUMBER_KIND_##type:{ \
                 //  .end:
                 // 
                 
+                maybe_convert_floating_point_condition(context, &operand);
+                
                 struct expr *op_lhs = &stack_entry->operand;
                 struct expr *op_rhs = &operand;
                 struct ir_jump_node *conditional_jump = stack_entry->other;
@@ -6708,7 +6726,6 @@ case NUMBER_KIND_##type:{ \
                     // we should have special cases, that do not load the condition.
                     // 
                     
-                    maybe_convert_floating_point_condition(context, &operand);
                     struct ir_jump_node *rhs_jump = push_jump(context, IR_jump_if_false);
                     rhs_jump->label_number = conditional_jump->label_number;
                     
@@ -6783,6 +6800,8 @@ case NUMBER_KIND_##type:{ \
                 struct expr *op_lhs_expr = &stack_entry->operand;
                 struct ir *op_lhs = stack_entry->operand.ir;
                 
+                maybe_convert_floating_point_condition(context, &operand);
+                
                 struct expr *op_rhs_expr = &operand;
                 struct ir *op_rhs = operand.ir;
                 struct ir_jump_node *conditional_jump = stack_entry->other;
@@ -6815,7 +6834,6 @@ case NUMBER_KIND_##type:{ \
                     // we should have special cases, that do not load the condition.
                     // 
                     
-                    maybe_convert_floating_point_condition(context, &operand);
                     struct ir_jump_node *rhs_jump = push_jump(context, IR_jump_if_true);
                     rhs_jump->label_number = conditional_jump->label_number;
                     
-- 
2.43.0


From d9b425d84faa667ea21ad2f367e83696791debdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:26 +0000
Subject: [PATCH 24/83] fix: types and unevaluated operands in #if expressions

---
 src/preprocess.c | 49 +++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index 409e7bb..4462b53 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -2998,7 +2998,7 @@ func s64 static_if_evaluate(struct context *context){
                 case NUMBER_KIND_int:
                 case NUMBER_KIND_long:
                 case NUMBER_KIND_long_long:{
-                    if(value < max_s64) break;
+                    if(value <= max_s64) break;
                     report_warning(context, WARNING_integer_literal_too_large_to_be_signed, test, "Integer literal exceeds the maximum value representable as a signed integer and is interpreted as unsigned.");
                     is_unsigned = 1;
                 }break;
@@ -3188,16 +3188,18 @@ func s64 static_if_evaluate(struct context *context){
         static_if_stack_pop(context);
         
         switch(current->operation){
-            case STATIC_IF_EVALUATE_logical_not: value = !value; break;
+            case STATIC_IF_EVALUATE_logical_not: value = !value; is_unsigned = 0; break;
             case STATIC_IF_EVALUATE_bitwise_not: value = ~value; break;
             case STATIC_IF_EVALUATE_unary_minus: value = -(s64)value; break; // @cleanup: warning?
             
             case STATIC_IF_EVALUATE_left_shift:{
-                is_unsigned |= current->is_unsigned;
+                // The type of a shift is the type of the left operand.
+                is_unsigned = current->is_unsigned;
                 value = is_unsigned ? ((u64)current->value << (u64)value) : ((s64)current->value << (s64)value);
             }break;
             case STATIC_IF_EVALUATE_right_shift:{
-                is_unsigned |= current->is_unsigned;
+                // The type of a shift is the type of the left operand.
+                is_unsigned = current->is_unsigned;
                 value = is_unsigned ? ((u64)current->value >> (u64)value) : ((s64)current->value >> (s64)value);
             }break;
             
@@ -3213,18 +3215,38 @@ func s64 static_if_evaluate(struct context *context){
             case STATIC_IF_EVALUATE_div:{
                 is_unsigned |= current->is_unsigned;
                 if(value == 0){
+                    // The operand is not evaluated, so this is not an error.
+                    if(context->static_if_evaluate_should_skip_undefined_identifier) break;
+                    
                     report_error(context, get_current_token_for_error_report(context), "Divide by zero."); // @cleanup: More context if identifier was undefined.
                     return 0;
                 }
+                
+                if(!is_unsigned && (s64)value == -1){
+                    // The hardware traps on 'min_s64 / -1'.
+                    value = 0 - (u64)current->value;
+                    break;
+                }
+                
                 value = is_unsigned ? ((u64)current->value / (u64)value) : ((s64)current->value / (s64)value);
             }break;
             
             case STATIC_IF_EVALUATE_mod:{
                 is_unsigned |= current->is_unsigned;
                 if(value == 0){
+                    // The operand is not evaluated, so this is not an error.
+                    if(context->static_if_evaluate_should_skip_undefined_identifier) break;
+                    
                     report_error(context, get_current_token_for_error_report(context), "Mod with zero."); // @cleanup: More context if identifier was undefined.
                     return 0;
                 }
+                
+                if(!is_unsigned && (s64)value == -1){
+                    // The hardware traps on 'min_s64 % -1'.
+                    value = 0;
+                    break;
+                }
+                
                 value = is_unsigned ? ((u64)current->value % (u64)value) : ((s64)current->value % (s64)value);
             }break;
             
@@ -3287,8 +3309,14 @@ func s64 static_if_evaluate(struct context *context){
                     return 0;
                 }
                 
+                // Restore the old value of 'should_skip_undefined_identifier'.
+                context->static_if_evaluate_should_skip_undefined_identifier = current->should_skip_undefined_identifier;
+                
+                int condition_was_true = (current->value != 0);
                 static_if_stack_push(context, current->token, STATIC_IF_EVALUATE_ternary_condition, current->value, current->is_unsigned);
                 static_if_stack_push(context, binary_expression, STATIC_IF_EVALUATE_ternary_if_true, value, is_unsigned);
+                
+                context->static_if_evaluate_should_skip_undefined_identifier |= condition_was_true;
                 goto retry;
             }break;
             
@@ -3298,7 +3326,11 @@ func s64 static_if_evaluate(struct context *context){
                 
                 assert(if_true->operation == STATIC_IF_EVALUATE_ternary_if_true && condition->operation == STATIC_IF_EVALUATE_ternary_condition);
                 
+                is_unsigned |= if_true->is_unsigned;
                 value = condition->value ? if_true->value : value;
+                
+                // Restore the old value of 'should_skip_undefined_identifier'.
+                context->static_if_evaluate_should_skip_undefined_identifier = condition->should_skip_undefined_identifier;
             }break;
             
             invalid_default_case();
@@ -3346,7 +3378,14 @@ func s64 static_if_evaluate(struct context *context){
             goto retry;
         }
         
-        case TOKEN_question_mark: static_if_stack_push(context, test, STATIC_IF_EVALUATE_ternary_condition, value, is_unsigned); goto retry;
+        case TOKEN_question_mark:{
+            static_if_stack_push(context, test, STATIC_IF_EVALUATE_ternary_condition, value, is_unsigned);
+            
+            // Only one of the two operands gets evaluated.
+            context->static_if_evaluate_should_skip_undefined_identifier |= (value == 0);
+            
+            goto retry;
+        }
         
         default: break;
     }
-- 
2.43.0


From 5db57d2f9d228e9b5e5271e95e8cbcb10bc16f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 25/83] fix: member access of an assigned struct, shifts of
 bit-fields

---
 src/emit_x64.c | 11 +++++++++++
 src/parse.c    |  8 +++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 8034691..a73014b 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -3328,6 +3328,17 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 ir_arena_at += sizeof(*dot);
                 
                 struct emit_location *loc = emit_location_stack[emit_location_stack_at-1];
+                
+                if(loc->state == EMIT_LOCATION_loaded){
+                    // 
+                    // A small struct which is the result of an expression might be loaded, e.g. '(a = b).member'.
+                    // 
+                    struct emit_location *temporary = emit_allocate_temporary_stack_location(context, loc->size, loc->size);
+                    emit_store(context, temporary, loc);
+                    
+                    emit_location_stack[emit_location_stack_at-1] = loc = temporary;
+                }
+                
                 assert(loc->state == EMIT_LOCATION_register_relative);
                 
                 loc->size    = dot->member->type->size;
diff --git a/src/parse.c b/src/parse.c
index 75c1109..9811b99 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -4186,7 +4186,13 @@ func void punt_compound_assignment(struct context *context, struct expr *lhs, st
     
     struct expr dup_expr = {.ir = dup, site, lhs->resolved_type, lhs->defined_type};
     
-    maybe_insert_arithmetic_conversion_casts(context, &dup_expr, rhs);
+    if(ast_kind == AST_left_shift_assignment || ast_kind == AST_right_shift_assignment){
+        // The type of a shift is the promoted type of the left operand.
+        maybe_insert_integer_promotion_cast(context, AST_cast_lhs, &dup_expr);
+        push_cast(context, AST_cast, &globals.typedef_u8, null, rhs);
+    }else{
+        maybe_insert_arithmetic_conversion_casts(context, &dup_expr, rhs);
+    }
     
     enum ir_type ir_type = ir_type_from_type(dup_expr.resolved_type);
     enum ir_kind op_ir_kind;
-- 
2.43.0


From 3196cf5ae879f2e44d1a0210c4ad0a136fdb93fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 26/83] fix: null directives in skipped groups, whitespace in
 stringized macro expansions, names of function-like macros at the end of a
 line

---
 src/preprocess.c | 85 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 66 insertions(+), 19 deletions(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index 4462b53..1ae8136 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -1827,6 +1827,32 @@ func void eat_whitespace_comments_and_newlines(struct context *context){
 }
 
 
+// 
+// Check whether the name of a function-like macro is followed by a '('. 
+// If it is not, the whitespace and newlines in between are still there afterwards.
+// 
+func b32 peek_open_paren_after_function_like_macro_name(struct context *context){
+    struct token *whitespace = null;
+    
+    while(true){
+        struct token *token = get_current_token_raw(context);
+        
+        if(token->type == TOKEN_open_paren) return true;
+        
+        if(token->type != TOKEN_whitespace && token->type != TOKEN_comment && token->type != TOKEN_newline) break;
+        
+        if(!whitespace || whitespace->type != TOKEN_newline) whitespace = token;
+        next_token_raw(context);
+    }
+    
+    if(whitespace){
+        struct token_array token_array = {.data = whitespace, .size = 1};
+        push_to_token_stack(context, token_array, 0, null);
+    }
+    
+    return false;
+}
+
 func struct token *expand_define(struct context *context, struct token *token_to_expand, struct define_node *define, struct token *macro_expansion_site){
     
     if(define->is_builtin){
@@ -1972,7 +1998,7 @@ func struct token *expand_define(struct context *context, struct token *token_to
         assert(open_paren->type == TOKEN_open_paren); // This should have been ensured by the outside.
         
         if(sll_is_empty(define->arguments)){
-            eat_whitespace_and_comments(context);
+            eat_whitespace_comments_and_newlines(context);
             
             if(!peek_token_eat_raw(context, TOKEN_closed_paren)){
                 begin_error_report(context);
@@ -2154,9 +2180,7 @@ func struct token *expand_define(struct context *context, struct token *token_to
                             
                             smm size = 0;
                             for(smm i = 0; i < string.size; i++){
-                                if(string.data[i] == '\''){
-                                    size += 2;
-                                }else if(string.data[i] == '"'){
+                                if(string.data[i] == '"'){
                                     size += 2;
                                 }else if(string.data[i] == '\\'){
                                     size += 2;
@@ -2169,10 +2193,7 @@ func struct token *expand_define(struct context *context, struct token *token_to
                             
                             smm at = 0;
                             for(smm i = 0; i < string.size; i++){
-                                if(string.data[i] == '\''){
-                                    data[at++] = '\\';
-                                    data[at++] = '\'';
-                                }else if(string.data[i] == '"'){
+                                if(string.data[i] == '"'){
                                     data[at++] = '\\';
                                     data[at++] = '"';
                                 }else if(string.data[i] == '\\'){
@@ -2248,8 +2269,7 @@ func struct token *expand_define(struct context *context, struct token *token_to
                                 int skip = 0;
                                 
                                 if(define_in_argument->is_function_like){
-                                    eat_whitespace_comments_and_newlines(context); 
-                                    if(!peek_token_raw(context, TOKEN_open_paren)){
+                                    if(!peek_open_paren_after_function_like_macro_name(context)){
                                         skip = 1;
                                     }
                                 }
@@ -3533,8 +3553,7 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                     
                     int skip = 0;
                     if(define->is_function_like){
-                        eat_whitespace_comments_and_newlines(context); 
-                        if(!peek_token_raw(context, TOKEN_open_paren)){
+                        if(!peek_open_paren_after_function_like_macro_name(context)){
                             skip = 1;
                         }
                     }
@@ -3689,7 +3708,13 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
             eat_whitespace_and_comments(context);
             
             if(peek_token_raw(context, TOKEN_newline)){
-                // do nothing
+                // 
+                // A null directive '#' does nothing, but if we are in a disabled block it must not enable it.
+                // 
+                end_counter(context, handle_directive);
+                if(static_if_stack.first && !static_if_stack.first->is_true){
+                    goto jump_because_a_postponed_static_if_was_disabled_and_we_should_search_for_the_next_directive;
+                }
                 continue;
             }
             
@@ -4033,22 +4058,42 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                     // We don't have to worry about the file ending and not having a newline at the end,
                     // as we put a newline at the end of the file.
                     // 
-                    while(!peek_token_raw(context, TOKEN_newline)){
+                    // 
+                    // A sequence of whitespace between two tokens of the replacement list is kept as one whitespace token, 
+                    // it is needed if the expansion of the macro gets stringified.
+                    // 
+                    struct token *whitespace = null;
+                    
+                    while(true){
                         b32 handled = false;
                         
-                        if(peek_token_raw(context, TOKEN_identifier)){
+                        if(peek_token_raw(context, TOKEN_whitespace) || peek_token_raw(context, TOKEN_comment)){
+                            whitespace = get_current_token_raw(context);
+                            eat_whitespace_and_comments(context);
+                        }
+                        
+                        if(peek_token_raw(context, TOKEN_newline)) break;
+                        
+                        if(whitespace && !peek_token_raw(context, TOKEN_hashhash)){
+                            // Emit the whitespace before we handle the token.
+                        }else if(peek_token_raw(context, TOKEN_identifier)){
                             struct token *ident = get_current_token_raw(context);
                             struct define_argument *arg = lookup_define_argument(arguments, ident);
                             if(arg){
                                 next_token_raw(context);
                                 handled = true;
-                                eat_whitespace_and_comments(context);
+                                
+                                if(peek_token_raw(context, TOKEN_whitespace) || peek_token_raw(context, TOKEN_comment)){
+                                    whitespace = get_current_token_raw(context);
+                                    eat_whitespace_and_comments(context);
+                                }
                                 
                                 struct define_replacement_node *replacement = push_struct(&context->scratch, struct define_replacement_node);
                                 
                                 if(peek_token_raw(context, TOKEN_hashhash)){
                                     struct token *hashhash = next_token_raw(context);
                                     
+                                    whitespace = null;
                                     eat_whitespace_and_comments(context);
                                     
                                     replacement->kind = DEFINE_REPLACEMENT_hashhash;
@@ -4111,6 +4156,7 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                         }else if(peek_token_raw(context, TOKEN_hashhash)){
                             handled = true;
                             struct token *hashhash = next_token_raw(context);
+                            whitespace = null;
                             eat_whitespace_and_comments(context);
                             if(peek_token_raw(context, TOKEN_newline)){
                                 report_error(context, hashhash, "'##' at the end of a macro replacement list is illegal.");
@@ -4173,8 +4219,11 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                                 replacement->tokens.data = define_tokens;
                             }
                             
+                            struct token *token = whitespace ? whitespace : next_token_raw(context);
+                            whitespace = null;
+                            
                             define_amount++;
-                            *push_uninitialized_struct(&context->scratch, struct token) = *next_token_raw(context);
+                            *push_uninitialized_struct(&context->scratch, struct token) = *token;
                             replacement_list.last->tokens.amount = define_amount;
                         }else{
                             
@@ -4182,8 +4231,6 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                             define_amount   = 0;
                             define_tokens = null;
                         }
-                        
-                        eat_whitespace_and_comments(context);
                     }
                     
                     struct define_node *redecl = lookup_define(context, name);
-- 
2.43.0


From 66d0823d2d40a2da9816be7f74c02ce7f7c4c3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 27/83] fix: placemarkers, line splices in // comments, empty
 stringized variadic arguments, redefinitions that differ after ##

---
 src/preprocess.c | 50 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index 1ae8136..a77ffed 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -1528,7 +1528,16 @@ at     += size;
                 }else if(at[1] == '/'){
                     at += 2;
                     
-                    while(*at && *at != '\n') at++;
+                    while(*at && *at != '\n'){
+                        if(*at++ == '\\'){
+                            // A line splice continues the comment on the next line.
+                            if(at[0] == '\r' && at[1] == '\n') at++;
+                            if(at[0] == '\n'){
+                                at++;
+                                line++;
+                            }
+                        }
+                    }
                     
                     next_token__internal(TOKEN_comment, at - start);
                 }else if(at[1] == '='){
@@ -1829,15 +1838,14 @@ func void eat_whitespace_comments_and_newlines(struct context *context){
 
 // 
 // Check whether the name of a function-like macro is followed by a '('. 
-// If it is not, the whitespace and newlines in between are still there afterwards.
+// The whitespace and newlines in between are still there afterwards.
 // 
 func b32 peek_open_paren_after_function_like_macro_name(struct context *context){
     struct token *whitespace = null;
+    struct token *token;
     
     while(true){
-        struct token *token = get_current_token_raw(context);
-        
-        if(token->type == TOKEN_open_paren) return true;
+        token = get_current_token_raw(context);
         
         if(token->type != TOKEN_whitespace && token->type != TOKEN_comment && token->type != TOKEN_newline) break;
         
@@ -1850,7 +1858,7 @@ func b32 peek_open_paren_after_function_like_macro_name(struct context *context)
         push_to_token_stack(context, token_array, 0, null);
     }
     
-    return false;
+    return token->type == TOKEN_open_paren;
 }
 
 func struct token *expand_define(struct context *context, struct token *token_to_expand, struct define_node *define, struct token *macro_expansion_site){
@@ -1994,6 +2002,7 @@ func struct token *expand_define(struct context *context, struct token *token_to
     
     if(define->is_function_like){
         
+        eat_whitespace_comments_and_newlines(context);
         struct token *open_paren = next_token_raw(context);
         assert(open_paren->type == TOKEN_open_paren); // This should have been ensured by the outside.
         
@@ -2141,6 +2150,7 @@ func struct token *expand_define(struct context *context, struct token *token_to
                             if(define->is_varargs && !arg->next->next){
                                 // varargs with no arguments in __VA_ARGS__ is fine
                                 argument_token_arrays[arg->next->argument_index] = (struct token_array)zero_struct;
+                                if(arg->next->stringify_index != -1) stringified_arguments[arg->next->stringify_index] = string("\"\"");
                                 break;
                             }
                             
@@ -2413,6 +2423,13 @@ func struct token *expand_define(struct context *context, struct token *token_to
                         assert(context->token_stack.size > (define_token_stack_at + 1) - context->token_stack.nodes);
                         struct token_stack_node *last = define_token_stack_at + 1;
                         
+                        if(last->tokens.amount == 0){
+                            // The previous '##' only had empty operands (the result is a "placemarker").
+                            prefix_is_empty = true;
+                            define_token_stack_at += 1;
+                            break;
+                        }
+                        
                         for(smm i = last->tokens.amount - 1; i >= 0; i--){
                             struct token *token = last->tokens.data + i;
                             if(token->type == TOKEN_whitespace || token->type == TOKEN_comment || token->type == TOKEN_newline){
@@ -2463,15 +2480,14 @@ func struct token *expand_define(struct context *context, struct token *token_to
                 
                 struct token_array tokens = tokenize_raw(context, concat, macro_expansion_site->file_index, /* is_stupid_hash_hash_hack */ true, /* lines */null);
                 
-                if(tokens.amount){
-                    // @note: amount can be 0 for 
-                    //            #define C(a,b) a##b
-                    //            C(,)
-                    define_token_stack_at->tokens = tokens;
-                    define_token_stack_at->at = 0;
-                    define_token_stack_at->define_to_reenable_on_exit = 0;
-                    define_token_stack_at -= 1;
-                }
+                // @note: amount can be 0 for 
+                //            #define C(a,b) a##b
+                //            C(,)
+                //        We still need the (empty) node in this case, as another '##' might follow.
+                define_token_stack_at->tokens = tokens;
+                define_token_stack_at->at = 0;
+                define_token_stack_at->define_to_reenable_on_exit = 0;
+                define_token_stack_at -= 1;
                 
                 if(postfix_array.data){
                     define_token_stack_at->tokens = postfix_array;
@@ -4321,6 +4337,10 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                                             decl_list->postfix_argument != redecl_list->postfix_argument){
                                         defines_are_equivalent = false;
                                     }
+                                    
+                                    if(decl_list->postfix_argument == -1 && !string_match(decl_list->postfix_token->string, redecl_list->postfix_token->string)){
+                                        defines_are_equivalent = false;
+                                    }
                                 }break;
                                 invalid_default_case();
                             }
-- 
2.43.0


From 5218c42c4e9dfbb8ebed5ff7f0a2bae7577ce33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:15 +0000
Subject: [PATCH 28/83] fix: redefinitions that stringize another argument,
 comma at the end of a pasted argument

---
 src/preprocess.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index a77ffed..b13eefa 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -67,7 +67,11 @@ struct define_replacement_node{
     
     union{
         struct token_array tokens; // DEFINE_REPLACEMENT_tokens
-        smm stringify_index;    // DEFINE_REPLACEMENT_hash
+        
+        struct{
+            smm stringify_index;
+            smm stringify_argument; // The index of the argument that gets stringified.
+        }; // DEFINE_REPLACEMENT_hash
         
         struct{
             smm argument_index;        
@@ -2469,7 +2473,8 @@ func struct token *expand_define(struct context *context, struct token *token_to
                 
                 
                 // @note: GCC extension for ', ##  __VA_ARGS__'. And I allow this for any macro.
-                if(postfix_is_empty && !prefix_is_empty && prefix_token->type == TOKEN_comma) break;
+                //        The comma has to be in the replacement list, not in an argument.
+                if(postfix_is_empty && replacement->prefix_argument == -1 && !prefix_is_empty && prefix_token->type == TOKEN_comma) break;
                 
                 struct string prev_string = prefix_is_empty  ? string("") : token_get_string(prefix_token);
                 struct string next_string = postfix_is_empty ? string("") : token_get_string(postfix_token);
@@ -4165,6 +4170,7 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                             struct define_replacement_node *replacement = push_struct(&context->scratch, struct define_replacement_node);
                             replacement->kind = DEFINE_REPLACEMENT_hash;
                             replacement->stringify_index = arg->stringify_index;
+                            replacement->stringify_argument = arg->argument_index;
                             
                             token_stack_node_count += 1;
                             
@@ -4328,7 +4334,7 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                                     }
                                 }break;
                                 case DEFINE_REPLACEMENT_hash:{
-                                    if(decl_list->stringify_index != redecl_list->stringify_index){
+                                    if(decl_list->stringify_argument != redecl_list->stringify_argument){
                                         defines_are_equivalent = false;
                                     }
                                 }break;
-- 
2.43.0


From b56b6acec7131247ddcbf096a1334c28724b3d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:44 +0000
Subject: [PATCH 29/83] fix: low surrogates start at 0xDC00

---
 src/preprocess.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index b13eefa..9c5b32a 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -798,7 +798,7 @@ struct string escape_and_convert_string_array(struct context *context, struct to
                             
                             // first the high bits, then the low bits
                             handle_escaping_out(0xD800 | ((codepoint >> 10) & 0b1111111111));
-                            handle_escaping_out(0xDD00 | ((codepoint >>  0) & 0b1111111111));
+                            handle_escaping_out(0xDC00 | ((codepoint >>  0) & 0b1111111111));
                         }
                         continue;
                     }
@@ -834,7 +834,7 @@ struct string escape_and_convert_string_array(struct context *context, struct to
                             
                             // first the high bits, then the low bits
                             handle_escaping_out(0xD800 | ((codepoint >> 10) & 0b1111111111));
-                            handle_escaping_out(0xDD00 | ((codepoint >>  0) & 0b1111111111));
+                            handle_escaping_out(0xDC00 | ((codepoint >>  0) & 0b1111111111));
                         }
                     }else{
                         // Allow the user to specify invalid utf-16 through escapes!
-- 
2.43.0


From 14ba4b2f0dbbef797b1936d65b11668dc186b827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:44 +0000
Subject: [PATCH 30/83] fix: float literals are rounded once, not through
 double

---
 src/parse.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 9811b99..03c07fd 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -4257,6 +4257,7 @@ func void punt_compound_assignment(struct context *context, struct expr *lhs, st
 
 // @cleanup: Eventually, we should implement this ourselves.
 __declspec(dllimport) double strtod(const char *str, char **endptr);
+__declspec(dllimport) float strtof(const char *str, char **endptr);
 
 func struct expr parse_expression(struct context *context, b32 should_skip_comma_expression){
     
@@ -4903,7 +4904,15 @@ case NUMBER_KIND_##type:{ \
             struct string value = create_string(string.data, string.size - suffix.size);
             char *cvalue = push_cstring_from_string(&context->scratch, value);
             char *endptr;
-            double val = strtod(cvalue, &endptr);
+            
+            // @note: Parsing a float as a double and then truncating it would round twice.
+            f32 f32_val = 0.0f;
+            f64 f64_val = 0.0;
+            if(is_32_bit){
+                f32_val = strtof(cvalue, &endptr);
+            }else{
+                f64_val = strtod(cvalue, &endptr);
+            }
             
             // @cleanup: handle strtod errors
             
@@ -4915,9 +4924,9 @@ case NUMBER_KIND_##type:{ \
             
             f->type = type;
             if(is_32_bit){
-                f->_f32 = (f32)val;
+                f->_f32 = f32_val;
             }else{
-                f->_f64 = val;
+                f->_f64 = f64_val;
             }
             
             operand.ir = &f->base;
-- 
2.43.0


From f7d50523964ff5fb9df12049f300b17f6b07e138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 31/83] fix: static assertions and declaration lists survive
 sleeping

A global _Static_assert that referred to something declared later was dropped,
and a declaration list was parsed again from its start, so that the declarators
it had already registered were reported as redefinitions.
---
 src/main.c  | 28 ++++++++++++++++++++++++----
 src/parse.c | 27 ++++++++++++++++++++++++++-
 2 files changed, 50 insertions(+), 5 deletions(-)

diff --git a/src/main.c b/src/main.c
index 7029b35..1dde570 100644
--- a/src/main.c
+++ b/src/main.c
@@ -16,6 +16,18 @@ struct parse_work{
     u64 pragma_alignment;
     
     struct ast_function *function; // This is here to communicate between 'worker_parse_global_scope_entry' and 'worker_parse_function'.
+    
+    // If a global declaration list sleeps after it already registered some of its declarators, e.g:
+    //     int a = 1, b[sizeof(struct declared_later)];
+    // the declarators that are done must not be parsed again. Hence, we remember the specifiers
+    // and the token the next declarator starts at ('0' if there is nothing to resume).
+    struct{
+        smm token_at;
+        struct ast_type *type_specifier;
+        enum ast_kind *defined_type_specifier;
+        u64 specifier_flags;
+        u64 alignment;
+    } resume;
 };
 
 struct work_tokenize_file{
@@ -785,6 +797,7 @@ struct context{
     
     struct ast_scope *current_scope;
     struct ast_function *current_function;       // This is set by `worker_parse_function` and later by `worker_emit_code`.
+    struct parse_work *current_parse_work; // The global scope entry we are currently parsing.
     struct ast_declaration *current_declaration; // This is set by `worker_parse_global_scope_entry`.
     struct compilation_unit *current_compilation_unit;
     
@@ -2724,6 +2737,7 @@ func void reset_context(struct context *context){
     context->should_exit_statement      = false;
     context->error                      = false;
     context->current_compilation_unit   = null;
+    context->current_parse_work         = null;
     context->maybe_in_cast              = null;
     context->in_conditional_expression  = 0;
     context->in_static_if_condition     = 0;
@@ -3281,12 +3295,18 @@ func void worker_parse_global_scope_entry(struct context *context, struct work_q
     
     if(peek_token(context, TOKEN_static_assert)){
         struct token *static_assert_token = next_token(context);
-        parse_static_assert(context, static_assert_token); // @cleanup: static_assert and sleeping.
-        expect_token(context, TOKEN_semicolon, "Expected a ';' after _Static_assert.");
-        return;
+        parse_static_assert(context, static_assert_token);
+        if(!context->should_sleep){
+            expect_token(context, TOKEN_semicolon, "Expected a ';' after _Static_assert.");
+            return;
+        }
     }
     
-    struct declaration_list declaration_list = parse_declaration_list(context, null, null);
+    struct declaration_list declaration_list = zero_struct;
+    if(!context->should_sleep){
+        context->current_parse_work = parse_work;
+        declaration_list = parse_declaration_list(context, null, null);
+    }
     if(context->error) return;
     if(context->should_sleep){
         struct token *sleep_on = context->sleep_on;
diff --git a/src/parse.c b/src/parse.c
index 03c07fd..db15945 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -8725,7 +8725,19 @@ func struct declaration_list parse_declaration_list(struct context *context, str
     // @cleanup: explain this again
     b32 should_set_sleeping_ident = !context->sleeping_ident;
     
-    struct declaration_specifiers specifiers = parse_declaration_specifiers(context, type_specifier, defined_type_specifier);
+    // Only the declaration list of a global scope entry can sleep (and thus be resumed).
+    struct parse_work *parse_work = context->current_scope ? null : context->current_parse_work;
+    
+    struct declaration_specifiers specifiers = zero_struct;
+    if(parse_work && parse_work->resume.token_at){
+        specifiers.type_specifier         = parse_work->resume.type_specifier;
+        specifiers.defined_type_specifier = parse_work->resume.defined_type_specifier;
+        specifiers.specifier_flags        = parse_work->resume.specifier_flags;
+        specifiers.alignment              = parse_work->resume.alignment;
+        context->token_at = parse_work->resume.token_at;
+    }else{
+        specifiers = parse_declaration_specifiers(context, type_specifier, defined_type_specifier);
+    }
     if(context->should_exit_statement) goto end;
     
     // :unresolved_types
@@ -8749,7 +8761,20 @@ func struct declaration_list parse_declaration_list(struct context *context, str
         goto end; // @cleanup: the 'does not declare anything' check should be here.
     }
     
+    u64 initial_specifier_flags = specifiers.specifier_flags;
+    b32 is_first_declarator = true;
+    
     do{
+        if(parse_work && !is_first_declarator){
+            // The previous declarators are registered, if we sleep continue here.
+            parse_work->resume.token_at = context->token_at;
+            parse_work->resume.type_specifier         = ret.type_specifier;
+            parse_work->resume.defined_type_specifier = ret.defined_type_specifier;
+            parse_work->resume.specifier_flags        = initial_specifier_flags;
+            parse_work->resume.alignment              = specifiers.alignment;
+        }
+        is_first_declarator = false;
+        
         struct declarator_return declarator = parse_declarator(context, ret.type_specifier, ret.defined_type_specifier, DECLARATOR_identifier);
         if(should_set_sleeping_ident) context->sleeping_ident = declarator.ident;
         
-- 
2.43.0


From 4fbb1f77dec99ac82f79399b4bdee61ac586db07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:29 +0000
Subject: [PATCH 32/83] fix: specifiers implied by one declarator do not leak
 into the next

Also 'extern' after a 'static' declaration of the same identifier is accepted.
---
 src/parse.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index db15945..b712342 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -8775,6 +8775,9 @@ func struct declaration_list parse_declaration_list(struct context *context, str
         }
         is_first_declarator = false;
         
+        // The code below adds specifiers that only apply to this declarator.
+        specifiers.specifier_flags = initial_specifier_flags;
+        
         struct declarator_return declarator = parse_declarator(context, ret.type_specifier, ret.defined_type_specifier, DECLARATOR_identifier);
         if(should_set_sleeping_ident) context->sleeping_ident = declarator.ident;
         
@@ -8807,6 +8810,8 @@ func struct declaration_list parse_declaration_list(struct context *context, str
             // We overwrite the usual is static.                                         -20.11.2020
             if(declarator.ident != globals.invalid_identifier_token){
                 if(compilation_unit_is_static_table_lookup_whether_this_identifier_is_static(context->current_compilation_unit, declarator.ident->atom) == IDENTIFIER_is_static){
+                    // "extern int a;" refers to the prior "static int a;".
+                    if(!(specifiers.specifier_flags & SPECIFIER_static)) specifiers.specifier_flags &= ~SPECIFIER_extern;
                     specifiers.specifier_flags |= SPECIFIER_static;
                 }
             }
-- 
2.43.0


From f6c1a688c3c88a1257a8a233cdcd59f2b05eb9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:45 +0000
Subject: [PATCH 33/83] fix: sizeof and _Alignof of an expression resolve types
 declared later

---
 src/parse.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index b712342..b778c2a 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -5814,6 +5814,8 @@ case NUMBER_KIND_##type:{ \
             
             case AST_sizeof:{
                 
+                if(maybe_resolve_unresolved_type_or_sleep_or_error(context, &operand.resolved_type)) return operand;
+                
                 if(operand.resolved_type->kind == AST_function_type){
                     report_error(context, stack_entry->token, "Expression of function type has undefined size.");
                     return operand;
@@ -5867,6 +5869,8 @@ case NUMBER_KIND_##type:{ \
             }break;
             case AST_alignof:{
                 
+                if(maybe_resolve_unresolved_type_or_sleep_or_error(context, &operand.resolved_type)) return operand;
+                
                 if(operand.resolved_type->kind == AST_function_type){
                     report_error(context, stack_entry->token, "Expression of function type has undefined alignment.");
                     return operand;
-- 
2.43.0


From 8e87804ee66d9c77d3974381f0d07cb5d0d6e82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:20 +0000
Subject: [PATCH 34/83] fix: addresses in selectany data of objects are
 relocated in their own section

---
 src/obj_writer.c | 64 ++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 59 insertions(+), 5 deletions(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index 1ec2f64..ed682ed 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -2801,6 +2801,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
     struct patch_node *text_patches = null;
     struct patch_node *data_patches = null;
     struct patch_node *tls_patches  = null;
+    struct patch_node *selectany_patches = null;
     
     smm amount_of_text_patches = 0;
     smm amount_of_data_patches = 0;
@@ -2809,10 +2810,6 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
     for(smm thread_index = 0; thread_index < globals.thread_count; thread_index++){
         struct context *thread_context = globals.thread_infos[thread_index].context;
         
-        // 
-        // @cleanup: Patches to __declspec(selectany) variables probably do not work.
-        // 
-        
         for(struct patch_node *patch = thread_context->local_patch_list.first; patch; ){
             struct patch_node *next = patch->next;
             
@@ -2830,7 +2827,10 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
             }else{
                 assert(dest_declaration->kind == IR_declaration);
                 
-                if(dest_declaration->flags & DECLARATION_FLAGS_is_thread_local){
+                if(dest_declaration->flags & DECLARATION_FLAGS_is_selectany){
+                    patch->next = selectany_patches;
+                    selectany_patches = patch;
+                }else if(dest_declaration->flags & DECLARATION_FLAGS_is_thread_local){
                     patch->next = tls_patches;
                     tls_patches = patch;
                     amount_of_tls_patches += 1;
@@ -3040,6 +3040,60 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
         assert(index == amount_of_tls_patches);
     }
     
+    // 
+    // Each selectany variable has its own section and therefore its own relocations.
+    // 
+    for_ast_list(selectany_variables){
+        struct ast_declaration *declaration = (struct ast_declaration *)it->value;
+        
+        struct coff_symbol_table_record *record = (struct coff_symbol_table_record *)((u8 *)symbol_table_base + 18 * declaration->symbol_table_index);
+        struct coff_section_header *selectany_section = &section_headers[record->section_number - 1];
+        
+        smm amount_of_selectany_patches = 0;
+        for(struct patch_node *patch = selectany_patches; patch; patch = patch->next){
+            if(patch->dest_declaration == declaration) amount_of_selectany_patches += 1;
+        }
+        if(!amount_of_selectany_patches) continue;
+        
+        selectany_section->pointer_to_relocations = (u32)(arena_current(arena) - obj_base_address);
+        
+        if(amount_of_selectany_patches <= 0xffff){
+            selectany_section->number_of_relocations = (u16)amount_of_selectany_patches;
+        }else{
+            // See above.
+            selectany_section->characteristics |= /*IMAGE_SCN_LNK_NRELOC_OVFL*/0x01000000;
+            selectany_section->number_of_relocations = 0xffff;
+            
+            struct coff_relocation *relocation = (void *)push_data(arena, u8, 10);
+            relocation->relocation_type = 0; // The relocation is ignored.
+            relocation->destination_offset_in_section = (u32)(amount_of_selectany_patches + 1);
+        }
+        
+        for(struct patch_node *patch = selectany_patches; patch; patch = patch->next){
+            if(patch->dest_declaration != declaration) continue;
+            assert(patch->kind == PATCH_absolute); // There should only be absolute patches to .data
+            
+            struct coff_relocation *relocation = (void *)push_data(arena, u8, 10);
+            relocation->relocation_type = /*ADDR64*/1;
+            relocation->destination_offset_in_section = (u32)patch->location_offset_in_dest_declaration;
+            
+            // @note: We need the source offset to already be applied to the data.
+            *(u64 *)(declaration->memory_location + patch->location_offset_in_dest_declaration) = patch->location_offset_in_source_declaration;
+            
+            if(patch->source->kind == IR_function || patch->source->kind == IR_declaration){
+                struct ast_declaration *source = (struct ast_declaration *)patch->source;
+                
+                u32 is_reference_to_stub = (source->flags & DECLARATION_FLAGS_need_dllimport_stub_function) != 0;
+                relocation->source_symbol_table_index = (u32)source->symbol_table_index + is_reference_to_stub;
+            }else{
+                assert(patch->source->kind == IR_string_literal);
+                struct ir_string_literal *source = (struct ir_string_literal *)patch->source;
+                
+                relocation->source_symbol_table_index = (u32)(string_symbol_base + source->symbol_table_index);
+            }
+        }
+    }
+    
     
     if(defined_functions.count){
         // .pdata reloations:
-- 
2.43.0


From 217063ca86bdfef13a462ca2696b4dd342ca247e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:30 +0000
Subject: [PATCH 35/83] fix: string searches for the terminator and last
 elements, setjmp never returns 0 from longjmp

---
 implicit/include/runtime.c | 15 ++++++++-------
 implicit/include/setjmp.c  |  3 +++
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/implicit/include/runtime.c b/implicit/include/runtime.c
index b02624f..77cafe9 100644
--- a/implicit/include/runtime.c
+++ b/implicit/include/runtime.c
@@ -182,14 +182,13 @@ char *strstr(char *haystack, char *needle){
 
 char *strchr(char *haystack, int needle){
     while(*haystack && *haystack != (char)needle) haystack++;
-    if(needle == 0) return haystack;
-    return *haystack ? haystack : 0;
+    return (*haystack == (char)needle) ? haystack : 0;
 }
 
 char *strrchr(char *haystack, int needle){
     char *end = haystack;
-    while(*end++){};
-    while(end >= haystack && *end != needle) end--;
+    while(*end) end++;
+    while(end >= haystack && *end != (char)needle) end--;
     return end >= haystack ? end : 0;
 }
 
@@ -205,7 +204,9 @@ wchar_t *wcsstr(wchar_t *haystack, wchar_t *needle){
         
         // @note: We cannot overrun string1, as the zero-terminator would cause us to break.
         while(*string2){
-            if(*string1++ != *string2++) break;
+            if(*string1 != *string2) break;
+            string1++;
+            string2++;
         }
         
         if(!*string2) return haystack;
@@ -218,12 +219,12 @@ wchar_t *wcsstr(wchar_t *haystack, wchar_t *needle){
 
 wchar_t *wcschr(wchar_t *haystack, wchar_t needle){
     while(*haystack && *haystack != needle) haystack++;
-    return *haystack ? haystack : 0;
+    return (*haystack == needle) ? haystack : 0;
 }
 
 wchar_t *wcsrchr(wchar_t *haystack, wchar_t needle){
     wchar_t *end = haystack;
-    while(*end++){};
+    while(*end) end++;
     while(end >= haystack && *end != needle) end--;
     return end >= haystack ? end : 0;
 }
diff --git a/implicit/include/setjmp.c b/implicit/include/setjmp.c
index ac66cd9..a3bb792 100644
--- a/implicit/include/setjmp.c
+++ b/implicit/include/setjmp.c
@@ -71,6 +71,9 @@ int setjmp(jmp_buf environment_buffer){
 
 _Noreturn void longjmp(jmp_buf environment_buffer, int return_value){
     
+    // The C standard requires 'setjmp' to return 1, if 'return_value' is 0.
+    if(return_value == 0) return_value = 1;
+    
     __asm__{
         mov rcx, environment_buffer
         
-- 
2.43.0


From dad50024cc15725bb128c9c2115d7615771fe54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:04 +0000
Subject: [PATCH 36/83] fix: compound assignments atomics cannot do are
 diagnosed, atomic_exchange of atomic_bool

---
 implicit/include/stdatomic.h |  4 ++--
 src/parse.c                  | 10 ++++++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/implicit/include/stdatomic.h b/implicit/include/stdatomic.h
index 0b2062f..5d23fb6 100644
--- a/implicit/include/stdatomic.h
+++ b/implicit/include/stdatomic.h
@@ -32,7 +32,7 @@
         atomic_ulong*:  1,                             \
         atomic_ullong*: 1,                             \
                                                        \
-        default: 0,                                    \
+        default: 0                                     \
 )
 
 // void atomic_init(volatile atomic_type *object, non_atomic_type desired);
@@ -51,7 +51,7 @@
 // void atomic_exchange(volatile atomic_type *object, non_atomic_type value);
 // void atomic_exchange_explicit(volatile atomic_type *object, non_atomic_type value, memory_order order);
 #define atomic_exchange(object, value) _Generic((object), \
-        atomic_char*:    __atomic_exchange_bool,          \
+        atomic_bool*:    __atomic_exchange_bool,          \
                                                           \
         atomic_char*:    __atomic_exchange_char,          \
         atomic_short*:   __atomic_exchange_short,         \
diff --git a/src/parse.c b/src/parse.c
index b778c2a..289ff1e 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -7186,6 +7186,11 @@ case NUMBER_KIND_##type:{ \
                     maybe_insert_implicit_assignment_cast_and_check_that_types_match(context, lhs->resolved_type, lhs->defined_type, rhs, stack_entry->token);
                     
                     enum ir_type ir_type = ir_type_from_type(lhs->resolved_type);
+                    if(ir_type == IR_TYPE_atomic_bool){
+                        report_error(context, stack_entry->token, "Atomic integer operation currently not supported.");
+                        return operand;
+                    }
+                    
                     // 0 - u8, 1 - u16, 2 - u32, 3 - u64, 4 - f32, 5 - f64
                     // 6 - atomic bool, 7 - atomic u8, 8 - atomic u16, 9 atomic u32, 10 - atomic u64
                     u32 type_index = ((ir_type - IR_TYPE_s8) >> 1) + (ir_type == IR_TYPE_f64);
@@ -7239,6 +7244,11 @@ case NUMBER_KIND_##type:{ \
                 }else{
                     maybe_insert_implicit_assignment_cast_and_check_that_types_match(context, lhs->resolved_type, lhs->defined_type, rhs, stack_entry->token);
                     
+                    if(lhs->resolved_type->kind == AST_atomic_integer_type){
+                        report_error(context, stack_entry->token, "Atomic integer operation currently not supported.");
+                        return operand;
+                    }
+                    
                     enum ir_type ir_type = ir_type_from_type(lhs->resolved_type);
                     enum ir_kind ir_kind = IR_modulo_assignment_s8 + (ir_type - IR_TYPE_s8);
                     
-- 
2.43.0


From 684492e26a496d73fe314b5cfbf73283c53143d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:04 +0000
Subject: [PATCH 37/83] fix: interlocked or/xor/and return the original,
 bittest indices, cmpestrc operands

---
 implicit/include/intrinsic.c | 50 +++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/implicit/include/intrinsic.c b/implicit/include/intrinsic.c
index f0c14a1..e73b0f8 100644
--- a/implicit/include/intrinsic.c
+++ b/implicit/include/intrinsic.c
@@ -45,7 +45,8 @@
 
 __declspec(inline_asm) unsigned __int8 _bittest(__int32 *to_test, __int32 bit_index){
     // stores the bit at 'bit_index' and stores it in CF
-    bt [to_test], bit_index
+    mov ecx, bit_index
+    bt [to_test], ecx
     
     setc al
     return al
@@ -53,7 +54,8 @@ __declspec(inline_asm) unsigned __int8 _bittest(__int32 *to_test, __int32 bit_in
 
 __declspec(inline_asm) unsigned __int8 _bittest64(__int64 *to_test, __int64 bit_index){
     // stores the bit at 'bit_index' and stores it in CF
-    bt [to_test], bit_index
+    mov rcx, bit_index
+    bt [to_test], rcx
     
     setc al
     return al
@@ -61,14 +63,16 @@ __declspec(inline_asm) unsigned __int8 _bittest64(__int64 *to_test, __int64 bit_
 
 
 __declspec(inline_asm) unsigned __int8 _bittestandcomplement(__int32 *to_test, __int32 bit_index){
-    btc [to_test], bit_index
+    mov ecx, bit_index
+    btc [to_test], ecx
     
     setc al
     return al
 }
 
 __declspec(inline_asm) unsigned __int8 _bittestandcomplement64(__int64 *to_test, __int64 bit_index){
-    btc [to_test], bit_index
+    mov rcx, bit_index
+    btc [to_test], rcx
     
     setc al
     return al
@@ -77,7 +81,8 @@ __declspec(inline_asm) unsigned __int8 _bittestandcomplement64(__int64 *to_test,
 
 __declspec(inline_asm) unsigned __int8 _bittestandreset(__int32 *to_test, __int32 bit_index){
     // stores the bit at 'bit_index'(< 32) and stores it in CF
-    btr [to_test], bit_index
+    mov ecx, bit_index
+    btr [to_test], ecx
     setc al
     
     return al
@@ -85,7 +90,8 @@ __declspec(inline_asm) unsigned __int8 _bittestandreset(__int32 *to_test, __int3
 
 __declspec(inline_asm) unsigned __int8 _bittestandreset64(__int64 *to_test, __int64 bit_index){
     // stores the bit at 'bit_index'(< 62) and stores it in CF
-    btr [to_test], bit_index
+    mov rcx, bit_index
+    btr [to_test], rcx
     
     setc al
     return al
@@ -94,7 +100,8 @@ __declspec(inline_asm) unsigned __int8 _bittestandreset64(__int64 *to_test, __in
 
 __declspec(inline_asm) unsigned __int8 _bittestandset(__int32 *to_test, __int32 bit_index){
     // stores the bit at 'bit_index'(< 32) and stores it in CF
-    bts [to_test], bit_index
+    mov ecx, bit_index
+    bts [to_test], ecx
     
     setc al
     return al
@@ -102,7 +109,8 @@ __declspec(inline_asm) unsigned __int8 _bittestandset(__int32 *to_test, __int32
 
 __declspec(inline_asm) unsigned __int8 _bittestandset64(__int64 *to_test, __int64 bit_index){
     // stores the bit at 'bit_index'(< 62) and stores it in CF
-    bts [to_test], bit_index
+    mov rcx, bit_index
+    bts [to_test], rcx
     
     setc al
     return al
@@ -873,7 +881,7 @@ __declspec(inline_asm) char _InterlockedOr8(char volatile *value, char mask){
     lock cmpxchg [value], cl
     jne .loop
     
-    return cl
+    return al
 }
 
 __declspec(inline_asm) short _InterlockedOr16(short volatile *value, short mask){
@@ -887,7 +895,7 @@ __declspec(inline_asm) short _InterlockedOr16(short volatile *value, short mask)
     lock cmpxchg [value], cx
     jne .loop
     
-    return cx
+    return ax
 }
 
 __declspec(inline_asm) long _InterlockedOr(long volatile *value, long mask){
@@ -901,7 +909,7 @@ __declspec(inline_asm) long _InterlockedOr(long volatile *value, long mask){
     lock cmpxchg [value], ecx
     jne .loop
     
-    return ecx
+    return eax
 }
 
 
@@ -916,7 +924,7 @@ __declspec(inline_asm) __int64 _InterlockedOr64(__int64 volatile *value, __int64
     lock cmpxchg [value], rcx
     jne .loop
     
-    return rcx
+    return rax
 }
 
 __declspec(inline_asm) char _InterlockedXor8(char volatile *value, char mask){
@@ -930,7 +938,7 @@ __declspec(inline_asm) char _InterlockedXor8(char volatile *value, char mask){
     lock cmpxchg [value], cl
     jne .loop
     
-    return cl
+    return al
 }
 
 __declspec(inline_asm) short _InterlockedXor16(short volatile *value, short mask){
@@ -944,7 +952,7 @@ __declspec(inline_asm) short _InterlockedXor16(short volatile *value, short mask
     lock cmpxchg [value], cx
     jne .loop
     
-    return cx
+    return ax
 }
 
 __declspec(inline_asm) long _InterlockedXor(long volatile *value, long mask){
@@ -958,7 +966,7 @@ __declspec(inline_asm) long _InterlockedXor(long volatile *value, long mask){
     lock cmpxchg [value], ecx
     jne .loop
     
-    return ecx
+    return eax
 }
 
 
@@ -973,7 +981,7 @@ __declspec(inline_asm) __int64 _InterlockedXor64(__int64 volatile *value, __int6
     lock cmpxchg [value], rcx
     jne .loop
     
-    return rcx
+    return rax
 }
 
 
@@ -988,7 +996,7 @@ __declspec(inline_asm) char _InterlockedAnd8(char volatile *value, char mask){
     lock cmpxchg [value], cl
     jne .loop
     
-    return cl
+    return al
 }
 
 __declspec(inline_asm) short _InterlockedAnd16(short volatile *value, short mask){
@@ -1002,7 +1010,7 @@ __declspec(inline_asm) short _InterlockedAnd16(short volatile *value, short mask
     lock cmpxchg [value], cx
     jne .loop
     
-    return cx
+    return ax
 }
 
 __declspec(inline_asm) long _InterlockedAnd(long volatile *value, long mask){
@@ -1016,7 +1024,7 @@ __declspec(inline_asm) long _InterlockedAnd(long volatile *value, long mask){
     lock cmpxchg [value], ecx
     jne .loop
     
-    return ecx
+    return eax
 }
 
 
@@ -1031,7 +1039,7 @@ __declspec(inline_asm) __int64 _InterlockedAnd64(__int64 volatile *value, __int6
     lock cmpxchg [value], rcx
     jne .loop
     
-    return rcx
+    return rax
 }
 
 
@@ -3288,7 +3296,7 @@ __declspec(inline_asm) int _mm_cmpestrc(__m128i a, int la, __m128i b, int lb, co
     // "Perform a packed comparison of string data with explicit lengths,
     //  generating an index, and storing the result in ECX."
     // "CFlag - Reset if IntRes2 is equal to zero, set otherwise."
-    pcmpestri xmm1, xmm0, imm8
+    pcmpestri xmm0, xmm1, imm8
     
     // "returns 1 if the resulting mask was non-zero, and 0 otherwise."
     mov     eax, 0
-- 
2.43.0


From f5a9486db7897e10f79c809eb760622acb2d752e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:04 +0000
Subject: [PATCH 38/83] fix: asm instructions with an immediate after a memory
 operand, ldmxcsr/stmxcsr, vblendps

---
 src/emit_inline_asm_block.c | 89 +++++++++++++++++++++++--------------
 1 file changed, 55 insertions(+), 34 deletions(-)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index 836a395..ea2482c 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -194,6 +194,12 @@ func struct emit_location *_asm_block_resolve_and_allocate_operand(struct contex
     invalid_code_path;
 }
 
+// Emits 'op [memory], imm8'. The immediate has to be known here, as it counts towards the displacement of a rip-relative operand.
+func void emit_register_relative_register_immediate8(struct context *context, struct prefixes prefixes, struct opcode opcode, u8 reg, struct emit_location *memory, smm immediate){
+    struct emit_location *immediate_location = emit_location_immediate(context, immediate, 1);
+    emit_register_relative_immediate(context, prefixes, opcode, reg, memory, immediate_location);
+}
+
 // If we reference a variable like 
 //     movzx a, byte ptr [rax]
 // we tempoary allocate a register for 'a' (or complain if we can't) and then in the end
@@ -323,7 +329,6 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 [MEMONIC_pshufb]  = ASM_PREFIX_66,
                 
                 [MEMONIC_vshufps]  = ASM_PREFIX_VEX | ASM_PREFIX_SSE_packed_float,
-                [MEMONIC_vblendps] = ASM_PREFIX_VEX | ASM_PREFIX_SSE_packed_float,
                 [MEMONIC_vmulps]   = ASM_PREFIX_VEX | ASM_PREFIX_SSE_packed_float,
                 [MEMONIC_vaddps]   = ASM_PREFIX_VEX | ASM_PREFIX_SSE_packed_float,
                 [MEMONIC_vsubps]   = ASM_PREFIX_VEX | ASM_PREFIX_SSE_packed_float,
@@ -332,6 +337,7 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 [MEMONIC_vpshufb]     = 0x38,
                 [MEMONIC_vperm2f128]  = 0x3a,
                 [MEMONIC_vinsertf128] = 0x3a,
+                [MEMONIC_vblendps]    = 0x3a,
                 
                 [MEMONIC_vptest]  = ASM_PREFIX_VEX | ASM_PREFIX_66,
                 [MEMONIC_vpminub] = ASM_PREFIX_VEX | ASM_PREFIX_66,
@@ -482,11 +488,10 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 [MEMONIC_vpcmpeqb]    = 0x74,
                 [MEMONIC_vshufps]     = 0xc6,
                 
-                [MEMONIC_vblendps]    = 0x3A,
-                
                 [MEMONIC_vpshufb]     = 0x00,
                 [MEMONIC_vperm2f128]  = 0x06,
                 [MEMONIC_vinsertf128] = 0x18,
+                [MEMONIC_vblendps]    = 0x0C,
                 
                 
                 [MEMONIC_pcmpistri] = 0x63,
@@ -638,6 +643,13 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 emit_register_relative_extended(context, no_prefix(), two_byte_opcode(0xae), 7, operand);
             }break;
             
+            // 0F AE /2 LDMXCSR m32
+            // 0F AE /3 STMXCSR m32
+            case MEMONIC_ldmxcsr: case MEMONIC_stmxcsr:{
+                assert(operand->state == EMIT_LOCATION_register_relative);
+                emit_register_relative_extended(context, no_prefix(), two_byte_opcode(0xae), (inst->memonic == MEMONIC_ldmxcsr) ? 2 : 3, operand);
+            }break;
+            
             case MEMONIC_rdtsc:{
                 asm_block_load_registers_which_was_used_by_user(context, REGISTER_KIND_gpr, REGISTER_A, 8);
                 asm_block_load_registers_which_was_used_by_user(context, REGISTER_KIND_gpr, REGISTER_D, 8);
@@ -863,9 +875,10 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 if(rhs->state == EMIT_LOCATION_immediate){
                     if(lhs->state == EMIT_LOCATION_loaded){
                         emit_reg_extended_op(context, no_prefix(), two_byte_opcode(0xBA), REG_OPCODE, lhs);
+                        emit(rhs->value);
                     }else{
                         assert(lhs->state == EMIT_LOCATION_register_relative);
-                        emit_register_relative_extended(context, no_prefix(), two_byte_opcode(0xBA), REG_OPCODE, lhs);
+                        emit_register_relative_register_immediate8(context, no_prefix(), two_byte_opcode(0xBA), REG_OPCODE, lhs, rhs->value);
                     }
                 }else{
                     struct emit_location *loaded = emit_load_gpr(context, rhs);
@@ -907,18 +920,18 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 struct prefixes prefix = create_prefixes(memonic_to_prefix[inst->memonic]);
                 struct opcode opcode = two_byte_opcode(0xc2);
                 
+                smm immediate = (inst->memonic - MEMONIC_cmpeqps) & 7;
+                if(operands[2]){
+                    assert(operands[2]->state == EMIT_LOCATION_immediate);
+                    immediate = operands[2]->value;
+                }
+                
                 if(rhs->state == EMIT_LOCATION_loaded){
                     emit_register_register(context, prefix, opcode, loaded, rhs);
+                    emit((u8)immediate);
                 }else{
                     assert(rhs->state == EMIT_LOCATION_register_relative);
-                    emit_register_relative_register(context, prefix, opcode, loaded->loaded_register, rhs);
-                }
-                
-                if(operands[2]){
-                    assert(operands[2]->state == EMIT_LOCATION_immediate);
-                    emit((u8)operands[2]->value);
-                }else{
-                    emit((inst->memonic - MEMONIC_cmpeqps) & 7);
+                    emit_register_relative_register_immediate8(context, prefix, opcode, loaded->loaded_register, rhs, immediate);
                 }
                 
                 if(loaded != lhs) emit_store(context, lhs, loaded);
@@ -1105,13 +1118,12 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 struct opcode opcode = two_byte_opcode(memonic_to_opcode[inst->memonic]);
                 
                 if(rhs->state == EMIT_LOCATION_register_relative){
-                    emit_register_relative_register(context, prefix, opcode, loaded->loaded_register, rhs);
+                    emit_register_relative_register_immediate8(context, prefix, opcode, loaded->loaded_register, rhs, operands[2]->value);
                 }else{
                     assert(rhs->state == EMIT_LOCATION_loaded);
                     emit_register_register(context, prefix, opcode, loaded, rhs);
+                    emit(operands[2]->value);
                 }
-                assert(operands[2]->state == EMIT_LOCATION_immediate);
-                emit(operands[2]->value);
                 
                 if(loaded != lhs) emit_store(context, lhs, loaded);
             }break;
@@ -1126,13 +1138,12 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 struct opcode   opcode = three_byte_opcode(0x3a, memonic_to_opcode[inst->memonic]);
                 
                 if(rhs->state == EMIT_LOCATION_register_relative){
-                    emit_register_relative_register(context, prefix, opcode, loaded->loaded_register, rhs);
+                    emit_register_relative_register_immediate8(context, prefix, opcode, loaded->loaded_register, rhs, operands[2]->value);
                 }else{
                     assert(rhs->state == EMIT_LOCATION_loaded);
                     emit_register_register(context, prefix, opcode, loaded, rhs);
+                    emit(operands[2]->value);
                 }
-                assert(operands[2]->state == EMIT_LOCATION_immediate);
-                emit(operands[2]->value);
                 
                 if(loaded != lhs) emit_store(context, lhs, loaded);
             }break;
@@ -1213,12 +1224,12 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 struct opcode   opcode = three_byte_opcode(0x3A, memonic_to_opcode[inst->memonic]);
                 
                 if(lhs->state == EMIT_LOCATION_register_relative){
-                    emit_register_relative_register(context, prefix, opcode, loaded->loaded_register, lhs);
+                    emit_register_relative_register_immediate8(context, prefix, opcode, loaded->loaded_register, lhs, operands[2]->value);
                 }else{
                     assert(lhs->state == EMIT_LOCATION_loaded);
                     emit_register_op__internal(context, prefix, opcode, loaded->loaded_register, lhs->loaded_register, lhs->size);
+                    emit(operands[2]->value);
                 }
-                emit(operands[2]->value);
                 
                 if(rhs != loaded) free_emit_location(context, loaded);
             }break;
@@ -1233,12 +1244,12 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 }
                 
                 if(rhs->state == EMIT_LOCATION_register_relative){
-                    emit_register_relative_register(context, prefix, opcode, loaded->loaded_register, rhs);
+                    emit_register_relative_register_immediate8(context, prefix, opcode, loaded->loaded_register, rhs, operands[2]->value);
                 }else{
                     assert(rhs->state == EMIT_LOCATION_loaded);
                     emit_register_op__internal(context, prefix, opcode, loaded->loaded_register, rhs->loaded_register, rhs->size);
+                    emit(operands[2]->value);
                 }
-                emit(operands[2]->value);
                 
                 if(loaded != lhs) emit_store(context, lhs, loaded);
             }break;
@@ -1291,7 +1302,7 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
             // 'op ymm1, ymm2, ymm3/m256, imm8' or 'op xmm1, xmm2, xmm3/m128, imm8'
             // 'op ymm1, ymm2, ymm3/m256'       or 'op xmm1, xmm2, xmm3/m128'
             case MEMONIC_vpsraq:
-            case MEMONIC_vshufps: case MEMONIC_vblendps:
+            case MEMONIC_vshufps:
             case MEMONIC_vpminub: case MEMONIC_vpxor: case MEMONIC_vpcmpeqb:
             case MEMONIC_vmulps: case MEMONIC_vaddps: case MEMONIC_vsubps:{
                 struct prefixes prefix = create_prefixes(memonic_to_prefix[inst->memonic]);
@@ -1306,20 +1317,25 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 prefix.vex_register = vex->loaded_register;
                 
                 if(operands[2]->state == EMIT_LOCATION_register_relative){
-                    emit_register_relative_register(context, prefix, opcode, first->loaded_register, operands[2]);
+                    if(operands[3]){
+                        assert(operands[3]->state == EMIT_LOCATION_immediate);
+                        emit_register_relative_register_immediate8(context, prefix, opcode, first->loaded_register, operands[2], operands[3]->value);
+                    }else{
+                        emit_register_relative_register(context, prefix, opcode, first->loaded_register, operands[2]);
+                    }
                 }else{
                     emit_register_op__internal(context, prefix, opcode, first->loaded_register, operands[2]->loaded_register, operands[0]->size);
-                }
-                if(operands[3]){
-                    assert(operands[3]->state == EMIT_LOCATION_immediate);
-                    emit(operands[3]->value);
+                    if(operands[3]){
+                        assert(operands[3]->state == EMIT_LOCATION_immediate);
+                        emit(operands[3]->value);
+                    }
                 }
                 
                 if(vex   != operands[1]) free_emit_location(context, vex);
                 if(first != operands[0]) emit_store(context, operands[0], first);
             }break;
             
-            case MEMONIC_vperm2f128: case MEMONIC_vinsertf128:
+            case MEMONIC_vperm2f128: case MEMONIC_vinsertf128: case MEMONIC_vblendps:
             case MEMONIC_vpshufb:{
                 // @hack: store the middle byte of the opcode in the prefix
                 struct prefixes prefix = create_prefixes(ASM_PREFIX_VEX | ASM_PREFIX_P_BIG);
@@ -1332,13 +1348,18 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 prefix.vex_register = vex->loaded_register;
                 
                 if(operands[2]->state == EMIT_LOCATION_register_relative){
-                    emit_register_relative_register(context, prefix, opcode, first->loaded_register, operands[2]);
+                    if(operands[3]){
+                        assert(operands[3]->state == EMIT_LOCATION_immediate);
+                        emit_register_relative_register_immediate8(context, prefix, opcode, first->loaded_register, operands[2], operands[3]->value);
+                    }else{
+                        emit_register_relative_register(context, prefix, opcode, first->loaded_register, operands[2]);
+                    }
                 }else{
                     emit_register_op__internal(context, prefix, opcode, first->loaded_register, operands[2]->loaded_register, operands[0]->size);
-                }
-                if(operands[3]){
-                    assert(operands[3]->state == EMIT_LOCATION_immediate);
-                    emit(operands[3]->value);
+                    if(operands[3]){
+                        assert(operands[3]->state == EMIT_LOCATION_immediate);
+                        emit(operands[3]->value);
+                    }
                 }
                 
                 if(vex   != operands[1]) free_emit_location(context, vex);
-- 
2.43.0


From d04c6cbe9a54740c5ed4d9d3384db8a416c2a0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:58 +0000
Subject: [PATCH 39/83] fix: intrinsics: interlocked decrement, NaN
 comparisons, cmpxchg16b and cpuid preserve rbx, load/store pd1 and loadr_pd

---
 implicit/include/intrinsic.c | 159 ++++++++++++++++++++++-------------
 1 file changed, 102 insertions(+), 57 deletions(-)

diff --git a/implicit/include/intrinsic.c b/implicit/include/intrinsic.c
index e73b0f8..1f2bc02 100644
--- a/implicit/include/intrinsic.c
+++ b/implicit/include/intrinsic.c
@@ -249,34 +249,34 @@ __declspec(inline_asm) __int64 _InterlockedIncrement64(__int64 *to_increment){
 
 
 __declspec(inline_asm) __int8 _InterlockedDecrement8(__int8 *to_increment){
-    // We need to return the incremented value, thus we have to use an xadd
-    // to fetch the memory and cannot use a 'lock inc'.
+    // We need to return the decremented value, thus we have to use an xadd
+    // to fetch the memory and cannot use a 'lock dec'.
     
     // load the one we xadd.
     mov edx, -1
     
-    // add the one, the preincremented value will be in dl
+    // add the one, the predecremented value will be in dl
     lock xadd [to_increment], dl
     
-    // increment dl such that we have the 'incremented_value'
-    inc dl
+    // decrement dl such that we have the 'decremented_value'
+    dec dl
     
     // save the value
     return dl
 }
 
 __declspec(inline_asm) __int16 _InterlockedDecrement16(__int16 *to_increment){
-    // We need to return the incremented value, thus we have to use an xadd
-    // to fetch the memory and cannot use a 'lock inc'.
+    // We need to return the decremented value, thus we have to use an xadd
+    // to fetch the memory and cannot use a 'lock dec'.
     
     // load the one we xadd.
     mov edx, -1
     
-    // add the one, the preincremented value will be in dx
+    // add the one, the predecremented value will be in dx
     lock xadd [to_increment], dx
     
-    // increment dl such that we have the 'incremented_value'
-    inc dx
+    // decrement dl such that we have the 'decremented_value'
+    dec dx
     
     // save the value
     return dx
@@ -284,17 +284,17 @@ __declspec(inline_asm) __int16 _InterlockedDecrement16(__int16 *to_increment){
 
 
 __declspec(inline_asm) __int32 _InterlockedDecrement(__int32 *to_increment){
-    // We need to return the incremented value, thus we have to use an xadd
-    // to fetch the memory and cannot use a 'lock inc'.
+    // We need to return the decremented value, thus we have to use an xadd
+    // to fetch the memory and cannot use a 'lock dec'.
     
     // load the one we xadd.
     mov edx, -1
     
-    // add the one, the preincremented value will be in edx
+    // add the one, the predecremented value will be in edx
     lock xadd [to_increment], edx
     
-    // increment dl such that we have the 'incremented_value'
-    inc edx
+    // decrement dl such that we have the 'decremented_value'
+    dec edx
     
     // save the value
     return edx
@@ -302,17 +302,17 @@ __declspec(inline_asm) __int32 _InterlockedDecrement(__int32 *to_increment){
 
 
 __declspec(inline_asm) __int64 _InterlockedDecrement64(__int64 *to_increment){
-    // We need to return the incremented value, thus we have to use an xadd
-    // to fetch the memory and cannot use a 'lock inc'.
+    // We need to return the decremented value, thus we have to use an xadd
+    // to fetch the memory and cannot use a 'lock dec'.
     
     // load the one we xadd.
     mov rdx, -1
     
-    // add the one, the preincremented value will be in rdx
+    // add the one, the predecremented value will be in rdx
     lock xadd [to_increment], rdx
     
-    // increment dl such that we have the 'incremented_value'
-    inc rdx
+    // decrement dl such that we have the 'decremented_value'
+    dec rdx
     
     // save the value
     return rdx
@@ -378,6 +378,9 @@ __declspec(inline_asm) unsigned __int8 _InterlockedCompareExchange128(__int64 *d
     mov rdx, [r9 + 8]
     mov rax, [r9 + 0]
     
+    // rbx is a non-volatile register.
+    mov r10, rbx
+    
     // on success cmpxchg16b places the value in rcx:rbx into the memory operand
     mov rcx, exchange_high
     mov rbx, exchange_low
@@ -387,6 +390,8 @@ __declspec(inline_asm) unsigned __int8 _InterlockedCompareExchange128(__int64 *d
     mov r8, destination
     lock cmpxchg16b [r8]
     
+    mov rbx, r10
+    
     // ZF is set iff the operation succeeded
     setz cl
     
@@ -642,6 +647,7 @@ __declspec(inline_asm) void __cpuidex(int cpuInfo[4], int function_id, int subfu
 
 __declspec(inline_asm) void __cpuid(int cpuInfo[4], int function_id){
     mov eax, function_id
+    mov r9, rbx // 'rbx' is non-volatile
     cpuid
     
     mov r8, cpuInfo
@@ -649,12 +655,15 @@ __declspec(inline_asm) void __cpuid(int cpuInfo[4], int function_id){
     mov [r8 +  4], ebx
     mov [r8 +  8], ecx
     mov [r8 + 12], edx
+    
+    mov rbx, r9
 }
 
 
 __declspec(inline_asm) void __cpuidex(int cpuInfo[4], int function_id, int subfunction_id){
     mov eax, function_id
     mov ecx, subfunction_id
+    mov r9, rbx // 'rbx' is non-volatile
     cpuid
     
     mov r8, cpuInfo
@@ -662,6 +671,8 @@ __declspec(inline_asm) void __cpuidex(int cpuInfo[4], int function_id, int subfu
     mov [r8 +  4], ebx
     mov [r8 +  8], ecx
     mov [r8 + 12], edx
+    
+    mov rbx, r9
 }
 #endif
 
@@ -1342,22 +1353,30 @@ __declspec(inline_asm) __m128 _mm_cmpeq_ss(__m128 a, __m128 b){
 
 
 __declspec(inline_asm) __m128 _mm_cmpge_ps(__m128 a, __m128 b){
-    cmpgeps a, b
-    return a
+    movaps xmm0, b
+    cmpleps xmm0, a
+    return xmm0
 }
 __declspec(inline_asm) __m128 _mm_cmpge_ss(__m128 a, __m128 b){
-    cmpgess a, b
-    return a
+    movaps xmm1, b
+    cmpless xmm1, a
+    movaps xmm0, a
+    movss xmm0, xmm1
+    return xmm0
 }
 
 
 __declspec(inline_asm) __m128 _mm_cmpgt_ps(__m128 a, __m128 b){
-    cmpgtps a, b
-    return a
+    movaps xmm0, b
+    cmpltps xmm0, a
+    return xmm0
 }
 __declspec(inline_asm) __m128 _mm_cmpgt_ss(__m128 a, __m128 b){
-    cmpgtss a, b
-    return a
+    movaps xmm1, b
+    cmpltss xmm1, a
+    movaps xmm0, a
+    movss xmm0, xmm1
+    return xmm0
 }
 
 
@@ -1392,22 +1411,30 @@ __declspec(inline_asm) __m128 _mm_cmpneq_ss(__m128 a, __m128 b){
 
 
 __declspec(inline_asm) __m128 _mm_cmpnge_ps(__m128 a, __m128 b){
-    cmpngeps a, b
-    return a
+    movaps xmm0, b
+    cmpnleps xmm0, a
+    return xmm0
 }
 __declspec(inline_asm) __m128 _mm_cmpnge_ss(__m128 a, __m128 b){
-    cmpngess a, b
-    return a
+    movaps xmm1, b
+    cmpnless xmm1, a
+    movaps xmm0, a
+    movss xmm0, xmm1
+    return xmm0
 }
 
 
 __declspec(inline_asm) __m128 _mm_cmpngt_ps(__m128 a, __m128 b){
-    cmpngtps a, b
-    return a
+    movaps xmm0, b
+    cmpnltps xmm0, a
+    return xmm0
 }
 __declspec(inline_asm) __m128 _mm_cmpngt_ss(__m128 a, __m128 b){
-    cmpngtss a, b
-    return a
+    movaps xmm1, b
+    cmpnltss xmm1, a
+    movaps xmm0, a
+    movss xmm0, xmm1
+    return xmm0
 }
 
 
@@ -1799,7 +1826,7 @@ __declspec(inline_asm) __m128 _mm_sub_ss(__m128 a, __m128 b){
 __declspec(inline_asm) int _mm_ucomieq_ss(__m128 a, __m128 b){
     cmpeqss a, b
     
-    movd eax, xmm0
+    movd eax, a
     and  eax, 1
     return eax
 }
@@ -1818,7 +1845,7 @@ __declspec(inline_asm) int _mm_ucomigt_ss(__m128 a, __m128 b){
     
     return eax
 }
-__declspec(inline_asm) int _mm_ucomile_ss(__m128 b, __m128 a){
+__declspec(inline_asm) int _mm_ucomile_ss(__m128 a, __m128 b){
     ucomiss b, a
     
     setae al
@@ -1838,7 +1865,7 @@ __declspec(inline_asm) int _mm_ucomilt_ss(__m128 a, __m128 b){
 __declspec(inline_asm) int _mm_ucomineq_ss(__m128 a, __m128 b){
     cmpneqss a, b
     
-    movd eax, xmm0
+    movd eax, a
     and eax, 1
     return eax
 }
@@ -2011,13 +2038,17 @@ __declspec(inline_asm) __m128d _mm_cmpeq_sd(__m128d a, __m128d b){
 }
 
 __declspec(inline_asm) __m128d _mm_cmpge_pd(__m128d a, __m128d b){
-    cmpgepd a, b
-    return a
+    movaps xmm0, b
+    cmplepd xmm0, a
+    return xmm0
 }
 
 __declspec(inline_asm) __m128d _mm_cmpge_sd(__m128d a, __m128d b){
-    cmpgesd a, b
-    return a
+    movaps xmm1, b
+    cmplesd xmm1, a
+    movaps xmm0, a
+    movsd xmm0, xmm1
+    return xmm0
 }
 
 
@@ -2037,13 +2068,17 @@ __declspec(inline_asm) __m128i _mm_cmpgt_epi32(__m128i a, __m128i b){
 }
 
 __declspec(inline_asm) __m128d _mm_cmpgt_pd(__m128d a, __m128d b){
-    cmpgtpd a, b
-    return a
+    movaps xmm0, b
+    cmpltpd xmm0, a
+    return xmm0
 }
 
 __declspec(inline_asm) __m128d _mm_cmpgt_sd(__m128d a, __m128d b){
-    cmpgtsd a, b
-    return a
+    movaps xmm1, b
+    cmpltsd xmm1, a
+    movaps xmm0, a
+    movsd xmm0, xmm1
+    return xmm0
 }
 
 __declspec(inline_asm) __m128d _mm_cmple_pd(__m128d a, __m128d b){
@@ -2092,24 +2127,32 @@ __declspec(inline_asm) __m128d _mm_cmpneq_sd(__m128d a, __m128d b){
 }
 
 __declspec(inline_asm) __m128d _mm_cmpnge_pd(__m128d a, __m128d b){
-    cmpngepd a, b
-    return a
+    movaps xmm0, b
+    cmpnlepd xmm0, a
+    return xmm0
 }
 
 
 __declspec(inline_asm) __m128d _mm_cmpnge_sd(__m128d a, __m128d b){
-    cmpngesd a, b
-    return a
+    movaps xmm1, b
+    cmpnlesd xmm1, a
+    movaps xmm0, a
+    movsd xmm0, xmm1
+    return xmm0
 }
 
 __declspec(inline_asm) __m128d _mm_cmpngt_pd(__m128d a, __m128d b){
-    cmpngtpd a, b
-    return a
+    movaps xmm0, b
+    cmpnltpd xmm0, a
+    return xmm0
 }
 
 __declspec(inline_asm) __m128d _mm_cmpngt_sd(__m128d a, __m128d b){
-    cmpngtsd a, b
-    return a
+    movaps xmm1, b
+    cmpnltsd xmm1, a
+    movaps xmm0, a
+    movsd xmm0, xmm1
+    return xmm0
 }
 
 __declspec(inline_asm) __m128d _mm_cmpnle_pd(__m128d a, __m128d b){
@@ -2369,6 +2412,7 @@ __declspec(inline_asm) __m128d _mm_load_pd(double const* mem_addr){
 
 __declspec(inline_asm) __m128d _mm_load_pd1(double const* mem_addr){
     movsd xmm0, qword ptr [mem_addr]
+    shufpd xmm0, xmm0, 0
     return xmm0
 }
 
@@ -2416,7 +2460,8 @@ __declspec(inline_asm) __m128 _mm_loadl_pi(__m128 a, __m64 const* mem_addr){
 }
 
 __declspec(inline_asm) __m128d _mm_loadr_pd(double const* mem_addr){
-    shufpd xmm0, xmmword ptr [mem_addr], 1
+    movupd xmm0, xmmword ptr [mem_addr]
+    shufpd xmm0, xmm0, 1
     return xmm0
 }
 
@@ -2934,7 +2979,7 @@ __declspec(inline_asm) void _mm_store_pd(double *mem_addr, __m128d a){
 
 
 __declspec(inline_asm) void _mm_store_pd1(double* mem_addr, __m128d a){
-    shufps a, a, 0
+    shufpd a, a, 0
     movups xmmword ptr[mem_addr], a
 }
 
-- 
2.43.0


From cdec46068542801eb825d7a78750ed3e0961d290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:58 +0000
Subject: [PATCH 40/83] fix: inline assembler: memory operands, byte registers,
 segment prefixes and immediates are encoded as written

---
 src/emit_inline_asm_block.c | 87 +++++++++++++++++++++++++++++++------
 src/emit_x64.c              | 47 ++++++++++++++++----
 src/parse_asm_block.c       | 70 ++++++++++++++++++-----------
 3 files changed, 157 insertions(+), 47 deletions(-)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index ea2482c..fdc48ac 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -67,7 +67,11 @@ func struct emit_location *asm_block_load_registers_which_was_used_by_user(struc
     
     loc = emit_location_loaded(context, register_kind, reg, size);
     loc->inline_asm__was_used_by_user = true;
-    return loc;
+    
+    // Also return a copy here, another operand of this instruction might reference the same register with a different size.
+    struct emit_location *ret = push_struct(&context->scratch, struct emit_location);
+    *ret = *loc;
+    return ret;
 }
 
 // @cleanup: if we keep this function, eventually remove the '_' currently here to clean old usages!
@@ -148,6 +152,7 @@ func struct emit_location *_asm_block_resolve_and_allocate_operand(struct contex
                 smm bytes_emitted_for_assert = get_bytes_emitted(context);
                 ret = get_emit_location_for_declaration(context, decl);
                 ret->offset += operand->declaration_offset;
+                ret->size = (operand->kind == ASM_ARG_declaration_dereference) ? 8 : operand->size; // This might be a member of the declaration.
                 assert(bytes_emitted_for_assert == get_bytes_emitted(context));
                 assert(ret->state == EMIT_LOCATION_register_relative);
             }
@@ -170,6 +175,7 @@ func struct emit_location *_asm_block_resolve_and_allocate_operand(struct contex
             }
             
             struct emit_location *ret = emit_location_register_relative(context, base, index, operand->offset, operand->size);
+            ret->address_prefixes = instruction->prefixes & (ASM_PREFIX_gs | ASM_PREFIX_67);
             
             switch(operand->scale){
                 case 1: ret->log_index_scale = 0; break;
@@ -273,7 +279,7 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 [MEMONIC_divss] = ASM_PREFIX_SSE_float, [MEMONIC_divsd] = ASM_PREFIX_SSE_double, [MEMONIC_divps] = ASM_PREFIX_SSE_packed_float, [MEMONIC_divpd] = ASM_PREFIX_SSE_packed_double,
                 [MEMONIC_mulss] = ASM_PREFIX_SSE_float, [MEMONIC_mulsd] = ASM_PREFIX_SSE_double, [MEMONIC_mulps] = ASM_PREFIX_SSE_packed_float, [MEMONIC_mulpd] = ASM_PREFIX_SSE_packed_double,
                 
-                [MEMONIC_haddps] = ASM_PREFIX_SSE_packed_float, [MEMONIC_haddpd] = ASM_PREFIX_SSE_packed_double,
+                [MEMONIC_haddps] = ASM_PREFIX_F2, [MEMONIC_haddpd] = ASM_PREFIX_66,
                 
                 [MEMONIC_movmskps] = ASM_PREFIX_SSE_packed_float, [MEMONIC_movmskpd] = ASM_PREFIX_SSE_packed_double,
                 
@@ -539,6 +545,7 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                         u8 rex = 0;
                         if(lhs->size == 8) rex |= REXW;
                         if(register_is_extended(lhs->loaded_register)) rex |= REXB;
+                        if(lhs->size == 1 && lhs->loaded_register >= REGISTER_SP) rex |= REX; // 'spl', 'bpl', 'sil' and 'dil' need a prefix.
                         if(rex) emit(rex); // this decides wheter 32 or 64 bits in this case
                         
                         emit(x64_opcode + (lhs->loaded_register & 7));
@@ -554,7 +561,13 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 }else{
                     assert(lhs->state == EMIT_LOCATION_register_relative);
                     if(rhs->state == EMIT_LOCATION_immediate) rhs->size = lhs->size; // @clenaup: This was not true. I dunno, this whole stuff should be redone.
-                    emit_store(context, lhs, rhs);
+                    
+                    if(rhs->state == EMIT_LOCATION_immediate && lhs->size == 8 && (s64)rhs->value == (s32)rhs->value){
+                        // 'mov qword ptr [memory], imm32', loading the immediate might change the flags.
+                        emit_register_relative_immediate(context, no_prefix(), one_byte_opcode(MOVE_REGM_IMMEDIATE), 0, lhs, emit_location_immediate(context, rhs->value, 4));
+                    }else{
+                        emit_store(context, lhs, rhs);
+                    }
                 }
             }break;
             
@@ -565,10 +578,14 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 
                 u8 base_opcode = (inst->memonic == MEMONIC_movsx) ? MOVE_WITH_SIGN_EXTENSION_REG_REGM8 : MOVE_WITH_ZERO_EXTENSION_REG_REGM8;
                 struct opcode opcode = (rhs->size == 1) ? two_byte_opcode(base_opcode) : two_byte_opcode(base_opcode + 1);
+                
+                struct prefixes prefix = no_prefix();
+                if(rhs->state == EMIT_LOCATION_loaded && rhs->size == 1) prefix = prefixes_for_byte_register(prefix, rhs->loaded_register);
+                
                 rhs->size = loaded->size;
                 
                 if(rhs->state == EMIT_LOCATION_loaded){
-                    emit_register_register(context, no_prefix(), opcode, loaded, rhs);
+                    emit_register_register(context, prefix, opcode, loaded, rhs);
                 }else{
                     emit_register_relative_register(context, no_prefix(), opcode, loaded->loaded_register, rhs);
                 }
@@ -603,7 +620,33 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 u8 OP_REG8_REGM8 = opcode_base + 2;
                 u8 OP_REG_REGM   = opcode_base + 3;
                 
-                if(lhs->state == EMIT_LOCATION_register_relative){
+                s64 immediate = 0;
+                if(rhs->state == EMIT_LOCATION_immediate){
+                    immediate = (lhs->size == 1) ? (s8)rhs->value : (lhs->size == 2) ? (s16)rhs->value : (lhs->size == 4) ? (s32)rhs->value : rhs->value;
+                    rhs->size = lhs->size;
+                }
+                
+                if(rhs->state == EMIT_LOCATION_immediate && immediate == (s32)immediate){
+                    //
+                    // @note: We cannot load the immediate, as for example 'xor eax, eax' changes the flags and
+                    //        the asm block might use any register we could load it into.
+                    //
+                    smm immediate_size = (lhs->size == 8) ? 4 : lhs->size;
+                    u8 opcode = REG_EXTENDED_OPCODE_REGM_IMMIDIATE;
+                    if(lhs->size == 1){
+                        opcode = REG_EXTENDED_OPCODE_REGM8_IMMIDIATE8;
+                    }else if(immediate == (s8)immediate){
+                        opcode = REG_EXTENDED_OPCODE_REGM_SIGN_EXTENDED_IMMIDIATE8;
+                        immediate_size = 1;
+                    }
+                    
+                    if(lhs->state == EMIT_LOCATION_register_relative){
+                        emit_register_relative_immediate(context, user_prefixes, one_byte_opcode(opcode), REG_OPCODE, lhs, emit_location_immediate(context, immediate, immediate_size));
+                    }else{
+                        emit_reg_extended_op(context, user_prefixes, one_byte_opcode(opcode), REG_OPCODE, lhs);
+                        emit_bytes(context, immediate_size, immediate);
+                    }
+                }else if(lhs->state == EMIT_LOCATION_register_relative){
                     struct emit_location *loaded = emit_load_gpr(context, rhs);
                     
                     loaded->prevent_freeing += 1;
@@ -621,6 +664,7 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
             case MEMONIC_shl: case MEMONIC_shr:
             case MEMONIC_sal: case MEMONIC_sar:{
                 u8 REG_OPCODE = (u8)(inst->memonic - MEMONIC_rol);
+                if(inst->memonic == MEMONIC_sal) REG_OPCODE = (u8)(MEMONIC_shl - MEMONIC_rol); // 'sal' and 'shl' are the same instruction.
                 b32 compound = lhs->state == EMIT_LOCATION_register_relative;
                 emit_shift_or_rotate__internal(context, user_prefixes, lhs, rhs, REG_OPCODE, compound);
             }break;
@@ -874,19 +918,19 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 
                 if(rhs->state == EMIT_LOCATION_immediate){
                     if(lhs->state == EMIT_LOCATION_loaded){
-                        emit_reg_extended_op(context, no_prefix(), two_byte_opcode(0xBA), REG_OPCODE, lhs);
+                        emit_reg_extended_op(context, user_prefixes, two_byte_opcode(0xBA), REG_OPCODE, lhs);
                         emit(rhs->value);
                     }else{
                         assert(lhs->state == EMIT_LOCATION_register_relative);
-                        emit_register_relative_register_immediate8(context, no_prefix(), two_byte_opcode(0xBA), REG_OPCODE, lhs, rhs->value);
+                        emit_register_relative_register_immediate8(context, user_prefixes, two_byte_opcode(0xBA), REG_OPCODE, lhs, rhs->value);
                     }
                 }else{
                     struct emit_location *loaded = emit_load_gpr(context, rhs);
                     if(lhs->state == EMIT_LOCATION_loaded){
-                        emit_register_register(context, no_prefix(), two_byte_opcode(opcode), /*reg*/loaded, /*regm*/lhs);
+                        emit_register_register(context, user_prefixes, two_byte_opcode(opcode), /*reg*/loaded, /*regm*/lhs);
                     }else{
                         assert(lhs->state == EMIT_LOCATION_register_relative);
-                        emit_register_relative_register(context, no_prefix(), two_byte_opcode(opcode), /*reg*/loaded->loaded_register, /*regm*/lhs);
+                        emit_register_relative_register(context, user_prefixes, two_byte_opcode(opcode), /*reg*/loaded->loaded_register, /*regm*/lhs);
                     }
                     if(loaded != rhs) free_emit_location(context, loaded);
                 }
@@ -1206,7 +1250,7 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
             
             case MEMONIC_movnti:{
                 assert(lhs->state == EMIT_LOCATION_register_relative);
-                struct emit_location *loaded = emit_load_float(context, rhs);
+                struct emit_location *loaded = emit_load_gpr(context, rhs);
                 emit_register_relative_register(context, no_prefix(), two_byte_opcode(0xc3), loaded->loaded_register, lhs);
                 if(loaded != rhs) free_emit_location(context, loaded);
             }break;
@@ -1279,7 +1323,7 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                     if(rhs->state == EMIT_LOCATION_register_relative){
                         emit_register_relative_register(context, prefix, two_byte_opcode(0x6E), loaded->loaded_register, rhs);
                     }else{
-                        emit_register_op__internal(context, prefix, two_byte_opcode(0x6E), loaded->loaded_register, rhs->loaded_register, lhs->size);
+                        emit_register_op__internal(context, prefix, two_byte_opcode(0x6E), loaded->loaded_register, rhs->loaded_register, rhs->size);
                     }
                     
                     if(loaded != lhs) emit_store(context, lhs, loaded);
@@ -1348,12 +1392,18 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 prefix.vex_register = vex->loaded_register;
                 
                 if(operands[2]->state == EMIT_LOCATION_register_relative){
+                    // The memory operand of 'vinsertf128 ymm1, ymm2, xmm3/m128, imm8' is smaller then the operand size of the instruction.
+                    smm memory_size = operands[2]->size;
+                    operands[2]->size = operands[0]->size;
+                    
                     if(operands[3]){
                         assert(operands[3]->state == EMIT_LOCATION_immediate);
                         emit_register_relative_register_immediate8(context, prefix, opcode, first->loaded_register, operands[2], operands[3]->value);
                     }else{
                         emit_register_relative_register(context, prefix, opcode, first->loaded_register, operands[2]);
                     }
+                    
+                    operands[2]->size = memory_size;
                 }else{
                     emit_register_op__internal(context, prefix, opcode, first->loaded_register, operands[2]->loaded_register, operands[0]->size);
                     if(operands[3]){
@@ -1372,7 +1422,7 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 assert(lhs->state == EMIT_LOCATION_loaded);
                 
                 if(rhs->state == EMIT_LOCATION_register_relative){
-                    emit_register_relative_register(context, create_prefixes(ASM_PREFIX_F3), two_byte_opcode(0x10), lhs->loaded_register, rhs);
+                    emit_register_relative_register(context, create_prefixes(ASM_PREFIX_F3 | ASM_PREFIX_VEX), two_byte_opcode(0x10), lhs->loaded_register, rhs);
                 }else{
                     assert(rhs->state == EMIT_LOCATION_loaded);
                     emit_register_op__internal(context, create_prefixes(ASM_PREFIX_F3), two_byte_opcode(0x10), lhs->loaded_register, rhs->loaded_register, rhs->size);
@@ -1400,12 +1450,21 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
             }break;
             
             case MEMONIC_crc32:{
+                // F2       0F 38 F0 crc32 r32, r/m8
+                // F2 REX.W 0F 38 F0 crc32 r64, r/m8
+                // F2       0F 38 F1 crc32 r32, r/m16 or crc32 r32, r/m32
+                // F2 REX.W 0F 38 F1 crc32 r64, r/m64
                 struct emit_location *loaded = emit_load_without_freeing_gpr(context, lhs);
                 struct prefixes prefix = create_prefixes(ASM_PREFIX_F2);
-                struct opcode opcode = three_byte_opcode(0x38, 0xf1);
+                struct opcode opcode = three_byte_opcode(0x38, (rhs->size == 1) ? 0xf0 : 0xf1);
+                
+                if(rhs->size == 1){
+                    if(rhs->state == EMIT_LOCATION_loaded) prefix = prefixes_for_byte_register(prefix, rhs->loaded_register);
+                    rhs->size = loaded->size;
+                }
                 
                 if(rhs->state == EMIT_LOCATION_loaded){
-                    emit_register_register(context, prefix, opcode, loaded, rhs);
+                    emit_register_op__internal(context, prefix, opcode, loaded->loaded_register, rhs->loaded_register, rhs->size);
                 }else{
                     assert(rhs->state == EMIT_LOCATION_register_relative);
                     emit_register_relative_register(context, prefix, opcode, loaded->loaded_register, rhs);
diff --git a/src/emit_x64.c b/src/emit_x64.c
index a73014b..c1f8093 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -16,6 +16,7 @@
 //                                                                -12.09.2020
 
 enum rex_encoding{
+    REX  = 0x40, // no extension, but the byte registers 4 to 7 are 'spl', 'bpl', 'sil' and 'dil'
     REXB = 0x41, // makes the modrm 'regm' field into an exteded register (r8 - r15) and some other stuff
     REXX = 0x42, // makes the sib 'index' field into an exteded register (r8 - r15)
     REXR = 0x44, // makes the modrm 'reg' field into an exteded register (r8 - r15)
@@ -579,10 +580,16 @@ func void emit_prefixes_and_opcode(struct context *context, struct prefixes _pre
     enum legacy_prefixes prefixes = _prefixes.legacy_prefixes;
     
     if(prefixes & ASM_PREFIX_VEX){
+        // Segment overrides and address-size overrides precede the vex prefix.
+        if(prefixes & ASM_PREFIX_65) emit(0x65);
+        if(prefixes & ASM_PREFIX_67) emit(0x67);
+        prefixes &= ~(ASM_PREFIX_65 | ASM_PREFIX_67);
+        
         b32 is_three_byte = false;
         if(register_is_extended(regm) || (index >= 0  && register_is_extended(index))) is_three_byte = true;
         
         if(opcode.amount_of_bytes == 3) is_three_byte = true;
+        if(size == 8) is_three_byte = true; // VEX.W
         
         assert((prefixes & (ASM_PREFIX_VEX | ASM_PREFIX_66 | ASM_PREFIX_F2 | ASM_PREFIX_F3)) == prefixes);
         assert(__popcnt((u32)prefixes) <= 2);
@@ -612,6 +619,8 @@ func void emit_prefixes_and_opcode(struct context *context, struct prefixes _pre
             
             u8 byte = (rex << 5) | mmmmm;
             emit(byte);
+            
+            if(size == 8) last_byte |= 0x80; // VEX.W
         }else{
             emit(0xc5); // two byte vex
             last_byte |= register_is_extended(reg) ? 0 : 0x80; // note: inverted!
@@ -623,18 +632,19 @@ func void emit_prefixes_and_opcode(struct context *context, struct prefixes _pre
     }else{
         if(size == 2) prefixes |= ASM_PREFIX_66;
         if(prefixes & ASM_PREFIX_F0) emit(0xf0);
-        if(prefixes & ASM_PREFIX_F2) emit(0xf2);
-        if(prefixes & ASM_PREFIX_F3) emit(0xf3);
         if(prefixes & ASM_PREFIX_64) emit(0x64);
         if(prefixes & ASM_PREFIX_65) emit(0x65);
-        if(prefixes & ASM_PREFIX_66) emit(0x66);
         if(prefixes & ASM_PREFIX_67) emit(0x67);
+        if(prefixes & ASM_PREFIX_F2) emit(0xf2);
+        if(prefixes & ASM_PREFIX_F3) emit(0xf3);
+        if(prefixes & ASM_PREFIX_66) emit(0x66);
         
         u8 rex = 0;
         if(size == 8) rex |= REXW;
         if(register_is_extended(reg))  rex |= REXR;
         if(register_is_extended(regm)) rex |= REXB;
         if(index >= 0 && register_is_extended(index)) rex |= REXX;
+        if(prefixes & ASM_PREFIX_REX) rex |= REX;
         if(rex) emit(rex);
         
         // emit the opcode
@@ -763,6 +773,7 @@ struct emit_location{
             
             smm log_index_scale;
             smm offset;
+            enum legacy_prefixes address_prefixes; // only ever set for asm memory operands like 'gs:[rax]' or '[eax]'.
             struct ir *ir; // rip_relative iff (ast != null)
         }; // register_relative & rip_relative
     };
@@ -815,6 +826,7 @@ func struct emit_location *emit_location_register_relative__internal(struct cont
     ret->index = index_register;
     ret->log_index_scale = 0; // @note: this is almost never used, thus we set it specifically if we need it...
     ret->offset = offset;
+    ret->address_prefixes = ASM_PREFIX_none;
     ret->ir = ir;
     
     return ret;
@@ -1134,9 +1146,17 @@ func void emit_register_op__internal(struct context *context, struct prefixes pr
     emit(make_modrm(MODRM_REG, reg & 7, regm & 7));
 }
 
+// Without a rex-prefix, the byte registers 4 through 7 are 'ah', 'ch', 'dh' and 'bh' instead of 'spl', 'bpl', 'sil' and 'dil'.
+func struct prefixes prefixes_for_byte_register(struct prefixes prefixes, enum register_encoding reg){
+    if(REGISTER_SP <= reg && reg <= REGISTER_DI) prefixes.legacy_prefixes |= ASM_PREFIX_REX;
+    return prefixes;
+}
+
 func void emit_reg_extended_op(struct context *context, struct prefixes prefixes, struct opcode opcode, u8 extension, struct emit_location *loaded){
     assert(loaded->state == EMIT_LOCATION_loaded);
     
+    if(loaded->size == 1 && loaded->register_kind == REGISTER_KIND_gpr) prefixes = prefixes_for_byte_register(prefixes, loaded->loaded_register);
+    
     emit_register_op__internal(context, prefixes, opcode, extension, loaded->loaded_register, loaded->size);
 }
 
@@ -1152,6 +1172,11 @@ func void emit_register_register(struct context *context, struct prefixes prefix
     enum register_encoding reg  = _reg->loaded_register;
     enum register_encoding regm = _regm->loaded_register;
     
+    if(_reg->size == 1 && _reg->register_kind == REGISTER_KIND_gpr){
+        prefixes = prefixes_for_byte_register(prefixes, reg);
+        prefixes = prefixes_for_byte_register(prefixes, regm);
+    }
+    
     emit_register_op__internal(context, prefixes, opcode, reg, regm, _reg->size);
 }
 
@@ -1171,6 +1196,8 @@ func void emit_register_relative__internal(struct context *context, struct prefi
     enum register_encoding base =  loc->base->loaded_register;
     enum register_encoding index = loc->index ? loc->index->loaded_register : INVALID_REGISTER;
     
+    prefixes.legacy_prefixes |= loc->address_prefixes;
+    
     emit_prefixes_and_opcode(context, prefixes, other_reg, base, index, loc->size, opcode);
     
     u8 mod = MODRM_REGM;
@@ -1184,8 +1211,8 @@ func void emit_register_relative__internal(struct context *context, struct prefi
             mod = MODRM_REGM32;
         }else if(loc->offset != 0){
             mod = MODRM_REGM8;
-        }else if(base == REGISTER_BP){
-            // We have to handle [rbp] as [rbp + 0] as 'base = RBP' and 'mod = MOD_REGM' means [rip + disp32].
+        }else if((base & 7) == REGISTER_BP){
+            // We have to handle [rbp] and [r13] as [rbp + 0] as 'base = RBP' and 'mod = MOD_REGM' means [rip + disp32].
             // @cleanup: is this even supposed to happen?
             mod = MODRM_REGM8;
         }
@@ -1201,9 +1228,9 @@ func void emit_register_relative__internal(struct context *context, struct prefi
         emit(make_modrm(mod, other_reg & 0x7, REGISTER_SIB_EXTENSION));
         emit(make_sib(log_size, index & 0x7, base & 0x7));
     }else{
-        if(base == REGISTER_SIB_EXTENSION){
+        if((base & 7) == REGISTER_SIB_EXTENSION){
             emit(make_modrm(mod, other_reg & 0x7, REGISTER_SIB_EXTENSION));
-            emit(make_sib(mod, REGISTER_SP, base & 0x7));
+            emit(make_sib(0, REGISTER_SP, base & 0x7));
         }else{
             emit(make_modrm(mod, other_reg & 0x7, base & 0x7));
         }
@@ -1245,6 +1272,9 @@ func void emit_register_relative__internal(struct context *context, struct prefi
 //    1) 'op [base + scale * index + offset], register'
 //    2) 'op register, [base + scale * index + offset]'
 func void emit_register_relative_register(struct context *context, struct prefixes prefixes, struct opcode opcode, enum register_encoding other_reg, struct emit_location *loc){
+    // @note: Instructions which access one byte with an xmm register are fine with this as well.
+    if(loc->size == 1) prefixes = prefixes_for_byte_register(prefixes, other_reg);
+    
     emit_register_relative__internal(context, prefixes, opcode, other_reg, loc, null);
 }
 
@@ -2193,7 +2223,8 @@ func struct emit_location *emit_shift_or_rotate__internal(struct context *contex
             ret = lhs_loc;
         }else{
             struct emit_location *lhs = emit_load_gpr(context, lhs_loc);
-            emit_reg_extended_op(context, prefixes, one_byte_opcode(SHIFT_OR_ROTATE_REGM_CL), reg_extension, lhs);
+            u8 inst = (lhs->size == 1) ? SHIFT_OR_ROTATE_REGM8_CL : SHIFT_OR_ROTATE_REGM_CL;
+            emit_reg_extended_op(context, prefixes, one_byte_opcode(inst), reg_extension, lhs);
             lhs->size = size; // truncate it
             ret = lhs;
         }
diff --git a/src/parse_asm_block.c b/src/parse_asm_block.c
index 5dcb769..fd39485 100644
--- a/src/parse_asm_block.c
+++ b/src/parse_asm_block.c
@@ -26,6 +26,7 @@ enum legacy_prefixes{
     ASM_PREFIX_P_BIG                = ASM_PREFIX_66, // A p* function (padd, por, punpcklbw, ...) which is 128 bit.
     
     ASM_PREFIX_VEX = 0x100,
+    ASM_PREFIX_REX = 0x200, // Emit a rex-prefix even if it would be empty.
 };
 
 struct prefixes{
@@ -112,6 +113,7 @@ struct asm_operand{
         };
         struct{ // ASM_ARG_declaration_reference
             struct ast_declaration *declaration;
+            struct ast_type *declaration_type; // The type of the member, if the operand is 'declaration.member'.
             u64 declaration_offset;
             b32 is_inline_asm_function_argument;
             b32 is_inline_asm_function_argument_that_needs_to_be_an_integer;
@@ -791,8 +793,8 @@ static struct{
     
     [MEMONIC_comiss]  = {.memonic = const_string("comiss"),  .amount_of_operands = 2, .operand_kind_flags[0] = ASM_OP_KIND_xmm, .operand_kind_flags[1] = ASM_OP_KIND_xmmm32},
     [MEMONIC_ucomiss] = {.memonic = const_string("ucomiss"), .amount_of_operands = 2, .operand_kind_flags[0] = ASM_OP_KIND_xmm, .operand_kind_flags[1] = ASM_OP_KIND_xmmm32},
-    [MEMONIC_comisd]  = {.memonic = const_string("comisd"),  .amount_of_operands = 2, .operand_kind_flags[0] = ASM_OP_KIND_xmm, .operand_kind_flags[1] = ASM_OP_KIND_xmmm32},
-    [MEMONIC_ucomisd] = {.memonic = const_string("ucomisd"), .amount_of_operands = 2, .operand_kind_flags[0] = ASM_OP_KIND_xmm, .operand_kind_flags[1] = ASM_OP_KIND_xmmm32},
+    [MEMONIC_comisd]  = {.memonic = const_string("comisd"),  .amount_of_operands = 2, .operand_kind_flags[0] = ASM_OP_KIND_xmm, .operand_kind_flags[1] = ASM_OP_KIND_xmmm64},
+    [MEMONIC_ucomisd] = {.memonic = const_string("ucomisd"), .amount_of_operands = 2, .operand_kind_flags[0] = ASM_OP_KIND_xmm, .operand_kind_flags[1] = ASM_OP_KIND_xmmm64},
     
     [MEMONIC_pxor]  = {.memonic = const_string("pxor"),  .amount_of_operands = 2, .operand_kind_flags[0] = ASM_OP_KIND_xmm, .operand_kind_flags[1] = ASM_OP_KIND_xmmm128 },
     [MEMONIC_por]   = {.memonic = const_string("por"),   .amount_of_operands = 2, .operand_kind_flags[0] = ASM_OP_KIND_xmm, .operand_kind_flags[1] = ASM_OP_KIND_xmmm128 },
@@ -1355,6 +1357,7 @@ func struct asm_operand asm_maybe_parse_expression_operand(struct context *conte
     
     operand.kind = ASM_ARG_declaration_reference;
     operand.size = expr.resolved_type->size;
+    operand.declaration_type = expr.resolved_type;
     
     if(context->in_inline_asm_function && expr.ir->kind == IR_identifier){
         struct ir_identifier *ident = (struct ir_identifier *)expr.ir;
@@ -1501,9 +1504,9 @@ func struct asm_operand asm_maybe_parse_memory_operand(struct context *context){
     
     enum asm_register base  = -1;
     enum asm_register index = -1;
+    smm address_size = 8;
     smm scale  = 1;
     smm offset = 0;
-    b32 offset_is_negative = false;
     
     b32 finished = false;
     
@@ -1511,14 +1514,12 @@ func struct asm_operand asm_maybe_parse_memory_operand(struct context *context){
     if(peek_token(context, TOKEN_identifier)){
         struct asm_operand reg = asm_maybe_parse_gpr(context);
         if(reg.kind != ASM_ARG_invalid){
+            if(reg.size < 4) report_error(context, get_current_token_for_error_report(context), "The base of an asm memory operand must be a 32-bit or 64-bit register.");
             base = reg.reg;
+            address_size = reg.size;
             
-            finished = (peek_token_eat(context, TOKEN_plus) == null);
-            
-            if(finished && peek_token(context, TOKEN_minus)){
-                offset_is_negative = true;
-                goto skip_scale;
-            }
+            // @note: If the next token is a '-', it is part of the offset expression.
+            finished = (peek_token_eat(context, TOKEN_plus) == null) && !peek_token(context, TOKEN_minus);
         }
     }
     
@@ -1532,7 +1533,15 @@ func struct asm_operand asm_maybe_parse_memory_operand(struct context *context){
                 scale = parse_base10_literal(context, scale_or_offset).value;
                 index = reg.reg;
                 
-                finished = peek_token_eat(context, TOKEN_plus) || peek_token_eat(context, TOKEN_minus);
+                if(scale != 1 && scale != 2 && scale != 4 && scale != 8){
+                    report_error(context, scale_or_offset, "The scale of an asm memory operand must be 1, 2, 4 or 8.");
+                }
+                
+                if(reg.size != address_size || reg.reg == ASM_REGISTER_rsp){
+                    report_error(context, scale_or_offset, "The index of an asm memory operand must be a register of the same size as the base and cannot be 'rsp'.");
+                }
+                
+                finished = (peek_token_eat(context, TOKEN_plus) == null) && !peek_token(context, TOKEN_minus);
             }
         }else{
             prev_token(context);
@@ -1540,15 +1549,16 @@ func struct asm_operand asm_maybe_parse_memory_operand(struct context *context){
     }
     
     if(!finished){
-        skip_scale:
-        
         struct token *start_token = get_current_token(context);
         struct asm_operand operand = asm_maybe_parse_expression_operand(context);
         expect_token(context, TOKEN_closed_index, "Expected ']' ending the memory operand.");
         
         if(operand.kind == ASM_ARG_immediate){
-            // @cleanup: report on overflow and so on.
             offset = operand.immediate;
+            
+            if(offset < s32_min || offset > s32_max){
+                report_error(context, start_token, "The offset of an asm memory operand must fit into 32-bits.");
+            }
         }else if(operand.kind == ASM_ARG_declaration_reference){
             
             smm pointer_to_size = 0;
@@ -1579,13 +1589,18 @@ func struct asm_operand asm_maybe_parse_memory_operand(struct context *context){
     }
     
     
+    if(base == ASM_REGISTER_invalid){
+        report_error(context, size_ident, "An asm memory operand must have a base register.");
+    }
+    
     arg.kind   = ASM_ARG_memory_operand;
     arg.base   = base;
     arg.index  = index;
     arg.scale  = scale;
-    arg.offset = offset_is_negative ? -offset : offset;
+    arg.offset = offset;
     arg.size   = size;
-    if(is_gs_relative) context->current_asm_flags |= ASM_PREFIX_gs;
+    if(is_gs_relative)    context->current_asm_flags |= ASM_PREFIX_gs;
+    if(address_size == 4) context->current_asm_flags |= ASM_PREFIX_67;
     
     return arg;
 }
@@ -1727,7 +1742,9 @@ func struct asm_instruction *parse_asm_instruction(struct context *context){
             // In this case, just return the movsd here
             //
             
-            return push_asm_instruction(context, MEMONIC_movsd, 0, token);
+            struct asm_instruction *movsd = push_asm_instruction(context, MEMONIC_movsd, 0, token);
+            movsd->prefixes = context->current_asm_flags;
+            return movsd;
         }
     }
     
@@ -1872,7 +1889,7 @@ func struct asm_instruction *parse_asm_instruction(struct context *context){
             case ASM_ARG_declaration_reference:{
                 b32 should_error = false;
                 
-                struct ast_type *type = operand.declaration->type;
+                struct ast_type *type = operand.declaration_type;
                 if(operand.is_inline_asm_function_argument && type->kind == AST_integer_type){
                     
                     if((desired_operand_flags & ASM_OP_KIND_any_imm) == (desired_operand_flags & (ASM_OP_KIND_any_regm | ASM_OP_KIND_any_imm))){
@@ -1971,7 +1988,7 @@ func struct asm_instruction *parse_asm_instruction(struct context *context){
         case MEMONIC_and:  case MEMONIC_sub:
         case MEMONIC_xor:  case MEMONIC_cmp:
         case MEMONIC_bt:   case MEMONIC_bts: case MEMONIC_btr: case MEMONIC_btc: // 'op regm, reg' or 'op regm, imm8'
-        case MEMONIC_bsf:  case MEMONIC_bsr: // 'op reg, regm'
+        case MEMONIC_bsf:  case MEMONIC_bsr: case MEMONIC_lzcnt: // 'op reg, regm'
         case MEMONIC_popcnt:{                // 'op reg, regm'
             
             //
@@ -2012,7 +2029,7 @@ func struct asm_instruction *parse_asm_instruction(struct context *context){
         case MEMONIC_rcl: case MEMONIC_rcr:
         case MEMONIC_shl: case MEMONIC_shr:
         case MEMONIC_sal: case MEMONIC_sar:{
-            if(asm_instruction->operands[1].kind == ASM_ARG_register && asm_instruction->operands[1].reg != ASM_REGISTER_rcx){
+            if(asm_instruction->operands[1].kind == ASM_ARG_register && (asm_instruction->operands[1].reg != ASM_REGISTER_rcx || asm_instruction->operands[1].size != 1)){
                 report_error(context, token, "The right side needs to be either 'cl' or an 8-bit integer.");
             }
         }break;
@@ -2059,14 +2076,12 @@ func struct asm_instruction *parse_asm_instruction(struct context *context){
         }break;
         
         case MEMONIC_lea: case MEMONIC_clflush:{
-            asm_instruction->operands[regm_index].size = 4;
+            asm_instruction->operands[memonic == MEMONIC_lea ? 1 : 0].size = 4;
         }break;
         
         // no need to do anything, we made sure that these only take memory addresses and the size does not matter to us
          case MEMONIC_prefetch:{
-            if(asm_instruction->operands[1].size == 0){
-                asm_instruction->operands[1].size = 4;
-            }
+            asm_instruction->operands[1].size = 4;
         }break;
         
         case MEMONIC_ldmxcsr: case MEMONIC_stmxcsr:        
@@ -2282,7 +2297,7 @@ func struct asm_instruction *parse_asm_instruction(struct context *context){
         case MEMONIC_vpshufb:
         case MEMONIC_vshufps: case MEMONIC_vblendps: case MEMONIC_vperm2f128: // 'op ymm1, ymm2, ymm3/m256, imm8' or 'op xmm1, xmm2, xmm3/m128, imm8'
         case MEMONIC_vpminub: case MEMONIC_vpxor:
-        case MEMONIC_vmulps:  case MEMONIC_vaddps:{ // 'op ymm1, ymm2, ymm3/m256' or 'op xmm1, xmm2, xmm3/m128'
+        case MEMONIC_vmulps:  case MEMONIC_vaddps: case MEMONIC_vsubps:{ // 'op ymm1, ymm2, ymm3/m256' or 'op xmm1, xmm2, xmm3/m128'
             if(asm_instruction->operands[2].size == 0){ // @cleanup: regm_index ? 
                 u32 size = (memonic == MEMONIC_movsd) ? 8 : 4;
                 asm_instruction->operands[regm_index].size = size;
@@ -2309,7 +2324,12 @@ func struct asm_instruction *parse_asm_instruction(struct context *context){
             if(asm_instruction->operands[0].size == 0){
                 asm_instruction->operands[0].size = asm_instruction->operands[1].size == 8 ? 8 : 4;
             }
-            // we allow any size on the lhs.
+            
+            // 'crc32 reg32, regm8/16/32' or 'crc32 reg64, regm8/64'
+            smm size = asm_instruction->operands[1].size;
+            if(size != 1 && ((size == 8) != (asm_instruction->operands[0].size == 8))){
+                report_error(context, token, "Operand size mismatch. %lld vs %lld.", asm_instruction->operands[0].size, size);
+            }
         }break;
         
         case MEMONIC_vinsertf128:{
-- 
2.43.0


From 31d6db2265235e972ff26e2e1e185353a7aa15a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:19 +0000
Subject: [PATCH 41/83] fix: integer literal arguments of inline_asm functions
 can be shift counts and used more than once

---
 src/emit_inline_asm_block.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index fdc48ac..21756a3 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -123,10 +123,11 @@ func struct emit_location *_asm_block_resolve_and_allocate_operand(struct contex
                                 integer_location = emit_location_immediate(context, decl->type->size, 0);
                             }
                             
-                            ret = integer_location;
+                            // @note: Use a copy, as emitting an instruction might free or change it, but there might be another use of the argument.
+                            ret = emit_location_immediate(context, integer_location->value, integer_location->size);
                         }else{
                             if(integer_location && operand->is_inline_asm_function_argument_that_can_be_integer){
-                                ret = integer_location;
+                                ret = emit_location_immediate(context, integer_location->value, integer_location->size);
                             }else{
                                 
                                 //
@@ -666,6 +667,10 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 u8 REG_OPCODE = (u8)(inst->memonic - MEMONIC_rol);
                 if(inst->memonic == MEMONIC_sal) REG_OPCODE = (u8)(MEMONIC_shl - MEMONIC_rol); // 'sal' and 'shl' are the same instruction.
                 b32 compound = lhs->state == EMIT_LOCATION_register_relative;
+                
+                // An integer literal argument of an '__declspec(inline_asm)' function has the size of its declaration.
+                if(rhs->state == EMIT_LOCATION_immediate && rhs->size != 1) rhs = emit_location_immediate(context, rhs->value, 1);
+                
                 emit_shift_or_rotate__internal(context, user_prefixes, lhs, rhs, REG_OPCODE, compound);
             }break;
             
-- 
2.43.0


From f53103b0f2d1a785c412e4ee80f4cf1d079738e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:24 +0000
Subject: [PATCH 42/83] fix: unterminated string literals in directives of
 included files are an error, not an assertion

---
 src/std.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/std.c b/src/std.c
index 5e3a84a..6d54875 100644
--- a/src/std.c
+++ b/src/std.c
@@ -1341,10 +1341,13 @@ func struct string strip_prefix_and_quotes(struct string string){
     
     eat_until_char(&string, '"', /*eat_delimiter*/0);
     
-    assert(string.size >= 2);
-    assert(string.data[0] == string.data[string.size - 1]);
+    assert(string.size >= 1);
     string.data += 1;
-    string.size -= 2;
+    string.size -= 1;
+    
+    // If there is no end quote, the tokenizer has already reported the unterminated string literal.
+    if(string.size > 0 && string.data[string.size - 1] == '"') string.size -= 1;
+    
     return string;
 }
 
-- 
2.43.0


From d7800580818eaff57447f60067651c500cdb54f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:18 +0000
Subject: [PATCH 43/83] fix: /Zs checks the bodies of functions

---
 src/main.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/main.c b/src/main.c
index 1dde570..cde51da 100644
--- a/src/main.c
+++ b/src/main.c
@@ -5080,9 +5080,6 @@ globals.typedef_##postfix = (struct ast_type){
     assert(globals.work_queue_parse_global_scope_entries.work_entries_in_flight == 0);
     if(globals.an_error_has_occurred) goto end;
     
-    // If /Zs was specified, we have succeeded when we get here!
-    if(globals.cli_options.syntax_check) return 0;
-    
     // #pragma comment(linker, "/ALTERNATENAME:strdup=_strdup").
     for(struct alternate_name *alternate_name = globals.alternate_names.first; alternate_name; alternate_name = alternate_name->next){
         struct ast_declaration *source = (struct ast_declaration *)ast_table_get(&globals.global_declarations, alternate_name->source);
@@ -5112,7 +5109,7 @@ globals.typedef_##postfix = (struct ast_type){
     
     struct string_list attempted_entry_point_string_list = {};
     
-    if(!globals.cli_options.no_entry){
+    if(!globals.cli_options.no_entry && !globals.cli_options.syntax_check){
         
         // 
         // Try to determine the entry point, output file name and subsystem, 
@@ -5256,7 +5253,7 @@ globals.typedef_##postfix = (struct ast_type){
             case OUTPUT_FILE_exe: globals.subsystem = SUBSYSTEM_console; break;
             case OUTPUT_FILE_dll: globals.subsystem = SUBSYSTEM_windows; break;
             case OUTPUT_FILE_efi: globals.subsystem = SUBSYSTEM_efi_application; break;
-            default: invalid_code_path;
+            default: assert(globals.cli_options.syntax_check);
         }
     }
     
@@ -5294,6 +5291,9 @@ globals.typedef_##postfix = (struct ast_type){
     assert(globals.work_queue_parse_functions.work_entries_in_flight == 0);
     if(globals.an_error_has_occurred) goto end;
     
+    // If /Zs was specified, we have succeeded when we get here!
+    if(globals.cli_options.syntax_check) return 0;
+    
     
     // @cleanup: is there a good way here to assert that nothing is sleeping?
     
-- 
2.43.0


From d7806bdf9b8d33a81a581f674f205f212e2ca0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:30 +0000
Subject: [PATCH 44/83] fix: printlike functions print the members of anonymous
 structures without a name for the structure

---
 src/parse.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 289ff1e..1e83661 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -3358,8 +3358,11 @@ void printlike__infer_format_string_and_arguments_for_argument(struct context *c
                     dot->base.kind = IR_member;
                     dot->member = &compound->members[node->member_at];
                     
-                    string_list_postfix_no_copy(pretty_print_list, &context->scratch, string("."));
-                    string_list_postfix_no_copy(pretty_print_list, &context->scratch, dot->member->name->string);
+                    // The members of anonymous structures and unions are accessed without a name for the structure.
+                    if(dot->member->name != globals.invalid_identifier_token){
+                        string_list_postfix_no_copy(pretty_print_list, &context->scratch, string("."));
+                        string_list_postfix_no_copy(pretty_print_list, &context->scratch, dot->member->name->string);
+                    }
                     
                     ir = &dot->base;
                     
-- 
2.43.0


From 41e7ed46fc27dbdebf642f8dd2f9e1f5c53290ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:32 +0000
Subject: [PATCH 45/83] fix: flags of {}- and %?-specifiers of printlike
 functions are passed on

---
 src/parse.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 1e83661..4f52422 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -3169,7 +3169,7 @@ void maybe_insert_implicit_nodes_for_varargs_argument(struct context *context, s
 }
 
 
-func void get_pretty_print_string_for_type(struct context *context, struct string_list *format_list, struct ast_type *type, struct string field_width, struct string precision, struct string type_specifiers){
+func void get_pretty_print_string_for_type(struct context *context, struct string_list *format_list, struct ast_type *type, struct string flags, struct string field_width, struct string precision, struct string type_specifiers){
     
     switch(type->kind){
         case AST_enum:{
@@ -3192,7 +3192,7 @@ func void get_pretty_print_string_for_type(struct context *context, struct strin
             
             if(is_string){
                 char *dot = precision.size ? "." : "";
-                format_string = push_format_string(&context->scratch, "%%%.*s%s%.*ss", field_width.size, field_width.data, dot, precision.size, precision.data);
+                format_string = push_format_string(&context->scratch, "%%%.*s%.*s%s%.*ss", flags.size, flags.data, field_width.size, field_width.data, dot, precision.size, precision.data);
             }
             
             string_list_postfix(format_list, &context->scratch, format_string);
@@ -3216,7 +3216,7 @@ func void get_pretty_print_string_for_type(struct context *context, struct strin
             char *dot = precision.size ? "." : "";
             char *prefix = (*type_specifier == 'x') ? "0x" : ((*type_specifier == 'o') ? "0o" : "");
             
-            struct string format_string = push_format_string(&context->scratch, "%s%%%.*s%s%.*s%s%s", prefix, field_width.size, field_width.data, dot, precision.size, precision.data, length_modifier, type_specifier);
+            struct string format_string = push_format_string(&context->scratch, "%s%%%.*s%.*s%s%.*s%s%s", prefix, flags.size, flags.data, field_width.size, field_width.data, dot, precision.size, precision.data, length_modifier, type_specifier);
             
             string_list_postfix(format_list, &context->scratch, format_string);
         }break;
@@ -3225,7 +3225,7 @@ func void get_pretty_print_string_for_type(struct context *context, struct strin
             char *dot = precision.size ? "." : "";
             char *postfix = type->size == 4 ? "f" : "";
             
-            struct string format_string = push_format_string(&context->scratch, "%%%.*s%s%.*sf%s", field_width.size, field_width.data, dot, precision.size, precision.data, postfix);
+            struct string format_string = push_format_string(&context->scratch, "%%%.*s%.*s%s%.*sf%s", flags.size, flags.data, field_width.size, field_width.data, dot, precision.size, precision.data, postfix);
             
             string_list_postfix(format_list, &context->scratch, format_string);
         }break;
@@ -3240,6 +3240,18 @@ void printlike__infer_format_string_and_arguments_for_argument(struct context *c
     
     struct ast_type *argument_type = argument->resolved_type;
     
+    // 
+    // All flags but '#', which asks for multi line structures, apply to the scalar values.
+    // 
+    struct string_list scalar_flag_list = zero_struct;
+    for(smm flag_index = 0; flag_index < flags.size; flag_index++){
+        if(flags.data[flag_index] == '#') continue;
+        
+        struct string flag = { .data = flags.data + flag_index, .size = 1 };
+        string_list_postfix(&scalar_flag_list, &context->scratch, flag);
+    }
+    struct string scalar_flags = string_list_flatten(scalar_flag_list, &context->scratch);
+    
     if(argument_type->kind == AST_array_type){
         // 
         // For print("{:s}", "hello"), we want to print "hello" not an array literal.
@@ -3393,7 +3405,7 @@ void printlike__infer_format_string_and_arguments_for_argument(struct context *c
             //
             // Actually pretty print the argument to string.
             //
-            get_pretty_print_string_for_type(context, pretty_print_list, expr.resolved_type, field_width, precision, type_specifiers);
+            get_pretty_print_string_for_type(context, pretty_print_list, expr.resolved_type, scalar_flags, field_width, precision, type_specifiers);
             *call_arguments_count += 1;
             
             // 
@@ -3447,7 +3459,7 @@ void printlike__infer_format_string_and_arguments_for_argument(struct context *c
         
         // No need to push a declaration for these, they are just read once anyway, 
         // also no need to specify a depth.
-        get_pretty_print_string_for_type(context, pretty_print_list, argument->resolved_type, field_width, precision, type_specifiers);
+        get_pretty_print_string_for_type(context, pretty_print_list, argument->resolved_type, scalar_flags, field_width, precision, type_specifiers);
         *call_arguments_count += 1;
     }
 }
-- 
2.43.0


From fe5d3d4b886a59015dc2ca015789b51dd4bd91a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:32 +0000
Subject: [PATCH 46/83] fix: conditional and logical operators in __except
 filters crashed the compiler

---
 src/parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse.c b/src/parse.c
index 4f52422..c0e4385 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -9952,6 +9952,7 @@ func void parse_statement(struct context *context){
                     push_ir(context, IR_return);
                     
                     filter_function->end_in_ir_arena = arena_current(&context->ir_arena);
+                    filter_function->amount_of_jump_labels = context->jump_label_index; // The filter shares the numbering of the function it is contained in.
                     filter_scope->end_offset = (u32)(filter_function->end_in_ir_arena - filter_function->start_in_ir_arena);
                     
                     {
-- 
2.43.0


From e70ddcad5756122d944e0b4df509cf4a644b2a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:32 +0000
Subject: [PATCH 47/83] fix: a call directly in front of a __try was treated as
 if it was inside of it

---
 src/emit_x64.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index c1f8093..258499d 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -4794,6 +4794,9 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 struct ir_exception_marker *marker = (struct ir_exception_marker *)ir;
                 ir_arena_at += sizeof(*marker);
                 
+                // A call directly before the __try would have a return address inside of the __try-block.
+                emit(ONE_BYTE_NOP);
+                
                 marker->handler->start_offset_in_function = (u32)get_bytes_emitted(context);
             }break;
             
-- 
2.43.0


From 00d6d36f7817bf96968ad95116c122bb97d1d708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:32 +0000
Subject: [PATCH 48/83] fix: unwind information of functions with frames of
 512K and more was corrupt

---
 src/obj_writer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index ed682ed..c884cff 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -943,7 +943,9 @@ func void *push_unwind_information_for_function(struct memory_arena *arena, stru
         
         stack_allocation_code->operation_code = /*UWOP_ALLOC_LARGE*/1;
         stack_allocation_code->operation_info = 1;
-        *push_struct(arena, u32) = (u32)stack_space_needed;
+        // @note: The slots are only aligned to 2 bytes.
+        *push_struct(arena, u16) = (u16)(stack_space_needed);
+        *push_struct(arena, u16) = (u16)(stack_space_needed >> 16);
     }
     
     // @incomplete: Pushing r8-r15 needs 2 bytes each.
-- 
2.43.0


From bb6b9874b77557fa65e00839c52fbcafc20e54b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:32 +0000
Subject: [PATCH 49/83] fix: wmain with an environment was passed the narrow
 argument vector

---
 implicit/pre_wmain_envp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/pre_wmain_envp.c b/implicit/pre_wmain_envp.c
index 13c1fe6..b60df26 100644
--- a/implicit/pre_wmain_envp.c
+++ b/implicit/pre_wmain_envp.c
@@ -56,7 +56,7 @@ int _start(void){
     envp_array[amount_of_environment_strings] = 0;
     
     
-    int exit_code = wmain(argc, argv, envp_array);
+    int exit_code = wmain(argc, wargv, envp_array);
     
     ExitProcess((unsigned int)exit_code);
 }
-- 
2.43.0


From f77eb21d3e42caeb1d400c8ae6666f984b4ceadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:32 +0000
Subject: [PATCH 50/83] fix: only spaces and tabs separate the arguments of
 main

---
 implicit/pre_main_common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/implicit/pre_main_common.c b/implicit/pre_main_common.c
index e46c12d..183610b 100644
--- a/implicit/pre_main_common.c
+++ b/implicit/pre_main_common.c
@@ -17,7 +17,7 @@ __declspec(dllimport) __declspec(noreturn) void ExitProcess(unsigned int uExitCo
 
 
 static int character_is_whitespace(char c){
-    return (c ==  '\v') || (c ==  '\t') || (c ==  '\f') || (c ==  ' ');
+    return (c ==  '\t') || (c ==  ' ');
 }
 
 // arguments:
@@ -130,7 +130,7 @@ static int windows_parse_command_line__internal(char *command_line, __int64 comm
 
 
 static int wchar_is_whitespace(wchar_t c){
-    return (c ==  '\v') || (c ==  '\t') || (c ==  '\f') || (c ==  ' ');
+    return (c ==  '\t') || (c ==  ' ');
 }
 
 
-- 
2.43.0


From 820a967c21d9e103f54905e8b2eb9fb1670ed67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:43 +0000
Subject: [PATCH 51/83] fix: WinMain and wWinMain received the program name as
 a part of the command line

---
 implicit/pre_WinMain.c  | 8 ++++++++
 implicit/pre_wWinMain.c | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/implicit/pre_WinMain.c b/implicit/pre_WinMain.c
index 3e768c1..3696b76 100644
--- a/implicit/pre_WinMain.c
+++ b/implicit/pre_WinMain.c
@@ -47,6 +47,14 @@ void _start(void){
     HINSTANCE hInstance = GetModuleHandleA(0); // @cleanup: __ImageBase?
     HINSTANCE hPrevInstance = 0; // "This parameter is always NULL."
     char *lpCmdLine = GetCommandLineA();
+    
+    // The program name is not part of 'lpCmdLine'.
+    int in_quotes = false;
+    for(; *lpCmdLine && (in_quotes || !character_is_whitespace(*lpCmdLine)); lpCmdLine++){
+        if(*lpCmdLine == '"') in_quotes = !in_quotes;
+    }
+    while(character_is_whitespace(*lpCmdLine)) lpCmdLine++;
+    
     int nShowCmd = (StartupInfo.dwFlags & /*STARTF_USESHOWWINDOW*/1) ? StartupInfo.wShowWindow : /*SW_SHOWDEFAULT*/10;
     
     int ExitCode = WinMain(hInstance, hPrevInstance, lpCmdLine, nShowCmd);
diff --git a/implicit/pre_wWinMain.c b/implicit/pre_wWinMain.c
index 23b7099..bec6d16 100644
--- a/implicit/pre_wWinMain.c
+++ b/implicit/pre_wWinMain.c
@@ -50,6 +50,14 @@ void _start(void){
     HINSTANCE hInstance = GetModuleHandleW(0); // @cleanup: __ImageBase?
     HINSTANCE hPrevInstance = 0; // "This parameter is always NULL."
     wchar_t *lpCmdLine = GetCommandLineW();
+    
+    // The program name is not part of 'lpCmdLine'.
+    int in_quotes = false;
+    for(; *lpCmdLine && (in_quotes || !wchar_is_whitespace(*lpCmdLine)); lpCmdLine++){
+        if(*lpCmdLine == '"') in_quotes = !in_quotes;
+    }
+    while(wchar_is_whitespace(*lpCmdLine)) lpCmdLine++;
+    
     int nShowCmd = (StartupInfo.dwFlags & /*STARTF_USESHOWWINDOW*/1) ? StartupInfo.wShowWindow : /*SW_SHOWDEFAULT*/10;
     
     int ExitCode = wWinMain(hInstance, hPrevInstance, lpCmdLine, nShowCmd);
-- 
2.43.0


From 99641ad892bbf66c5e390ae7676fd14c05ad6c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:58 +0000
Subject: [PATCH 52/83] fix: the exit status was 0 when there were no input
 files

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index cde51da..b255710 100644
--- a/src/main.c
+++ b/src/main.c
@@ -4110,7 +4110,7 @@ int main(int argc, char *argv[]){
         }
         
         print("Error: No input files specified.\n");
-        return 0;
+        return 1;
     }
     
     if(!sll_is_empty(object_files.list)){
-- 
2.43.0


From 5f0318d16e9a47e9641aa5a4b580f790ef35b648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:54 +0000
Subject: [PATCH 53/83] fix: data marked __declspec(dllexport) was not exported
 from an image

---
 src/coff_writer.c | 37 ++++++++++++++++++++++++-------------
 src/main.c        | 25 +++++++++++++++++++++++++
 2 files changed, 49 insertions(+), 13 deletions(-)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index 36bb330..4e461f6 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -650,6 +650,10 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
                         continue;
                     }
                     
+                    if(decl->flags & DECLARATION_FLAGS_is_dllexport){
+                        ast_list_append(&dllexports, scratch, ast);
+                    }
+                    
                     if(decl->assign_expr){
                         ast_list_append(&initialized_declarations, arena, ast);
                     }else{
@@ -1148,6 +1152,7 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
     }
     
     u32 tls_data_rva = 0;
+    u32 *export_address_table = null;
     
     struct coff_section_header *rdata = null;
     {   //
@@ -1435,7 +1440,7 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
         }
         
         if(dllexports.count){
-            u32 *export_address_table = push_data(arena, u32, dllexports.count);
+            export_address_table = push_data(arena, u32, dllexports.count);
             u32 *name_pointer_table   = push_data(arena, u32, dllexports.count);
             u16 *ordinal_table        = push_data(arena, u16, dllexports.count);
             
@@ -1475,26 +1480,23 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
             image_optional_header->data_directory[0].rva  = make_relative_virtual_address(rdata_section_start, edata_start);
             image_optional_header->data_directory[0].size = to_u32(arena_current(arena) - edata_start);
             
-#define function_node_smaller(a, b) \
+#define declaration_node_smaller(a, b) \
             string_lexically_smaller( \
-                    ((struct ast_function *)a->value)->identifier->string, \
-                    ((struct ast_function *)b->value)->identifier->string)
+                    ((struct ast_declaration *)a->value)->identifier->string, \
+                    ((struct ast_declaration *)b->value)->identifier->string)
             
-            sll_sort(dllexports, scratch, function_node_smaller);
-#undef function_node_smaller
+            sll_sort(dllexports, scratch, declaration_node_smaller);
+#undef declaration_node_smaller
             
             // emit all the names
             
             u32 i = 0;
             for_ast_list(dllexports){
-                assert(*it->value == IR_function);
-                struct ast_function *function = cast(struct ast_function *)it->value;
-                assert(function->relative_virtual_address); // The function better be emitted!
-                
+                struct ast_declaration *decl = cast(struct ast_declaration *)it->value;
                 
-                char *function_name = push_cstring_from_string(arena, function->identifier->string);
-                name_pointer_table[i] = make_relative_virtual_address(rdata_section_start, function_name);
-                export_address_table[i] = to_u32(function->relative_virtual_address);
+                // @note: The 'export_address_table' is filled in once the '.data' section has been written.
+                char *name = push_cstring_from_string(arena, decl->identifier->string);
+                name_pointer_table[i] = make_relative_virtual_address(rdata_section_start, name);
                 ordinal_table[i] = to_u16((smm)i);
                 i++;
             }
@@ -1595,6 +1597,15 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
         }
     }
     
+    {
+        u32 i = 0;
+        for_ast_list(dllexports){
+            struct ast_declaration *decl = cast(struct ast_declaration *)it->value;
+            assert(decl->relative_virtual_address); // The declaration better be emitted!
+            export_address_table[i++] = to_u32(decl->relative_virtual_address);
+        }
+    }
+    
     // From this point all functions and all declarations have their relative virtual address set.
     // thus we can patch now.
     
diff --git a/src/main.c b/src/main.c
index b255710..5f077b4 100644
--- a/src/main.c
+++ b/src/main.c
@@ -5535,6 +5535,31 @@ globals.typedef_##postfix = (struct ast_type){
                 globals.globally_referenced_declarations = declaration_node;
             }
         }
+    }else{
+        // 
+        // For an image, anything exported is a potential entry point.
+        // Functions and initialized declarations which are exported by their definition were already added,
+        // but the '__declspec(dllexport)' might also be on another declaration or on a tentative definition.
+        // 
+        
+        for(u32 table_index = 0; table_index < globals.global_declarations.capacity; table_index++){
+            enum ast_kind *ast = globals.global_declarations.nodes[table_index].ast;
+            if(!ast || (*ast != IR_declaration && *ast != IR_function)) continue;
+            
+            struct ast_declaration *decl = (struct ast_declaration *)ast;
+            if(!(decl->flags & DECLARATION_FLAGS_is_dllexport)) continue;
+            
+            // Skip everything that is only declared, but not defined.
+            if(*ast == IR_function && !((struct ast_function *)decl)->scope) continue;
+            if(*ast == IR_declaration && (decl->flags & DECLARATION_FLAGS_is_extern) && !decl->assign_expr) continue;
+            
+            struct declaration_reference_node *declaration_node = push_struct(arena, struct declaration_reference_node);
+            declaration_node->declaration = decl;
+            declaration_node->token       = decl->identifier;
+            declaration_node->next = globals.globally_referenced_declarations;
+            
+            globals.globally_referenced_declarations = declaration_node;
+        }
     }
     
     struct temporary_memory temp = begin_temporary_memory(&context->scratch);
-- 
2.43.0


From a45299bdf6fe008c5f2eb0415d3fdcd4371fbf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:21 +0000
Subject: [PATCH 54/83] fix: a pointer into a string literal in a static
 initializer lost its offset in images

---
 src/coff_writer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index 4e461f6..6418cd1 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -1732,6 +1732,7 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
                     struct ir_string_literal *lit = (struct ir_string_literal *)patch->source;
                     
                     source_location = (smm)lit->relative_virtual_address + image_optional_header->image_base;
+                    source_location += patch->location_offset_in_source_declaration;
                 }
                 
                 *cast(smm *)memory_location = source_location;
-- 
2.43.0


From a57f84ee7c621bfbb70badf8adf25961449e97c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:26 +0000
Subject: [PATCH 55/83] fix: a constant pointer to an imported function
 declared without __declspec(dllimport) pointed to nothing

---
 src/main.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.c b/src/main.c
index 5f077b4..29ef1a2 100644
--- a/src/main.c
+++ b/src/main.c
@@ -2341,6 +2341,9 @@ func void evaluate_static_initializer__internal(struct context *context, struct
                         if(!(decl->flags & DECLARATION_FLAGS_need_dllimport_stub_function)) decl->flags |= DECLARATION_FLAGS_need_dllimport_stub_function;
                     }else invalid_code_path;
                     // end_error_report(context);
+                }else if(decl->kind == IR_function && !((struct ast_function *)decl)->scope && globals.output_file_type != OUTPUT_FILE_obj){
+                    // A function that is not defined might later be found in an import library and then also needs a stub.
+                    if(!(decl->flags & DECLARATION_FLAGS_need_dllimport_stub_function)) decl->flags |= DECLARATION_FLAGS_need_dllimport_stub_function;
                 }
                 
                 ir_offset += sizeof(struct ir_identifier);
-- 
2.43.0


From 956ac17a19c531a82794afaf2777b1982c24bdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:37 +0000
Subject: [PATCH 56/83] fix: globals aligned to more than 512 bytes were
 misaligned in images

---
 src/coff_writer.c | 8 ++++++--
 src/main.c        | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index 6418cd1..1c3d8c2 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -1132,7 +1132,8 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
             
             if(decl_size == 0) decl_size = 1; // Ensure even zero-sized declarations have unique addresses.
             
-            size = align_up(size, alignment);
+            // Align the address in the image, the section itself is only aligned to a page.
+            size = align_up(section_virtual_address_at + size, alignment) - section_virtual_address_at;
             decl->relative_virtual_address = section_virtual_address_at + size;
             size += decl_size;
         }
@@ -1578,7 +1579,10 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
             smm alignment = get_declaration_alignment(decl);
             smm decl_size = get_declaration_size(decl);
             
-            push_zero_align(arena, alignment);
+            // Align the address in the image, not the offset in the file.
+            smm rva = make_relative_virtual_address(data_section_start, arena_current(arena));
+            smm padding = align_up(rva, alignment) - rva;
+            memset(push_uninitialized_data(arena, u8, padding), 0, padding);
             
             assert(decl->memory_location);
             
diff --git a/src/main.c b/src/main.c
index 29ef1a2..07468c8 100644
--- a/src/main.c
+++ b/src/main.c
@@ -2687,6 +2687,7 @@ func u8 *evaluate_static_initializer(struct context *context, struct ast_declara
     smm data_size  = get_declaration_size(decl);
     smm data_align = get_declaration_alignment(decl);
     
+    if(data_align > 0x1000) data_align = 0x1000; // The arena can only align up to a page, this memory gets copied into the image later.
     push_zero_align(context->arena, data_align); // @cleanup: Do we need this?
     u8 *data = push_uninitialized_data(context->arena, u8, data_size); // @note: This will be zero-initialized, as we never free from arena.
     
-- 
2.43.0


From 2d06b4b9e438a03db9834d59331f9a9b07b770c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:57 +0000
Subject: [PATCH 57/83] fix: globals aligned to more than 16 bytes were
 misaligned in objects

---
 src/obj_writer.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index c884cff..ad59d2c 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -1784,7 +1784,10 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                 smm alignment = get_declaration_alignment(decl);
                 smm decl_size = get_declaration_size(decl);
                 
-                push_zero_align(arena, alignment); // @cleanup: This seems wrong... We want to align the offset from the base.
+                // Align the offset in the section.
+                smm offset  = arena_current(arena) - data_base;
+                smm padding = align_up(offset, alignment) - offset;
+                memset(push_uninitialized_data(arena, u8, padding), 0, padding);
                 
                 section_alignment = max_of(section_alignment, alignment);
                 
@@ -1825,7 +1828,10 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
             smm alignment = get_declaration_alignment(decl);
             smm decl_size = get_declaration_size(decl);
             
-            push_zero_align(arena, alignment); // @cleanup: This seems wrong... We want to align the offset from the base.
+            // Align the offset in the section.
+            smm offset  = arena_current(arena) - tls_base;
+            smm padding = align_up(offset, alignment) - offset;
+            memset(push_uninitialized_data(arena, u8, padding), 0, padding);
             
             section_alignment = max_of(section_alignment, alignment);
             
-- 
2.43.0


From e87f4a268ba759862d9b90648b075baea1191c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:57 +0000
Subject: [PATCH 58/83] fix: objects only referencing external thread local
 variables had a relocation against the wrong symbol

---
 src/obj_writer.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index ad59d2c..33776d0 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -1323,7 +1323,13 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
         }
     }
     
-    if(tls_variables.count){
+    b32 tls_index_is_referenced = (tls_variables.count != 0);
+    for_ast_list(external_variables){
+        struct ast_declaration *decl = (struct ast_declaration *)it->value;
+        if(decl->flags & DECLARATION_FLAGS_is_thread_local) tls_index_is_referenced = true;
+    }
+    
+    if(tls_index_is_referenced){
         // If there were tls variables, the index was referenced.
         ast_list_append(&external_variables, scratch, &globals.tls_index_declaration->kind);
     }
-- 
2.43.0


From 5d597e6b3e2ca0033150822f73be07bc816fa05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:40 +0000
Subject: [PATCH 59/83] fix: overaligned tentative definitions were misaligned
 in objects

---
 src/obj_writer.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index 33776d0..1f4ba77 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -1119,6 +1119,19 @@ void codeview_push_debug_s_lines(struct ast_function *function, struct memory_ar
     
 }
 
+// 
+// A tentative definition is emitted as a common symbol, for which we cannot specify an alignment.
+// The linker derives it from the size of the symbol, up to an alignment of 32.
+// 
+func b32 needs_more_alignment_than_a_common_symbol(struct ast_declaration *decl){
+    smm size = get_declaration_size(decl);
+    
+    smm common_alignment = 1;
+    while(common_alignment < 32 && common_alignment < size) common_alignment <<= 1;
+    
+    return get_declaration_alignment(decl) > common_alignment;
+}
+
 void print_obj(struct string output_file_path, struct memory_arena *arena, struct memory_arena *scratch){
     
     struct memory_arena stack_arena = create_memory_arena(giga_bytes(8), 2.0f, kilo_bytes(10));
@@ -1220,7 +1233,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                 if(decl->flags & DECLARATION_FLAGS_is_dllexport){
                     string_list_postfix(&directives, scratch, push_format_string(scratch, "/EXPORT:%.*s,DATA ", decl->identifier->size, decl->identifier->data));
                     
-                    if(decl->assign_expr){
+                    if(decl->assign_expr || needs_more_alignment_than_a_common_symbol(decl)){
                         ast_list_append(&defined_variables, scratch, &decl->kind);
                     }else{
                         ast_list_append(&automatic_variables, scratch, &decl->kind);
@@ -1249,6 +1262,11 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                     continue;
                 }
                 
+                if(needs_more_alignment_than_a_common_symbol(decl)){
+                    ast_list_append(&defined_variables, scratch, &decl->kind);
+                    continue;
+                }
+                
                 ast_list_append(&automatic_variables, scratch, &decl->kind);
                 
             }else if(*ast == IR_function){
-- 
2.43.0


From d647d67d51e1f1f91b83af149d40aa34279809b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:59 +0000
Subject: [PATCH 60/83] fix: static thread local variables in functions crashed
 the compiler or were not thread local

---
 src/coff_writer.c | 8 ++++++--
 src/obj_writer.c  | 7 ++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index 1c3d8c2..7b0dcc1 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -689,7 +689,9 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
                     
                     for_ast_list(function->static_variables){
                         struct ast_declaration *static_decl = (struct ast_declaration *)it->value;
-                        if(static_decl->assign_expr){
+                        if(static_decl->flags & DECLARATION_FLAGS_is_thread_local){
+                            ast_list_append(&tls_declarations, scratch, &static_decl->kind);
+                        }else if(static_decl->assign_expr){
                             ast_list_append(&initialized_declarations, scratch, &static_decl->kind);
                         }else{
                             ast_list_append(&uninitialized_declarations, scratch, &static_decl->kind);
@@ -717,7 +719,9 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
             
             for_ast_list(function->static_variables){
                 struct ast_declaration *decl = cast(struct ast_declaration *)it->value;
-                if(decl->assign_expr){
+                if(decl->flags & DECLARATION_FLAGS_is_thread_local){
+                    ast_list_append(&tls_declarations, scratch, &decl->kind);
+                }else if(decl->assign_expr){
                     ast_list_append(&initialized_declarations, scratch, &decl->kind);
                 }else{
                     ast_list_append(&uninitialized_declarations, scratch, &decl->kind);
diff --git a/src/obj_writer.c b/src/obj_writer.c
index 1f4ba77..04cc5d4 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -1292,7 +1292,12 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                     
                     // @cleanup: These should work different for selectany.
                     for_ast_list(function->static_variables){
-                        ast_list_append(&defined_variables, scratch, it->value);
+                        struct ast_declaration *static_decl = (struct ast_declaration *)it->value;
+                        if(static_decl->flags & DECLARATION_FLAGS_is_thread_local){
+                            ast_list_append(&tls_variables, scratch, &static_decl->kind);
+                        }else{
+                            ast_list_append(&defined_variables, scratch, &static_decl->kind);
+                        }
                     }
                     continue;
                 }
-- 
2.43.0


From ed66de047fc3b20b12b99ec466379133fd4d7c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:59 +0000
Subject: [PATCH 61/83] fix: the compiler crashed on a #pragma pack(push)
 inside of a global declaration

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 07468c8..53cc7c6 100644
--- a/src/main.c
+++ b/src/main.c
@@ -3194,7 +3194,7 @@ func void worker_preprocess_file(struct context *context, struct work_queue_entr
         if(start_pragma_pack_node != context->pragma_pack_stack.first){
             
             int handled = false;
-            if(start_pragma_pack_node->next == context->pragma_pack_stack.first){
+            if(start_pragma_pack_node && start_pragma_pack_node->next == context->pragma_pack_stack.first){
                 // 
                 // Stupid hack for stuff like:
                 //    
-- 
2.43.0


From c92d7f3cc2b32ba99f087f4905fa8946cd243933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:16 +0000
Subject: [PATCH 62/83] fix: the compiler crashed on casts to atomic types

---
 src/parse.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index c0e4385..0cc878f 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -6125,6 +6125,10 @@ case NUMBER_KIND_##type:{ \
                 maybe_load_address_for_array_or_function(context, IR_load_address, &operand);
                 maybe_insert_cast_from_special_int_to_int(context, &operand, /*is_lhs*/0);
                 
+                // :translate_atomic_to_non_atomic_and_back
+                // "The result of a cast has the unqualified version of the type", hence a cast to an atomic type is a cast to the non-atomic type.
+                if(type_to_cast_to->kind == AST_atomic_integer_type) type_to_cast_to = type_to_cast_to - (&globals.typedef_atomic_bool - &globals.typedef_Bool);
+                
                 enum ast_kind kind_to_cast_to = type_to_cast_to->kind;
                 
                 if(kind_to_cast_to == AST_union || kind_to_cast_to == AST_struct){
-- 
2.43.0


From 253e55f8b5f4a39c42f9c8cf6eab0f3c2f33d18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:16 +0000
Subject: [PATCH 63/83] fix: the compiler crashed on a syntax error behind a
 constant condition

---
 src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 0cc878f..27ca3af 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -7546,7 +7546,7 @@ case NUMBER_KIND_##type:{ \
                 maybe_load_address_for_array_or_function(context, IR_load_address, &if_true);
                 maybe_insert_cast_from_special_int_to_int(context, &if_true, /*is_lhs*/0);
                 expect_token(context, TOKEN_colon, "Expected ':' in conditional expression.");
-                if(context->should_exit_statement) return operand;
+                if(context->should_exit_statement) return if_true; // @note: The 'ir' of the 'operand' does not exist anymore.
                 
                 struct ast_stack_entry *entry = ast_stack_push(context, conditional_expression_kind, question_mark, &if_true);
                 
-- 
2.43.0


From fa19240268260b9b573bf7eb6f6c3ead9e14a1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:41 +0000
Subject: [PATCH 64/83] fix: the compiler crashed on an invalid asm operand of
 unknown size

---
 src/parse_asm_block.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse_asm_block.c b/src/parse_asm_block.c
index fd39485..4346d03 100644
--- a/src/parse_asm_block.c
+++ b/src/parse_asm_block.c
@@ -1958,7 +1958,7 @@ func struct asm_instruction *parse_asm_instruction(struct context *context){
     
     smm regm_index = -1;
     for(smm operand_index = 0; operand_index < amount_of_operands; operand_index++){
-        if(asm_instruction->operands[operand_index].size == 0){
+        if(asm_instruction->operands[operand_index].size == 0 && !context->should_exit_statement){
             assert(asm_instruction->operands[operand_index].kind == ASM_ARG_memory_operand || /*[void_ptr]*/asm_instruction->operands[operand_index].kind == ASM_ARG_declaration_dereference);
         }
         
-- 
2.43.0


From affca84b1c07d00a842abf73b2df39862747bcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:21 +0000
Subject: [PATCH 65/83] fix: the compiler did not terminate if the initializer
 of an array of unknown size had an error and its size was needed

---
 src/parse.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 27ca3af..2f5614b 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -2807,7 +2807,8 @@ func void parse_initializer(struct context *context, struct ast_declaration *dec
             // Reset the trailing array size, to not overallocate later on.
             compound_literal->trailing_array_size = 0;
             
-            if(decl->flags & DECLARATION_FLAGS_is_global){
+            // @note: If there was an error or we went to sleep, 'decl->type' will not be set (yet).
+            if((decl->flags & DECLARATION_FLAGS_is_global) && !context->should_exit_statement){
                 struct sleeper_table *sleeper_table = &globals.declaration_sleeper_table;
                 if(decl->flags & DECLARATION_FLAGS_is_static) sleeper_table = &decl->compilation_unit->static_sleeper_table;
                 
-- 
2.43.0


From 61c617bc2039c800e6aa159793c8850f6e3d5e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:25 +0000
Subject: [PATCH 66/83] fix: the compiler crashed when writing an object with a
 printlike call without a format string

---
 src/parse.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index 2f5614b..83585d7 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -3515,6 +3515,14 @@ static void parse_call_to_printlike_function_arguments(struct context *context,
         string_list_postfix(&pretty_print_list, &context->scratch, string("\n"));
         
         format_string_literal->value = string_list_flatten(pretty_print_list, context->arena);
+        
+        struct ast_array_type *type = parser_type_push(context, array_type);
+        type->amount_of_elements = format_string_literal->value.size + 1; // plus one for the zero_terminator
+        type->element_type = &globals.typedef_s8;
+        type->base.size = type->amount_of_elements * type->element_type->size;
+        type->base.alignment = type->element_type->alignment;
+        
+        format_string_literal->type = &type->base;
         return;
     }
     
-- 
2.43.0


From aa55ec44634c6a200205927fd4624a3f81cb605d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:57 +0000
Subject: [PATCH 67/83] fix: the compiler crashed on structures inside of a
 #pragma pack which is not a power of two

---
 src/parse.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index 83585d7..a45d83e 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -1545,6 +1545,11 @@ void parse_and_process_pragma_pack(struct context *context){
                 
                 have_value = 1;
                 value = parsed_integer.value;
+                
+                if(!is_power_of_two(value)){
+                    report_error(context, token, "The alignment of a '#pragma pack' has to be a power of two.");
+                    return;
+                }
             }break;
             
             default: should_break = 1; break;
-- 
2.43.0


From 641fd7c1614847e124361c91f0b7d490d8e80751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:57 +0000
Subject: [PATCH 68/83] fix: the compiler crashed on an invalid asm memory
 operand

---
 src/parse_asm_block.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse_asm_block.c b/src/parse_asm_block.c
index 4346d03..4f9c3cc 100644
--- a/src/parse_asm_block.c
+++ b/src/parse_asm_block.c
@@ -2384,7 +2384,7 @@ func struct asm_instruction *parse_asm_instruction(struct context *context){
     }
     
     // Make sure the instruction has its size inferred.
-    assert(regm_index == -1 || asm_instruction->operands[regm_index].size != 0);
+    assert(regm_index == -1 || asm_instruction->operands[regm_index].size != 0 || context->should_exit_statement);
     
     if(asm_instruction){
         asm_instruction->prefixes = context->current_asm_flags;
-- 
2.43.0


From 32767ed7da7f284d2d3f8d3cf617bee3f4a1ec05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:16 +0000
Subject: [PATCH 69/83] fix: the compiler crashed on asm operands with offsets
 which do not fit into 32 bits

---
 src/parse_asm_block.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parse_asm_block.c b/src/parse_asm_block.c
index 4f9c3cc..49b23e6 100644
--- a/src/parse_asm_block.c
+++ b/src/parse_asm_block.c
@@ -1425,6 +1425,11 @@ func struct asm_operand asm_maybe_parse_expression_operand(struct context *conte
             }
         }
         
+        if((s64)offset != (s32)offset){
+            report_error(context, expr.token, "The offset of an asm memory operand has to fit into 32 bits.");
+            return operand;
+        }
+        
         operand.declaration_offset = offset;
     }
     
-- 
2.43.0


From 965df0a8c0dd5e5f5a5de77552f3410524822815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:16 +0000
Subject: [PATCH 70/83] fix: the compiler crashed on float arguments of inline
 asm functions used with integer instructions

---
 src/emit_x64.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 258499d..59cc2e2 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -1163,6 +1163,13 @@ func void emit_reg_extended_op(struct context *context, struct prefixes prefixes
 func void emit_register_register(struct context *context, struct prefixes prefixes, struct opcode opcode, struct emit_location *_reg, struct emit_location *_regm){
     assert(_reg->state == EMIT_LOCATION_loaded);
     assert(_regm->state == EMIT_LOCATION_loaded);
+    
+    if(context->in_inline_asm_function && _reg->register_kind != _regm->register_kind){
+        // This can happen for arguments of '__declspec(inline_asm)'-functions, as these might be in registers.
+        report_error(context, context->in_inline_asm_function, "An argument of a '__declspec(inline_asm)'-function is used with an instruction that does not support its kind of register.");
+        return;
+    }
+    
     assert(_reg->register_kind == _regm->register_kind);
     
     // @note: allow mismatches for xmm, as it gets weird in inline_asm blocks.
-- 
2.43.0


From a93ce94271686a9dfe86042c90a950b6f6eb0968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:03 +0000
Subject: [PATCH 71/83] fix: the compiler crashed on calls to functions
 returning an atomic type

---
 src/emit_x64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 59cc2e2..b6aaf2f 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -3761,7 +3761,7 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                     break;
                 }
                 
-                assert(return_type->kind == AST_integer_type || return_type->kind == AST_pointer_type);
+                assert(return_type->kind == AST_integer_type || return_type->kind == AST_atomic_integer_type || return_type->kind == AST_pointer_type);
                 emit_location_stack[emit_location_stack_at++] = emit_location_loaded(context, REGISTER_KIND_gpr, REGISTER_A, return_type->size);
             }break;
             
-- 
2.43.0


From 99dc0d89c3f1f537d4fc8380c8669996349b302e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:03 +0000
Subject: [PATCH 72/83] fix: the compiler crashed on printlike arguments of
 atomic types

---
 src/parse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index a45d83e..226414b 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -3177,6 +3177,9 @@ void maybe_insert_implicit_nodes_for_varargs_argument(struct context *context, s
 
 func void get_pretty_print_string_for_type(struct context *context, struct string_list *format_list, struct ast_type *type, struct string flags, struct string field_width, struct string precision, struct string type_specifiers){
     
+    // :translate_atomic_to_non_atomic_and_back
+    if(type->kind == AST_atomic_integer_type) type = type - (&globals.typedef_atomic_bool - &globals.typedef_Bool);
+    
     switch(type->kind){
         case AST_enum:{
             // @cleanup:
-- 
2.43.0


From d817a38a1ae31a15a35d68f512832ed360e30ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:26 +0000
Subject: [PATCH 73/83] fix: the compiler crashed if a _Generic inside of an
 expression had to wait for a later declaration

---
 src/parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 226414b..fad5b62 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -7725,11 +7725,11 @@ case NUMBER_KIND_##type:{ \
     // Remove the artificial invalid ast we put on in the beginning.
     if(did_push){
         struct ast_stack_entry *guard_ast = ast_stack_pop(context);
-        assert(context->error || guard_ast->ast_kind == AST_invalid);
+        assert(context->should_exit_statement || guard_ast->ast_kind == AST_invalid);
     }
     
     // @note: This should never fire as we want to return early if there is an error deeper in the stack.
-    assert(context->error || ast_stack_before == context->ast_stack_at);
+    assert(context->should_exit_statement || ast_stack_before == context->ast_stack_at);
     
     return operand;
 }
-- 
2.43.0


From 6be6e80e695a2e7527d7cb3f209246be39a5bd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:27 +0000
Subject: [PATCH 74/83] fix: the compiler crashed on an invalid expression
 inside of an asm memory operand

---
 src/parse_asm_block.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse_asm_block.c b/src/parse_asm_block.c
index 49b23e6..3cb236d 100644
--- a/src/parse_asm_block.c
+++ b/src/parse_asm_block.c
@@ -1557,6 +1557,7 @@ func struct asm_operand asm_maybe_parse_memory_operand(struct context *context){
         struct token *start_token = get_current_token(context);
         struct asm_operand operand = asm_maybe_parse_expression_operand(context);
         expect_token(context, TOKEN_closed_index, "Expected ']' ending the memory operand.");
+        if(context->should_exit_statement) return operand;
         
         if(operand.kind == ASM_ARG_immediate){
             offset = operand.immediate;
-- 
2.43.0


From a7eade3b315ab930c881da3afa754c06f6ca7b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:52 +0000
Subject: [PATCH 75/83] fix: the compiler crashed on returning a void
 expression from a void function

---
 src/parse.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index fad5b62..af4a5ef 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -9803,6 +9803,10 @@ func void parse_statement(struct context *context){
                 struct expr return_expression = parse_expression(context, false);
                 maybe_load_address_for_array_or_function(context, IR_load_address, &return_expression);
                 maybe_insert_implicit_assignment_cast_and_check_that_types_match(context, current_function_type->return_type, current_function_type->return_type_defined_type, &return_expression, initial_token);
+                
+                if(current_function_type->return_type == &globals.typedef_void){
+                    push_ir(context, IR_pop_expression);
+                }
             }
             
             context->current_statement_returns_a_value = 1;
-- 
2.43.0


From 42ee9aac51a6ecc2a4fef89dff95a23bec2d6789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:52 +0000
Subject: [PATCH 76/83] fix: the compiler crashed on constant divisions of the
 smallest integer by minus one

---
 src/parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index af4a5ef..3d72cc2 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -3030,14 +3030,14 @@ switch(operation->type){                                                  \
         if(rhs_val == 0){                                                 \
             report_error(context, operation, "Integer division by 0.");   \
         }else{                                                            \
-            lhs->_##basic_type = lhs_val / rhs_val;                       \
+            lhs->_##basic_type = ((basic_type)-1 < 0 && rhs_val == (basic_type)-1) ? (basic_type)(0 - (u64)lhs_val) : lhs_val / rhs_val; \
         }                                                                 \
     }break;                                                               \
     case TOKEN_mod:{                                                      \
         if(rhs_val == 0){                                                 \
             report_error(context, operation, "Integer modulation by 0."); \
         }else{                                                            \
-            lhs->_##basic_type = lhs_val % rhs_val;                       \
+            lhs->_##basic_type = ((basic_type)-1 < 0 && rhs_val == (basic_type)-1) ? 0 : lhs_val % rhs_val; \
         }                                                                 \
     }break;                                                               \
     case TOKEN_plus:    lhs->_##basic_type = lhs_val + rhs_val; break;    \
-- 
2.43.0


From f56864ff34041eb463e126ae5b0da388769ff4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:30 +0000
Subject: [PATCH 77/83] fix: the compiler crashed on calls through integer
 constants casted to function pointers

---
 src/emit_x64.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index b6aaf2f..ca8975a 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -3701,6 +3701,10 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                         function_location = function_location->base;
                     }
                     
+                    if(function_location->state == EMIT_LOCATION_immediate){
+                        function_location = emit_load_into_specific_gpr(context, function_location, REGISTER_A);
+                    }
+                    
                     switch(function_location->state){
                         case EMIT_LOCATION_register_relative:{
                             emit_register_relative_extended(context, no_prefix(), one_byte_opcode(REG_EXTENDED_OPCODE_FF), FF_CALL_REGM, function_location);
-- 
2.43.0


From c752a24fe0d9dace2d4b8b6c415fb7366ca14911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:41 +0000
Subject: [PATCH 78/83] fix: alignments above 8192 crashed the compiler or were
 not kept

---
 src/parse.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index 3d72cc2..10bcbcc 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -7881,6 +7881,9 @@ func struct declaration_specifiers parse_declaration_specifiers(struct context *
                     if(!is_power_of_two(value)){
                         report_error(context, token, "Alignment must be a power of two.");
                         value = 1;
+                    }else if(value > 8192){
+                        report_error(context, token, "Alignment must be at most 8192.");
+                        value = 1;
                     }
                     
                     if(specifiers.alignment){
@@ -7938,6 +7941,9 @@ func struct declaration_specifiers parse_declaration_specifiers(struct context *
                     if(!is_power_of_two(value)){
                         report_error(context, directive, "Alignment must be a power of two.");
                         value = 1;
+                    }else if(value > 8192){
+                        report_error(context, directive, "Alignment must be at most 8192.");
+                        value = 1;
                     }
                     
                     if(specifiers.alignment){
@@ -8045,6 +8051,9 @@ case TOKEN_##type_name:{                                                 \
                         if(!is_power_of_two(value)){
                             report_error(context, declspec, "Alignment must be a power of two.");
                             value = 1;
+                        }else if(value > 8192){
+                            report_error(context, declspec, "Alignment must be at most 8192.");
+                            value = 1;
                         }
                         
                         if(declspec_alignment != 1){
-- 
2.43.0


From 09a7985cb669d340893065e27f8c5bfa7396a0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:49 +0000
Subject: [PATCH 79/83] fix: the debug information had the types of pointers to
 char and unsigned char exchanged

---
 src/obj_writer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index 04cc5d4..346a515 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -25,10 +25,10 @@ enum CV_basic_type{
     //CV_u8_pointer = 0x0169,
     
     // char *
-    CV_s8_pointer = 0x0620,
+    CV_s8_pointer = 0x0670,
     
     // unsigned char *
-    CV_u8_pointer = 0x0670,
+    CV_u8_pointer = 0x0620,
 };
 
 void push_f3f2f1_align(struct memory_arena *arena, u32 alignment){
-- 
2.43.0


From f0438c717ae868ea438ebfa84cf6b81269bee69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:49 +0000
Subject: [PATCH 80/83] fix: names and values of negative enumerators were
 wrong in the debug information

---
 src/obj_writer.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index 346a515..ab59f27 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -79,10 +79,10 @@ void push_signed_number_leaf(struct memory_arena *arena, s64 value){
             *push_struct(arena, u16) = (u16)value;
         }else if(value >= s32_min){
             *push_struct(arena, u16) = 0x8003; // LF_LONG
-            *push_struct(arena, u32) = (u32)value;
+            *(u32 *)push_data(arena, u8, sizeof(u32)) = (u32)value;
         }else{
             *push_struct(arena, u16) = 0x8009; // LF_QUADWORD
-            *push_struct(arena, s64) = value;
+            *(s64 *)push_data(arena, u8, sizeof(s64)) = value;
         }
     }
 }
@@ -2279,7 +2279,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                         u16 *length = push_struct(arena, u16);
                         *push_struct(arena, u16) = /*S_CONSTANT*/0x1107;
                         *push_struct(arena, u32) = enum_type_index;
-                        push_unsigned_number_leaf(arena, value);
+                        push_signed_number_leaf(arena, value);
                         push_zero_terminated_string_copy(arena, decl->identifier->string);
                         push_f3f2f1_align(arena, sizeof(u32));
                         *length = (u16)(arena_current(arena)- (u8 *)(length + 1));
-- 
2.43.0


From 0fa85f3196c98085d95e2cd7e3d56ff12635b48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:49 +0000
Subject: [PATCH 81/83] fix: static and external variables were exchanged in
 the debug information of objects

---
 src/obj_writer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index ab59f27..3849115 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -2322,7 +2322,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                             u8  identifier[];
                         } *data_symbol = push_struct_(arena, offset_in_type(struct codeview_data32, identifier) + (decl->identifier->length + 1), 4);
                         
-                        u16 kind = ((decl->flags & DECLARATION_FLAGS_is_thread_local) ? /*S_LTHREAD32*/0x1112 : /* S_LDATA32 */ 0x110c) + ((decl->flags & DECLARATION_FLAGS_is_static) != 0);
+                        u16 kind = ((decl->flags & DECLARATION_FLAGS_is_thread_local) ? /*S_LTHREAD32*/0x1112 : /* S_LDATA32 */ 0x110c) + ((decl->flags & DECLARATION_FLAGS_is_static) == 0);
                         data_symbol->kind = kind;
                         data_symbol->type_index = decl->type->pdb_type_index;
                         memcpy(data_symbol->identifier, decl->identifier->data, decl->identifier->length);
-- 
2.43.0


From 3954a551ffb12865f80d5e21a33e799f476acc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:30 +0000
Subject: [PATCH 82/83] fix: only the first parameter of an #embed directive
 was used

---
 src/preprocess.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/preprocess.c b/src/preprocess.c
index 9c5b32a..406a386 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -4581,6 +4581,8 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                                 report_error(context, parameter, "Unknown #embed-parameter.");
                                 goto end;
                             }
+                            
+                            eat_whitespace_and_comments(context);
                         }
                         
                         struct file *parent_file = globals.file_table.data[directive->file_index];
-- 
2.43.0


From ea7ac88280cb1b362e4c2bd9c29a8efa1055a4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:34 +0000
Subject: [PATCH 83/83] fix: #embed inside of a function was an internal
 compiler error

---
 src/parse.c | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 10bcbcc..3df541e 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -2522,14 +2522,30 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
                 goto error;
             }
             
-            struct ir_embed *ir_embed = push_uninitialized_struct(&context->ir_arena, struct ir_embed);
-            ir_embed->base.kind = IR_embed;
-            ir_embed->token = embed;
-            
-            struct ir_initializer *initializer = push_uninitialized_struct(&context->ir_arena, struct ir_initializer);
-            initializer->base.kind = IR_initializer;
-            initializer->offset = designator_node->offset_at;
-            initializer->lhs_type = current_object_type;
+            if(context->current_function){
+                // 
+                // The backend only knows how to store scalars, hence inside of functions 
+                // we initialize the elements one by one.
+                // 
+                for(smm index = 0; index < (smm)file_data.size; index++){
+                    struct expr element = ast_push_s32_literal(context, type_is_signed(array_type->element_type) ? (s8)file_data.data[index] : (u8)file_data.data[index], embed);
+                    maybe_insert_implicit_assignment_cast_and_check_that_types_match(context, current_object_type, /*@cleanup*/null, &element, site);
+                    
+                    struct ir_initializer *initializer = push_uninitialized_struct(&context->ir_arena, struct ir_initializer);
+                    initializer->base.kind = IR_initializer;
+                    initializer->offset = designator_node->offset_at + index;
+                    initializer->lhs_type = current_object_type;
+                }
+            }else{
+                struct ir_embed *ir_embed = push_uninitialized_struct(&context->ir_arena, struct ir_embed);
+                ir_embed->base.kind = IR_embed;
+                ir_embed->token = embed;
+                
+                struct ir_initializer *initializer = push_uninitialized_struct(&context->ir_arena, struct ir_initializer);
+                initializer->base.kind = IR_initializer;
+                initializer->offset = designator_node->offset_at;
+                initializer->lhs_type = current_object_type;
+            }
             
             // @note: We need to add -1 here, because the code below assumes it was not incremented.
             designator_node->array_at  += (file_data.size - 1); 
-- 
2.43.0

