From 576e4c7756af1e55e3aca7d49099eec170c40495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 01/48] fix: short circuit of and/or under not uses the dual
 operator

---
 src/tree.c | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index f9d4a2b..44f7b5b 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -1476,29 +1476,23 @@ static enum short_circuit_e short_circuit_for_node(
             switch(node->bool_expr.op) {
                 case AST_BOOL_LITERAL:
                     return SHORT_CIRCUIT_NONE;
-                case AST_BOOL_OR: {
-                    enum short_circuit_e lhs
-                        = short_circuit_for_node(id, inverted, node->bool_expr.binary.lhs);
-                    enum short_circuit_e rhs
-                        = short_circuit_for_node(id, inverted, node->bool_expr.binary.rhs);
-                    if(lhs == SHORT_CIRCUIT_PASS || rhs == SHORT_CIRCUIT_PASS) {
-                        return SHORT_CIRCUIT_PASS;
-                    }
-                    if(lhs == SHORT_CIRCUIT_FAIL && rhs == SHORT_CIRCUIT_FAIL) {
-                        return SHORT_CIRCUIT_FAIL;
-                    }
-                    return SHORT_CIRCUIT_NONE;
-                }
+                case AST_BOOL_OR:
                 case AST_BOOL_AND: {
                     enum short_circuit_e lhs
                         = short_circuit_for_node(id, inverted, node->bool_expr.binary.lhs);
                     enum short_circuit_e rhs
                         = short_circuit_for_node(id, inverted, node->bool_expr.binary.rhs);
-                    if(lhs == SHORT_CIRCUIT_FAIL || rhs == SHORT_CIRCUIT_FAIL) {
-                        return SHORT_CIRCUIT_FAIL;
+                    // Under an odd number of not, the operands are already inverted and the
+                    // operator is the dual one: not (a or b) is (not a) and (not b)
+                    bool is_or = (node->bool_expr.op == AST_BOOL_OR) != inverted;
+                    // Decided by any of the operands, otherwise by both of them
+                    enum short_circuit_e any = is_or ? SHORT_CIRCUIT_PASS : SHORT_CIRCUIT_FAIL;
+                    enum short_circuit_e both = is_or ? SHORT_CIRCUIT_FAIL : SHORT_CIRCUIT_PASS;
+                    if(lhs == any || rhs == any) {
+                        return any;
                     }
-                    if(lhs == SHORT_CIRCUIT_PASS && rhs == SHORT_CIRCUIT_PASS) {
-                        return SHORT_CIRCUIT_PASS;
+                    if(lhs == both && rhs == both) {
+                        return both;
                     }
                     return SHORT_CIRCUIT_NONE;
                 }
-- 
2.43.0


From 1aeca6d4e87bc3bc269fb1b99ac548a8c30429ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 02/48] fix: an undefined now does not short circuit
 within_frequency_cap

---
 src/tree.c | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index 44f7b5b..af8fbf9 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -1516,17 +1516,10 @@ static enum short_circuit_e short_circuit_for_node(
             return short_circuit_for_attr_var(id, inverted, node->list_expr.attr_var);
         case AST_TYPE_SPECIAL_EXPR:
             switch(node->special_expr.type) {
-                case AST_SPECIAL_FREQUENCY: {
-                    enum short_circuit_e frequency = short_circuit_for_attr_var(id, inverted, node->special_expr.frequency.attr_var);
-                    enum short_circuit_e now = short_circuit_for_attr_var(id, inverted, node->special_expr.frequency.now);
-                    if(frequency == SHORT_CIRCUIT_FAIL || now == SHORT_CIRCUIT_FAIL) {
-                        return SHORT_CIRCUIT_FAIL;
-                    }
-                    if(frequency == SHORT_CIRCUIT_PASS && now == SHORT_CIRCUIT_PASS) {
-                        return SHORT_CIRCUIT_PASS;
-                    }
-                    return SHORT_CIRCUIT_NONE;
-                }
+                case AST_SPECIAL_FREQUENCY:
+                    // An undefined now decides nothing: without caps the limit is not reached
+                    return short_circuit_for_attr_var(
+                        id, inverted, node->special_expr.frequency.attr_var);
                 case AST_SPECIAL_SEGMENT: {
                     enum short_circuit_e frequency = short_circuit_for_attr_var(id, inverted, node->special_expr.segment.attr_var);
                     enum short_circuit_e now = short_circuit_for_attr_var(id, inverted, node->special_expr.segment.now);
-- 
2.43.0


From dfb6e7f593be5b578c034a5c13b4409e4f661ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 03/48] fix: bound of a negated conjunction covers both sides

---
 src/ast.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ast.c b/src/ast.c
index 22a5266..9c09470 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -1475,6 +1475,13 @@ static void get_variable_bound_inner(const struct attr_domain* domain,
                         domain, node->bool_expr.binary.lhs, &lbound, is_reversed, &ldirty);
                     get_variable_bound_inner(
                         domain, node->bool_expr.binary.rhs, &rbound, is_reversed, &rdirty);
+                    if(is_reversed) {
+                        // not (a and b) is (not a) or (not b): bounded if both sides are
+                        bool min_dirty = ldirty.min_dirty && rdirty.min_dirty;
+                        bool max_dirty = ldirty.max_dirty && rdirty.max_dirty;
+                        ldirty.min_dirty = rdirty.min_dirty = min_dirty;
+                        ldirty.max_dirty = rdirty.max_dirty = max_dirty;
+                    }
                     if(ldirty.min_dirty == true || rdirty.min_dirty == true) {
                         dirty->min_dirty = true;
                         switch(bound->value_type) {
-- 
2.43.0


From 510cff52d5f867134f2363140ddd4a4d81eef826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:02 +0000
Subject: [PATCH 04/48] fix: a float range that can not be divided is atomic

---
 src/tree.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index af8fbf9..e19c716 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -729,8 +729,8 @@ static bool splitable_attr_domain(
             if(feq(attr_domain->bound.fmin, -DBL_MAX) || feq(attr_domain->bound.fmax, DBL_MAX)) {
                 return false;
             }
-            return ((uint64_t)fabs(attr_domain->bound.fmax - attr_domain->bound.fmin))
-                < config->max_domain_for_split;
+            return fabs(attr_domain->bound.fmax - attr_domain->bound.fmin)
+                < (double)config->max_domain_for_split;
         case BETREE_BOOLEAN:
             return true;
         case BETREE_STRING:
@@ -842,7 +842,13 @@ static bool is_atomic(const struct cdir* cdir)
         case(BETREE_INTEGER_LIST):
             return cdir->bound.imin == cdir->bound.imax;
         case(BETREE_FLOAT): {
-            return feq(cdir->bound.fmin, cdir->bound.fmax);
+            // Only the ranges split_value_bound can really divide are not atomic
+            double start = cdir->bound.fmin, end = cdir->bound.fmax;
+            if(fabs(end - start) > 2) {
+                double middle = start + ceil((end - start) / 2);
+                return middle <= start || middle >= end;
+            }
+            return !feq(fabs(end - start), 2) && !feq(fabs(end - start), 1);
         }
         case(BETREE_BOOLEAN): {
             return cdir->bound.bmin == cdir->bound.bmax;
-- 
2.43.0


From ae96495e72b0bea5be78a87b0f8fe1248e797ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 05/48] fix: width of a nearly full integer domain does not
 overflow

---
 src/tree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index e19c716..97c45c9 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -353,7 +353,7 @@ static size_t domain_bound_diff(const struct attr_domain* attr_domain)
                 return SIZE_MAX;
             }
             else {
-                return (size_t)(llabs(b->imax - b->imin));
+                return (size_t)b->imax - (size_t)b->imin;
             }
         case BETREE_FLOAT:
             if(feq(b->fmin, -DBL_MAX) && feq(b->fmax, DBL_MAX)) {
@@ -723,7 +723,7 @@ static bool splitable_attr_domain(
             if(attr_domain->bound.imin == INT64_MIN || attr_domain->bound.imax == INT64_MAX) {
                 return false;
             }
-            return ((uint64_t)llabs(attr_domain->bound.imax - attr_domain->bound.imin))
+            return (uint64_t)attr_domain->bound.imax - (uint64_t)attr_domain->bound.imin
                 < config->max_domain_for_split;
         case BETREE_FLOAT:
             if(feq(attr_domain->bound.fmin, -DBL_MAX) || feq(attr_domain->bound.fmax, DBL_MAX)) {
-- 
2.43.0


From 8248f99b1c0f90067244299f4c648aa20d71c192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 06/48] fix: moving an expression does not move another one
 with the same id

---
 src/tree.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index 97c45c9..1d95b97 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -494,11 +494,11 @@ bool sub_has_attribute_str(struct config* config, const struct betree_sub* sub,
     return sub_has_attribute(sub, variable_id);
 }
 
-static bool remove_sub(betree_sub_t sub, struct lnode* lnode)
+static bool remove_sub(const struct betree_sub* sub, struct lnode* lnode)
 {
     for(size_t i = 0; i < lnode->sub_count; i++) {
-        const struct betree_sub* lnode_sub = lnode->subs[i];
-        if(sub == lnode_sub->id) {
+        // By identity, ids are not unique
+        if(sub == lnode->subs[i]) {
             for(size_t j = i; j < lnode->sub_count - 1; j++) {
                 lnode->subs[j] = lnode->subs[j + 1];
             }
@@ -523,7 +523,7 @@ static bool remove_sub(betree_sub_t sub, struct lnode* lnode)
 
 static void move(const struct betree_sub* sub, struct lnode* origin, struct lnode* destination)
 {
-    bool isFound = remove_sub(sub->id, origin);
+    bool isFound = remove_sub(sub, origin);
     if(!isFound) {
         fprintf(stderr, "Could not find sub %" PRIu64 "\n", sub->id);
         abort();
-- 
2.43.0


From 3c1b9ea2c21d3646cfb4bbfb2f6d387068c2a94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:05 +0000
Subject: [PATCH 07/48] fix: a float within the equality tolerance of a range
 is searched in it

---
 src/tree.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tree.c b/src/tree.c
index 1d95b97..a0c04a5 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -152,7 +152,8 @@ static bool is_event_enclosed(const struct betree_variable** preds, const struct
         case BETREE_INTEGER:
             return (open_left || cdir->bound.imin <= pred->value.integer_value) && (open_right || cdir->bound.imax >= pred->value.integer_value);
         case BETREE_FLOAT:
-            return (open_left || cdir->bound.fmin <= pred->value.float_value) && (open_right || cdir->bound.fmax >= pred->value.float_value);
+            // Float equality and strict bounds both have an epsilon of tolerance
+            return (open_left || cdir->bound.fmin - 2 * __DBL_EPSILON__ <= pred->value.float_value) && (open_right || cdir->bound.fmax + 2 * __DBL_EPSILON__ >= pred->value.float_value);
         case BETREE_STRING:
             return (cdir->bound.smin <= pred->value.string_value.str) && (open_right || cdir->bound.smax >= pred->value.string_value.str);
         case BETREE_INTEGER_ENUM:
-- 
2.43.0


From 166cd10829feb5efa125bb06f7de708a5fe45fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:37 +0000
Subject: [PATCH 08/48] fix: geo_within_radius requires latitude and longitude
 to be configured

---
 src/ast.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ast.c b/src/ast.c
index 9c09470..1cf8c1a 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2664,7 +2664,9 @@ bool all_variables_in_config(const struct config* config, const struct ast_node*
             return false;
         case AST_TYPE_SPECIAL_EXPR:
             switch(node->special_expr.type) {
-                case AST_SPECIAL_GEO: return true;
+                case AST_SPECIAL_GEO:
+                    return is_variable_valid(node->special_expr.geo.latitude_var)
+                        && is_variable_valid(node->special_expr.geo.longitude_var);
                 case AST_SPECIAL_STRING: return is_variable_valid(node->special_expr.string.attr_var);
                 case AST_SPECIAL_FREQUENCY:
                     return is_variable_valid(node->special_expr.frequency.attr_var)
-- 
2.43.0


From 42534e86b2e813225b4b8dfce26ee3369cde829b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:39 +0000
Subject: [PATCH 09/48] fix: a set expression without exactly one variable is
 refused instead of aborting

---
 src/ast.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 1cf8c1a..2728dbe 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2653,14 +2653,16 @@ bool all_variables_in_config(const struct config* config, const struct ast_node*
                 default: abort();
             }
         case AST_TYPE_SET_EXPR:
-            if(node->set_expr.left_value.value_type == AST_SET_LEFT_VALUE_VARIABLE) {
+            // Exactly one side of a set expression is a variable
+            if(node->set_expr.left_value.value_type == AST_SET_LEFT_VALUE_VARIABLE
+                && node->set_expr.right_value.value_type != AST_SET_RIGHT_VALUE_VARIABLE) {
                 return is_variable_valid(node->set_expr.left_value.variable_value);
             }
-            else if(node->set_expr.right_value.value_type == AST_SET_RIGHT_VALUE_VARIABLE) {
+            else if(node->set_expr.left_value.value_type != AST_SET_LEFT_VALUE_VARIABLE
+                && node->set_expr.right_value.value_type == AST_SET_RIGHT_VALUE_VARIABLE) {
                 return is_variable_valid(node->set_expr.right_value.variable_value);
             }
-            fprintf(stderr, "Invalid set expr");
-            abort();
+            fprintf(stderr, "Invalid set expr\n");
             return false;
         case AST_TYPE_SPECIAL_EXPR:
             switch(node->special_expr.type) {
-- 
2.43.0


From adcad3bc83242643b655895e371595eeffe3a46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 10/48] fix: the variables of special expressions must have the
 type they are used with

---
 src/ast.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 2728dbe..e965cfd 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2557,6 +2557,12 @@ bool is_list_type(enum betree_value_type_e type) {
     return type == BETREE_INTEGER_LIST || type == BETREE_STRING_LIST;
 }
 
+static bool is_variable_of_type(
+    const struct config* config, struct attr_var attr_var, enum betree_value_type_e type)
+{
+    return config->attr_domains[attr_var.var]->bound.value_type == type;
+}
+
 bool all_exprs_valid(const struct config* config, const struct ast_node* node)
 {
     switch(node->type) {
@@ -2622,11 +2628,17 @@ bool all_exprs_valid(const struct config* config, const struct ast_node* node)
         case AST_TYPE_SPECIAL_EXPR:
             switch(node->special_expr.type) {
                 case AST_SPECIAL_FREQUENCY:
-                    return node->special_expr.frequency.type != FREQUENCY_TYPE_INVALID;
+                    return node->special_expr.frequency.type != FREQUENCY_TYPE_INVALID
+                        && is_variable_of_type(config, node->special_expr.frequency.attr_var, BETREE_FREQUENCY_CAPS)
+                        && is_variable_of_type(config, node->special_expr.frequency.now, BETREE_INTEGER);
                 case AST_SPECIAL_SEGMENT:
+                    return is_variable_of_type(config, node->special_expr.segment.attr_var, BETREE_SEGMENTS)
+                        && is_variable_of_type(config, node->special_expr.segment.now, BETREE_INTEGER);
                 case AST_SPECIAL_GEO:
+                    return is_variable_of_type(config, node->special_expr.geo.latitude_var, BETREE_FLOAT)
+                        && is_variable_of_type(config, node->special_expr.geo.longitude_var, BETREE_FLOAT);
                 case AST_SPECIAL_STRING:
-                    return true;
+                    return is_variable_of_type(config, node->special_expr.string.attr_var, BETREE_STRING);
                 default: abort();
             }
         default: abort();
-- 
2.43.0


From 328cf50fc808f59be3300e9fbda6048a3e609dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:03 +0000
Subject: [PATCH 11/48] fix: a refused subscription does not use up string and
 enum ids

---
 src/ast.c    | 1 +
 src/betree.c | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index e965cfd..59dd224 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2585,6 +2585,7 @@ bool all_exprs_valid(const struct config* config, const struct ast_node* node)
             return (var_type == BETREE_STRING && val_type == AST_EQUALITY_VALUE_STRING)
                 || (var_type == BETREE_FLOAT && val_type == AST_EQUALITY_VALUE_FLOAT)
                 || (var_type == BETREE_INTEGER && val_type == AST_EQUALITY_VALUE_INTEGER)
+                || (var_type == BETREE_INTEGER_ENUM && val_type == AST_EQUALITY_VALUE_INTEGER)
                 || (var_type == BETREE_INTEGER_ENUM && val_type == AST_EQUALITY_VALUE_INTEGER_ENUM);
         }
         case AST_TYPE_LIST_EXPR: {
diff --git a/src/betree.c b/src/betree.c
index acf6a28..3b2405c 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -515,8 +515,6 @@ const struct betree_sub* betree_make_sub(struct betree* tree, betree_sub_t id, s
         free_ast_node(node);
         return NULL;
     }
-    assign_str_id(tree->config, node, true);
-    assign_ienum_id(tree->config, node, true);
     fix_float_with_no_fractions(tree->config, node);
     if(!all_exprs_valid(tree->config, node)) {
         fprintf(stderr, "Invalid expression found\n");
@@ -528,6 +526,9 @@ const struct betree_sub* betree_make_sub(struct betree* tree, betree_sub_t id, s
         free_ast_node(node);
         return NULL;
     }
+    // Only once the expression can not be refused anymore, ids are never given back
+    assign_str_id(tree->config, node, true);
+    assign_ienum_id(tree->config, node, true);
     sort_lists(node);
     change_boundaries(tree->config, node);
     assign_pred_id(tree->config, node);
-- 
2.43.0


From dbb5132d0957171058af8fa75e6b0c80822fbf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:05 +0000
Subject: [PATCH 12/48] fix: free the expression when its constants can not be
 assigned

---
 src/betree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/betree.c b/src/betree.c
index 3b2405c..7a67c59 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -491,6 +491,7 @@ bool betree_insert_with_constants(struct betree* tree,
     }
     if(!assign_constants(constant_count, constants, node)) {
         fprintf(stderr, "Can't assign constants %ld\n", id);
+        free_ast_node(node);
         return false;
     }
     assign_str_id(tree->config, node, false);
-- 
2.43.0


From 2b844b66255efe0f49974aaaee21bedf76c3752d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:15 +0000
Subject: [PATCH 13/48] fix: direct insertion refuses ill-typed expressions

---
 src/ast.c    | 24 ++++++++++++++++++------
 src/ast.h    |  2 ++
 src/betree.c |  7 ++++++-
 3 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 59dd224..ed80a26 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2563,14 +2563,16 @@ static bool is_variable_of_type(
     return config->attr_domains[attr_var.var]->bound.value_type == type;
 }
 
-bool all_exprs_valid(const struct config* config, const struct ast_node* node)
+static bool all_exprs_valid_inner(
+    const struct config* config, const struct ast_node* node, bool allow_null_on_defined)
 {
     switch(node->type) {
         case AST_TYPE_IS_NULL_EXPR: {
             const struct attr_domain* attr_domain = config->attr_domains[node->is_null_expr.attr_var.var];
             enum betree_value_type_e var_type = attr_domain->bound.value_type;
-            return (node->is_null_expr.type == AST_IS_NULL && attr_domain->allow_undefined)
-                || (node->is_null_expr.type == AST_IS_NOT_NULL && attr_domain->allow_undefined)
+            bool allow_null = allow_null_on_defined || attr_domain->allow_undefined;
+            return (node->is_null_expr.type == AST_IS_NULL && allow_null)
+                || (node->is_null_expr.type == AST_IS_NOT_NULL && allow_null)
                 || (node->is_null_expr.type == AST_IS_EMPTY && is_list_type(var_type));
         }
         case AST_TYPE_COMPARE_EXPR: {
@@ -2604,10 +2606,10 @@ bool all_exprs_valid(const struct config* config, const struct ast_node* node)
                     return true;
                 case AST_BOOL_OR:
                 case AST_BOOL_AND:
-                    return all_exprs_valid(config, node->bool_expr.binary.lhs)
-                        && all_exprs_valid(config, node->bool_expr.binary.rhs);
+                    return all_exprs_valid_inner(config, node->bool_expr.binary.lhs, allow_null_on_defined)
+                        && all_exprs_valid_inner(config, node->bool_expr.binary.rhs, allow_null_on_defined);
                 case AST_BOOL_NOT:
-                    return all_exprs_valid(config, node->bool_expr.unary.expr);
+                    return all_exprs_valid_inner(config, node->bool_expr.unary.expr, allow_null_on_defined);
                 default: abort();
             }
         }
@@ -2646,6 +2648,16 @@ bool all_exprs_valid(const struct config* config, const struct ast_node* node)
     }
 }
 
+bool all_exprs_valid(const struct config* config, const struct ast_node* node)
+{
+    return all_exprs_valid_inner(config, node, false);
+}
+
+bool all_exprs_typed(const struct config* config, const struct ast_node* node)
+{
+    return all_exprs_valid_inner(config, node, true);
+}
+
 bool all_variables_in_config(const struct config* config, const struct ast_node* node)
 {
     switch(node->type) {
diff --git a/src/ast.h b/src/ast.h
index acda1a8..82cb942 100644
--- a/src/ast.h
+++ b/src/ast.h
@@ -342,3 +342,5 @@ bool fast_eq_expr(const struct ast_node* a, const struct ast_node* b);
 bool all_variables_in_config(const struct config* config, const struct ast_node* node);
 bool all_bounded_strings_valid(const struct config* config, const struct ast_node* node);
 bool all_exprs_valid(const struct config* config, const struct ast_node* node);
+// Same, but allows testing for null a variable that is always defined
+bool all_exprs_typed(const struct config* config, const struct ast_node* node);
diff --git a/src/betree.c b/src/betree.c
index 7a67c59..9c26495 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -496,8 +496,13 @@ bool betree_insert_with_constants(struct betree* tree,
     }
     assign_str_id(tree->config, node, false);
     assign_ienum_id(tree->config, node, false);
-    sort_lists(node);
     fix_float_with_no_fractions(tree->config, node);
+    if(!all_exprs_typed(tree->config, node)) {
+        fprintf(stderr, "Invalid expression found\n");
+        free_ast_node(node);
+        return false;
+    }
+    sort_lists(node);
     assign_pred_id(tree->config, node);
     struct betree_sub* sub = make_sub(tree->config, id, node);
     return insert_be_tree(tree->config, sub, tree->cnode, NULL);
-- 
2.43.0


From 05b83718a837cadc94c6cf911c84623cfb0a4ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:16 +0000
Subject: [PATCH 14/48] fix: betree_change_boundaries refuses unknown variables
 and ill-typed expressions

---
 src/betree.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/betree.c b/src/betree.c
index 9c26495..3c4cfef 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -463,10 +463,20 @@ bool betree_change_boundaries(struct betree* tree, const char* expr)
         return false;
     }
     assign_variable_id(tree->config, node);
+    if(!all_variables_in_config(tree->config, node)) {
+        fprintf(stderr, "Missing variable in config\n");
+        free_ast_node(node);
+        return false;
+    }
+    fix_float_with_no_fractions(tree->config, node);
+    if(!all_exprs_typed(tree->config, node)) {
+        fprintf(stderr, "Invalid expression found\n");
+        free_ast_node(node);
+        return false;
+    }
     assign_str_id(tree->config, node, true);
     assign_ienum_id(tree->config, node, true);
     sort_lists(node);
-    fix_float_with_no_fractions(tree->config, node);
     change_boundaries(tree->config, node);
     free_ast_node(node);
     return true;
-- 
2.43.0


From a48360ba6c0646b2f5bf139c169c2de41a5105ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:31 +0000
Subject: [PATCH 15/48] fix: repeated values in the list of an expression do
 not change its meaning

---
 src/ast.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index ed80a26..f5f9291 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2497,10 +2497,10 @@ void sort_lists(struct ast_node* node)
             if(node->set_expr.left_value.value_type == AST_SET_LEFT_VALUE_VARIABLE) {
                 switch(node->set_expr.right_value.value_type) {
                     case AST_SET_RIGHT_VALUE_INTEGER_LIST:
-                        sort_integer_list(node->set_expr.right_value.integer_list_value);
+                        sort_and_remove_duplicate_integer_list(node->set_expr.right_value.integer_list_value);
                         return;
                     case AST_SET_RIGHT_VALUE_STRING_LIST:
-                        sort_string_list(node->set_expr.right_value.string_list_value);
+                        sort_and_remove_duplicate_string_list(node->set_expr.right_value.string_list_value);
                         return;
                     case AST_SET_RIGHT_VALUE_VARIABLE:
                         return;
@@ -2514,10 +2514,10 @@ void sort_lists(struct ast_node* node)
         case AST_TYPE_LIST_EXPR:
             switch(node->list_expr.value.value_type) {
                 case AST_LIST_VALUE_INTEGER_LIST:
-                    sort_integer_list(node->list_expr.value.integer_list_value);
+                    sort_and_remove_duplicate_integer_list(node->list_expr.value.integer_list_value);
                     return;
                 case AST_LIST_VALUE_STRING_LIST:
-                    sort_string_list(node->list_expr.value.string_list_value);
+                    sort_and_remove_duplicate_string_list(node->list_expr.value.string_list_value);
                     return;
                 default: abort();
             }
-- 
2.43.0


From 8a7680bb5fe70ae35c89263cbce7c6d127136bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:46 +0000
Subject: [PATCH 16/48] fix: a bounded vocabulary is checked for the whole
 expression

---
 src/ast.c | 200 ++++++++++++++++++++++++++++--------------------------
 1 file changed, 105 insertions(+), 95 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index f5f9291..4e3ff9d 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2707,136 +2707,146 @@ bool all_variables_in_config(const struct config* config, const struct ast_node*
     }
 }
 
-static size_t get_attr_string_bound(const struct config* config, const char* attr)
-{
-    for(size_t i = 0; i < config->attr_domain_count; i++) {
-        if(strcmp(attr, config->attr_domains[i]->attr_var.attr) == 0) {
-            size_t count = config->attr_domains[i]->bound.smax;
-            if(count == SIZE_MAX) {
-                return count;
-            }
-            return count + 1;
-        }
-    }
-    return SIZE_MAX;
-}
+// The values of one bounded variable that an expression uses and that don't have an id yet
+struct new_values {
+    const struct config* config;
+    const struct attr_domain* domain;
+    struct betree_string_list strings;
+    struct betree_integer_list integers;
+};
 
-static struct string_map* get_string_map_for_attr(const struct config* config, const char* attr)
+static void add_new_string(struct new_values* values, struct attr_var attr_var, struct string_value string)
 {
-    for(size_t i = 0; i < config->string_map_count; i++) {
-        struct string_map* string_map = &config->string_maps[i];
-        if(strcmp(attr, string_map->attr_var.attr) == 0) {
-            return string_map;
+    if(attr_var.var != values->domain->attr_var.var
+        || try_get_id_for_string(values->config, values->domain->attr_var, string.string) != INVALID_STR) {
+        return;
+    }
+    for(size_t i = 0; i < values->strings.count; i++) {
+        if(strcmp(values->strings.strings[i].string, string.string) == 0) {
+            return;
         }
     }
-    return NULL;
+    // Borrowed from the expression
+    add_string_list_value(string, &values->strings);
 }
 
-static bool str_valid(const struct config* config, const char* attr, const char* string)
+static void add_new_strings(
+    struct new_values* values, struct attr_var attr_var, const struct betree_string_list* strings)
 {
-    size_t bound = get_attr_string_bound(config, attr);
-    struct string_map* string_map = get_string_map_for_attr(config, attr);
-    size_t space_left = string_map == NULL ? bound : bound - string_map->string_value_count;
-    if(string_map != NULL) {
-        betree_str_t* str = map_get(&string_map->m, string);
-        if(str != NULL) {
-            return true;
-        }
-    }
-    bool within_bound = space_left > 0;
-    if(within_bound == false) {
-        fprintf(stderr,
-            "For attr '%s', string '%s' could not fit within the bound %zu\n",
-            attr,
-            string,
-            bound);
+    for(size_t i = 0; i < strings->count; i++) {
+        add_new_string(values, attr_var, strings->strings[i]);
     }
-    return within_bound;
 }
 
-static bool strs_valid(
-    const struct config* config, const char* attr, const struct betree_string_list* strings)
+static void add_new_integer(struct new_values* values, struct attr_var attr_var, int64_t integer)
 {
-    size_t bound = get_attr_string_bound(config, attr);
-    if(bound == SIZE_MAX) {
-        return true;
+    if(attr_var.var != values->domain->attr_var.var
+        || try_get_id_for_ienum(values->config, values->domain->attr_var, integer) != INVALID_IENUM) {
+        return;
     }
-    struct string_map* string_map = get_string_map_for_attr(config, attr);
-    size_t space_left = string_map == NULL ? bound : bound - string_map->string_value_count;
-    size_t found = 0;
-    if(string_map != NULL) {
-        for(size_t i = 0; i < strings->count; i++) {
-            const char* string = strings->strings[i].string;
-            betree_str_t* str = map_get(&string_map->m, string);
-            if(str != NULL) {
-                found++;
-            }
+    for(size_t i = 0; i < values->integers.count; i++) {
+        if(values->integers.integers[i] == integer) {
+            return;
         }
     }
-    size_t needed = strings->count - found;
-    bool within_bound = space_left >= needed;
-    if(within_bound == false) {
-        fprintf(stderr,
-            "For attr '%s', not all strings could not fit within the bound %zu\n",
-            attr,
-            bound);
-    }
-    return within_bound;
+    add_integer_list_value(integer, &values->integers);
 }
 
-bool all_bounded_strings_valid(const struct config* config, const struct ast_node* node)
+static void add_new_values(struct new_values* values, const struct ast_node* node)
 {
     switch(node->type) {
         case AST_TYPE_IS_NULL_EXPR:
         case AST_TYPE_COMPARE_EXPR:
-            return true;
-        case AST_TYPE_EQUALITY_EXPR:
-            if(node->equality_expr.value.value_type == AST_EQUALITY_VALUE_STRING) {
-                return str_valid(config,
-                    node->equality_expr.attr_var.attr,
-                    node->equality_expr.value.string_value.string);
+        case AST_TYPE_SPECIAL_EXPR:
+            return;
+        case AST_TYPE_EQUALITY_EXPR: {
+            const struct equality_value* value = &node->equality_expr.value;
+            if(value->value_type == AST_EQUALITY_VALUE_STRING) {
+                add_new_string(values, node->equality_expr.attr_var, value->string_value);
             }
-            return true;
+            else if(value->value_type == AST_EQUALITY_VALUE_INTEGER) {
+                add_new_integer(values, node->equality_expr.attr_var, value->integer_value);
+            }
+            return;
+        }
         case AST_TYPE_BOOL_EXPR:
             switch(node->bool_expr.op) {
                 case AST_BOOL_OR:
-                case AST_BOOL_AND: {
-                    bool lhs = all_bounded_strings_valid(config, node->bool_expr.binary.lhs);
-                    if(lhs == false) {
-                        return false;
-                    }
-                    return all_bounded_strings_valid(config, node->bool_expr.binary.rhs);
-                }
+                case AST_BOOL_AND:
+                    add_new_values(values, node->bool_expr.binary.lhs);
+                    add_new_values(values, node->bool_expr.binary.rhs);
+                    return;
                 case AST_BOOL_NOT:
-                    return all_bounded_strings_valid(config, node->bool_expr.unary.expr);
+                    add_new_values(values, node->bool_expr.unary.expr);
+                    return;
                 case AST_BOOL_VARIABLE:
                 case AST_BOOL_LITERAL:
-                    return true;
+                    return;
                 default: abort();
             }
-        case AST_TYPE_SET_EXPR:
-            if(node->set_expr.left_value.value_type == AST_SET_LEFT_VALUE_VARIABLE
-                && node->set_expr.right_value.value_type == AST_SET_RIGHT_VALUE_STRING_LIST) {
-                return strs_valid(config,
-                    node->set_expr.left_value.variable_value.attr,
-                    node->set_expr.right_value.string_list_value);
+        case AST_TYPE_SET_EXPR: {
+            const struct set_left_value* left = &node->set_expr.left_value;
+            const struct set_right_value* right = &node->set_expr.right_value;
+            if(left->value_type == AST_SET_LEFT_VALUE_VARIABLE
+                && right->value_type == AST_SET_RIGHT_VALUE_STRING_LIST) {
+                add_new_strings(values, left->variable_value, right->string_list_value);
             }
-            if(node->set_expr.right_value.value_type == AST_SET_RIGHT_VALUE_VARIABLE
-                && node->set_expr.left_value.value_type == AST_SET_LEFT_VALUE_STRING) {
-                return str_valid(config,
-                    node->set_expr.right_value.variable_value.attr,
-                    node->set_expr.left_value.string_value.string);
+            if(right->value_type == AST_SET_RIGHT_VALUE_VARIABLE
+                && left->value_type == AST_SET_LEFT_VALUE_STRING) {
+                add_new_string(values, right->variable_value, left->string_value);
             }
-            return true;
+            return;
+        }
         case AST_TYPE_LIST_EXPR:
             if(node->list_expr.value.value_type == AST_LIST_VALUE_STRING_LIST) {
-                return strs_valid(
-                    config, node->list_expr.attr_var.attr, node->list_expr.value.string_list_value);
+                add_new_strings(
+                    values, node->list_expr.attr_var, node->list_expr.value.string_list_value);
             }
-            return true;
-        case AST_TYPE_SPECIAL_EXPR:
-            return true;
+            return;
         default: abort();
     }
 }
 
+static size_t count_known_values(const struct config* config, betree_var_t var)
+{
+    for(size_t i = 0; i < config->string_map_count; i++) {
+        if(config->string_maps[i].attr_var.var == var) {
+            return config->string_maps[i].string_value_count;
+        }
+    }
+    for(size_t i = 0; i < config->integer_map_count; i++) {
+        if(config->integer_maps[i].attr_var.var == var) {
+            return config->integer_maps[i].integer_value_count;
+        }
+    }
+    return 0;
+}
+
+// Can all the strings and enums of the expression be given an id within the bound of their variable
+bool all_bounded_strings_valid(const struct config* config, const struct ast_node* node)
+{
+    for(size_t i = 0; i < config->attr_domain_count; i++) {
+        const struct attr_domain* domain = config->attr_domains[i];
+        enum betree_value_type_e type = domain->bound.value_type;
+        bool is_string = type == BETREE_STRING || type == BETREE_STRING_LIST;
+        if((!is_string && type != BETREE_INTEGER_ENUM) || domain->bound.smax == SIZE_MAX - 1) {
+            continue;
+        }
+        struct new_values values = { .config = config, .domain = domain };
+        add_new_values(&values, node);
+        size_t known = count_known_values(config, domain->attr_var.var);
+        size_t needed = is_string ? values.strings.count : values.integers.count;
+        size_t bound = domain->bound.smax + 1;
+        bfree(values.strings.strings);
+        bfree(values.integers.integers);
+        if(needed > 0 && (known > bound || needed > bound - known)) {
+            fprintf(stderr,
+                "For attr '%s', not all values could fit within the bound %zu\n",
+                domain->attr_var.attr,
+                bound);
+            return false;
+        }
+    }
+    return true;
+}
+
-- 
2.43.0


From a44221cc9955290957709c94ecd8457884031239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:48 +0000
Subject: [PATCH 17/48] fix: frequency cap namespaces are not limited to one

---
 src/config.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/config.c b/src/config.c
index 0a9ec96..10e01d3 100644
--- a/src/config.c
+++ b/src/config.c
@@ -194,7 +194,8 @@ void add_attr_domain_segments(struct config* config, const char* attr, bool allo
 
 void add_attr_domain_frequency(struct config* config, const char* attr, bool allow_undefined)
 {
-    struct value_bound bound = { .value_type = BETREE_FREQUENCY_CAPS };
+    // No limit on the number of namespaces
+    struct value_bound bound = { .value_type = BETREE_FREQUENCY_CAPS, .smin = 0, .smax = SIZE_MAX - 1 };
     add_attr_domain(config, attr, bound, allow_undefined);
 }
 
-- 
2.43.0


From f0a2b7c88ddf3130d83cf284b74de23e96e8195c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:24 +0000
Subject: [PATCH 18/48] fix: a refused event does not leak its environment

---
 src/betree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/betree.c b/src/betree.c
index 3c4cfef..b1c69bc 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -579,6 +579,7 @@ static bool betree_search_with_event_filled(const struct betree* betree, struct
         = make_environment(betree->config->attr_domain_count, event);
     if(validate_variables(betree->config, variables) == false) {
         fprintf(stderr, "Failed to validate event\n");
+        bfree(variables);
         return false;
     }
     return betree_search_with_preds(betree->config, variables, betree->cnode, report);
-- 
2.43.0


From 179b9c81566043bab1f7dbbfa398e971c4376792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:02 +0000
Subject: [PATCH 19/48] fix: an unknown character is a syntax error, not the
 end of the text

---
 src/event_lexer.c | 2 +-
 src/event_lexer.l | 2 +-
 src/lexer.c       | 2 +-
 src/lexer.l       | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/event_lexer.c b/src/event_lexer.c
index 60810a9..4622588 100644
--- a/src/event_lexer.c
+++ b/src/event_lexer.c
@@ -1107,7 +1107,7 @@ SAVE_FLOAT; return EVENT_FLOAT;
 case 16:
 YY_RULE_SETUP
 #line 50 "src/event_lexer.l"
-printf("Unknown token! (%s)\n", yytext); yyterminate();
+printf("Unknown token! (%s)\n", yytext); return (unsigned char)yytext[0];
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
diff --git a/src/event_lexer.l b/src/event_lexer.l
index 4c11217..29ea1c9 100644
--- a/src/event_lexer.l
+++ b/src/event_lexer.l
@@ -47,7 +47,7 @@
 [0-9]+              SAVE_INTEGER; return EVENT_INTEGER;
 [0-9]+\.[0-9]*      SAVE_FLOAT; return EVENT_FLOAT;
 
-.                   printf("Unknown token! (%s)\n", yytext); yyterminate();
+.                   printf("Unknown token! (%s)\n", yytext); return (unsigned char)yytext[0];
 
 %%
 
diff --git a/src/lexer.c b/src/lexer.c
index 9661314..23ff03e 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -1304,7 +1304,7 @@ SAVE_FLOAT; return TFLOAT;
 case 39:
 YY_RULE_SETUP
 #line 73 "src/lexer.l"
-printf("Unknown token! (%s)\n", yytext); yyterminate();
+printf("Unknown token! (%s)\n", yytext); return (unsigned char)yytext[0];
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
diff --git a/src/lexer.l b/src/lexer.l
index 60b5e95..fd5f3b3 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -70,7 +70,7 @@
 [a-zA-Z_][a-zA-Z0-9_-]*     SAVE_IDENTIFIER; return TIDENTIFIER;
 [0-9]+                      SAVE_INTEGER; return TINTEGER;
 [0-9]+\.[0-9]*              SAVE_FLOAT; return TFLOAT;
-.                           printf("Unknown token! (%s)\n", yytext); yyterminate();
+.                           printf("Unknown token! (%s)\n", yytext); return (unsigned char)yytext[0];
 
 %%
 
-- 
2.43.0


From acc039327258309f6e1e6efc5218db0e4ebcbc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:15 +0000
Subject: [PATCH 20/48] fix: not in followed by an identifier character is not
 the set operator

---
 src/lexer.c | 197 +++++++++++++++++++++++++++-------------------------
 src/lexer.l |   2 +-
 2 files changed, 102 insertions(+), 97 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index 23ff03e..89fcbf9 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -570,7 +570,7 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const flex_int16_t yy_accept[175] =
+static const flex_int16_t yy_accept[176] =
     {   0,
         0,    0,   41,   39,    1,    1,   39,   39,   39,   16,
        17,   18,    9,   37,   14,   10,   12,   36,   36,   36,
@@ -584,13 +584,13 @@ static const flex_int16_t yy_accept[175] =
        36,   33,   36,    0,    0,    0,    0,    0,    0,   36,
 
        36,   36,   23,   36,   36,   36,    0,    0,    0,    0,
-       19,   21,   36,   36,   36,   36,   36,   36,    0,    0,
-       30,   22,   36,   36,   36,    6,   36,   36,   31,    0,
-       36,   36,   36,    8,   36,    0,   36,   36,   36,   36,
-       36,    0,   36,   36,   36,   36,   36,   29,   36,   36,
-        7,   36,   36,   36,   36,   36,   36,   36,   36,   36,
-       36,    4,    3,   36,   36,   36,   36,   36,    5,   36,
-       36,   36,    2,    0
+        0,   21,   36,   36,   36,   36,   36,   36,    0,    0,
+       30,   22,   19,   36,   36,   36,    6,   36,   36,   31,
+        0,   36,   36,   36,    8,   36,    0,   36,   36,   36,
+       36,   36,    0,   36,   36,   36,   36,   36,   29,   36,
+       36,    7,   36,   36,   36,   36,   36,   36,   36,   36,
+       36,   36,    4,    3,   36,   36,   36,   36,   36,    5,
+       36,   36,   36,    2,    0
     } ;
 
 static const YY_CHAR yy_ec[256] =
@@ -634,53 +634,53 @@ static const YY_CHAR yy_meta[42] =
         1
     } ;
 
-static const flex_int16_t yy_base[178] =
+static const flex_int16_t yy_base[180] =
     {   0,
-        0,    0,  196,  197,  197,  197,   37,  189,   36,  197,
-      197,  197,  197,   32,   31,  197,  179,    0,   19,  161,
-      161,  171,  166,   20,  157,   18,   28,  153,  159,  145,
-       52,  197,  182,  197,   51,  197,  181,  170,   47,  197,
-      197,  197,    0,  153,  158,  149,  156,  149,  145,    0,
-      172,   30,  151,    0,  148,  153,  134,  134,  197,  157,
-      165,    0,  131,  131,  130,  146,   40,  140,  159,  158,
-      131,  125,  135,  131,  125,  136,  136,  130,  114,  122,
-       30,  147,  122,  117,  124,  110,    0,  118,  120,  116,
-      104,    0,  114,  108,  103,  110,  106,  106,  111,  104,
-
-       98,  102,  197,  101,  103,   93,   92,  124,   98,  101,
-      197,  197,   88,  105,  104,   86,   84,   93,   79,   87,
-      197,  197,   98,   77,   90,    0,   87,   85,  197,   74,
-       42,   83,   75,    0,   78,   79,   83,   78,   68,   80,
-       84,   73,   76,   63,   72,   64,   62,  197,   64,   68,
-        0,   56,   73,   57,   63,   66,   66,   64,   56,   55,
-       52,    0,    0,   57,   40,   37,   40,   56,    0,   52,
-       53,   39,    0,  197,   81,   83,   64
+        0,    0,  197,  198,  198,  198,   37,  190,   36,  198,
+      198,  198,  198,   32,   31,  198,  180,    0,   19,  162,
+      162,  172,  167,   20,  158,   18,   28,  154,  160,  146,
+       52,  198,  183,  198,   51,  198,  182,  171,   47,  198,
+      198,  198,    0,  154,  159,  150,  157,  150,  146,    0,
+      173,   30,  152,    0,  149,  154,  135,  135,  198,  158,
+      166,    0,  132,  132,  131,  147,   40,  141,  160,  159,
+      132,  126,  136,  132,  126,  137,  137,  131,  115,  123,
+       30,  148,  123,  118,  125,  111,    0,  119,  121,  117,
+      105,    0,  115,  109,  104,  111,  107,  107,  112,  105,
+
+       99,  103,  198,  102,  104,   94,   93,  125,   99,  102,
+        0,  198,   89,  106,  105,   87,   85,   94,   80,   88,
+      198,  198,  198,   99,   78,   91,    0,   88,   86,  198,
+       75,   42,   84,   76,    0,   79,   80,   84,   79,   69,
+       81,   85,   74,   77,   64,   73,   65,   63,  198,   65,
+       69,    0,   57,   74,   58,   64,   67,   67,   65,   57,
+       56,   58,    0,    0,   58,   41,   38,   41,   57,    0,
+       53,   54,   40,    0,  198,   81,   83,   70,   65
     } ;
 
-static const flex_int16_t yy_def[178] =
+static const flex_int16_t yy_def[180] =
     {   0,
-      174,    1,  174,  174,  174,  174,  175,  174,  176,  174,
-      174,  174,  174,  174,  174,  174,  174,  177,  177,  177,
-      177,  177,  177,  177,  177,  177,  177,  177,  177,  174,
-      175,  174,  175,  174,  176,  174,  176,  174,  174,  174,
-      174,  174,  177,  177,  177,  177,  177,  177,  177,  177,
-      177,  177,  177,  177,  177,  177,  177,  177,  174,  174,
-      177,  177,  177,  177,  177,  177,  174,  177,  177,  177,
-      177,  177,  177,  177,  174,  177,  177,  177,  177,  174,
-      174,  177,  174,  174,  177,  177,  177,  177,  174,  177,
-      177,  177,  177,  174,  174,  174,  174,  174,  174,  177,
-
-      177,  177,  174,  177,  177,  177,  174,  174,  174,  174,
-      174,  174,  177,  177,  177,  177,  177,  177,  174,  174,
-      174,  174,  177,  177,  177,  177,  177,  177,  174,  174,
-      177,  177,  177,  177,  177,  174,  177,  177,  177,  177,
-      177,  174,  177,  177,  177,  177,  177,  174,  177,  177,
-      177,  177,  177,  177,  177,  177,  177,  177,  177,  177,
-      177,  177,  177,  177,  177,  177,  177,  177,  177,  177,
-      177,  177,  177,    0,  174,  174,  174
+      175,    1,  175,  175,  175,  175,  176,  175,  177,  175,
+      175,  175,  175,  175,  175,  175,  175,  178,  178,  178,
+      178,  178,  178,  178,  178,  178,  178,  178,  178,  175,
+      176,  175,  176,  175,  177,  175,  177,  175,  175,  175,
+      175,  175,  178,  178,  178,  178,  178,  178,  178,  178,
+      178,  178,  178,  178,  178,  178,  178,  178,  175,  175,
+      178,  178,  178,  178,  178,  178,  175,  178,  178,  178,
+      178,  178,  178,  178,  175,  178,  178,  178,  178,  175,
+      175,  178,  175,  175,  178,  178,  178,  178,  175,  178,
+      178,  178,  178,  175,  175,  175,  175,  175,  175,  178,
+
+      178,  178,  175,  178,  178,  178,  175,  175,  175,  175,
+      179,  175,  178,  178,  178,  178,  178,  178,  175,  175,
+      175,  175,  175,  178,  178,  178,  178,  178,  178,  175,
+      175,  178,  178,  178,  178,  178,  175,  178,  178,  178,
+      178,  178,  175,  178,  178,  178,  178,  178,  175,  178,
+      178,  178,  178,  178,  178,  178,  178,  178,  178,  178,
+      178,  178,  178,  178,  178,  178,  178,  178,  178,  178,
+      178,  178,  178,  178,    0,  175,  175,  175,  175
     } ;
 
-static const flex_int16_t yy_nxt[239] =
+static const flex_int16_t yy_nxt[240] =
     {   0,
         4,    5,    6,    5,    7,    8,    9,   10,   11,   12,
        13,    4,   14,   15,   16,   17,   18,    4,   18,   19,
@@ -688,29 +688,29 @@ static const flex_int16_t yy_nxt[239] =
        25,   26,   18,   18,   18,   27,   28,   18,   29,   18,
        30,   32,   36,   38,   39,   40,   41,   44,   53,   45,
        50,   55,   54,   37,   33,   51,   32,   36,   38,   39,
-       68,   95,  137,   80,   56,   43,   69,   96,   37,   33,
-       81,  173,  172,  171,  170,  169,  168,  167,  166,  165,
-      138,   31,   31,   35,   35,  164,  163,  162,  161,  160,
-      159,  158,  157,  156,  155,  154,  153,  152,  151,  150,
-
-      149,  148,  147,  146,  145,  144,  143,  142,  141,  140,
-      139,  136,  135,  134,  133,  132,  131,  130,  129,  128,
-      127,  126,  125,  124,  123,  122,  121,  120,  119,  118,
-      117,  116,  115,  114,  113,  112,  111,  110,  109,  108,
-      107,  106,  105,  104,  103,  102,  101,  100,   99,   98,
-       97,   94,   93,   92,   91,   90,   89,   88,   87,   86,
-       85,   84,   83,   82,   79,   78,   77,   76,   75,   60,
-       74,   73,   72,   71,   70,   67,   66,   65,   64,   63,
-       62,   61,   60,  174,  174,   59,   58,   57,   52,   49,
-       48,   47,   46,   42,   34,  174,    3,  174,  174,  174,
-
-      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
-      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
-      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
-      174,  174,  174,  174,  174,  174,  174,  174
+       68,   95,  138,   80,   56,  123,   69,   96,   37,   33,
+       81,   43,  174,  173,  172,  171,  170,  169,  168,  167,
+      139,   31,   31,   35,   35,  166,  165,  164,  163,  162,
+      161,  160,  159,  158,  157,  156,  155,  154,  153,  152,
+
+      151,  150,  149,  148,  147,  146,  145,  144,  143,  142,
+      141,  140,  137,  136,  135,  134,  133,  132,  131,  130,
+      129,  128,  127,  126,  125,  124,  122,  121,  120,  119,
+      118,  117,  116,  115,  114,  113,  112,  111,  110,  109,
+      108,  107,  106,  105,  104,  103,  102,  101,  100,   99,
+       98,   97,   94,   93,   92,   91,   90,   89,   88,   87,
+       86,   85,   84,   83,   82,   79,   78,   77,   76,   75,
+       60,   74,   73,   72,   71,   70,   67,   66,   65,   64,
+       63,   62,   61,   60,  175,  175,   59,   58,   57,   52,
+       49,   48,   47,   46,   42,   34,  175,    3,  175,  175,
+
+      175,  175,  175,  175,  175,  175,  175,  175,  175,  175,
+      175,  175,  175,  175,  175,  175,  175,  175,  175,  175,
+      175,  175,  175,  175,  175,  175,  175,  175,  175,  175,
+      175,  175,  175,  175,  175,  175,  175,  175,  175
     } ;
 
-static const flex_int16_t yy_chk[239] =
+static const flex_int16_t yy_chk[240] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
@@ -718,26 +718,26 @@ static const flex_int16_t yy_chk[239] =
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    7,    9,   14,   14,   15,   15,   19,   26,   19,
        24,   27,   26,    9,    7,   24,   31,   35,   39,   39,
-       52,   81,  131,   67,   27,  177,   52,   81,   35,   31,
-       67,  172,  171,  170,  168,  167,  166,  165,  164,  161,
-      131,  175,  175,  176,  176,  160,  159,  158,  157,  156,
-      155,  154,  153,  152,  150,  149,  147,  146,  145,  144,
-
-      143,  142,  141,  140,  139,  138,  137,  136,  135,  133,
-      132,  130,  128,  127,  125,  124,  123,  120,  119,  118,
-      117,  116,  115,  114,  113,  110,  109,  108,  107,  106,
-      105,  104,  102,  101,  100,   99,   98,   97,   96,   95,
-       94,   93,   91,   90,   89,   88,   86,   85,   84,   83,
-       82,   80,   79,   78,   77,   76,   75,   74,   73,   72,
-       71,   70,   69,   68,   66,   65,   64,   63,   61,   60,
-       58,   57,   56,   55,   53,   51,   49,   48,   47,   46,
-       45,   44,   38,   37,   33,   30,   29,   28,   25,   23,
-       22,   21,   20,   17,    8,    3,  174,  174,  174,  174,
-
-      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
-      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
-      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
-      174,  174,  174,  174,  174,  174,  174,  174
+       52,   81,  132,   67,   27,  179,   52,   81,   35,   31,
+       67,  178,  173,  172,  171,  169,  168,  167,  166,  165,
+      132,  176,  176,  177,  177,  162,  161,  160,  159,  158,
+      157,  156,  155,  154,  153,  151,  150,  148,  147,  146,
+
+      145,  144,  143,  142,  141,  140,  139,  138,  137,  136,
+      134,  133,  131,  129,  128,  126,  125,  124,  120,  119,
+      118,  117,  116,  115,  114,  113,  110,  109,  108,  107,
+      106,  105,  104,  102,  101,  100,   99,   98,   97,   96,
+       95,   94,   93,   91,   90,   89,   88,   86,   85,   84,
+       83,   82,   80,   79,   78,   77,   76,   75,   74,   73,
+       72,   71,   70,   69,   68,   66,   65,   64,   63,   61,
+       60,   58,   57,   56,   55,   53,   51,   49,   48,   47,
+       46,   45,   44,   38,   37,   33,   30,   29,   28,   25,
+       23,   22,   21,   20,   17,    8,    3,  175,  175,  175,
+
+      175,  175,  175,  175,  175,  175,  175,  175,  175,  175,
+      175,  175,  175,  175,  175,  175,  175,  175,  175,  175,
+      175,  175,  175,  175,  175,  175,  175,  175,  175,  175,
+      175,  175,  175,  175,  175,  175,  175,  175,  175
     } ;
 
 /* The intent behind this definition is that it'll catch
@@ -1078,13 +1078,13 @@ yy_match:
 			while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 				{
 				yy_current_state = (int) yy_def[yy_current_state];
-				if ( yy_current_state >= 175 )
+				if ( yy_current_state >= 176 )
 					yy_c = yy_meta[yy_c];
 				}
 			yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 			++yy_cp;
 			}
-		while ( yy_base[yy_current_state] != 197 );
+		while ( yy_base[yy_current_state] != 198 );
 
 yy_find_action:
 		yy_act = yy_accept[yy_current_state];
@@ -1200,6 +1200,11 @@ YY_RULE_SETUP
 return TOKEN(TCOMMA);
 	YY_BREAK
 case 19:
+/* rule 19 can match eol */
+*yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
+YY_LINENO_REWIND_TO(yy_bp + 6);
+yyg->yy_c_buf_p = yy_cp = yy_bp + 6;
+YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
 #line 53 "src/lexer.l"
 return TOKEN(TNOTIN);
@@ -1311,7 +1316,7 @@ YY_RULE_SETUP
 #line 75 "src/lexer.l"
 ECHO;
 	YY_BREAK
-#line 1315 "src/lexer.c"
+#line 1320 "src/lexer.c"
 case YY_STATE_EOF(INITIAL):
 	yyterminate();
 
@@ -1610,7 +1615,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 		while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 			{
 			yy_current_state = (int) yy_def[yy_current_state];
-			if ( yy_current_state >= 175 )
+			if ( yy_current_state >= 176 )
 				yy_c = yy_meta[yy_c];
 			}
 		yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
@@ -1639,11 +1644,11 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 	while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 		{
 		yy_current_state = (int) yy_def[yy_current_state];
-		if ( yy_current_state >= 175 )
+		if ( yy_current_state >= 176 )
 			yy_c = yy_meta[yy_c];
 		}
 	yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
-	yy_is_jam = (yy_current_state == 174);
+	yy_is_jam = (yy_current_state == 175);
 
 	(void)yyg;
 	return yy_is_jam ? 0 : yy_current_state;
diff --git a/src/lexer.l b/src/lexer.l
index fd5f3b3..d3efbc4 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -50,7 +50,7 @@
 "("                         return TOKEN(TLPAREN);
 ")"                         return TOKEN(TRPAREN);
 ","                         return TOKEN(TCOMMA);
-"not in"                    return TOKEN(TNOTIN);
+"not in"/[^a-zA-Z0-9_-]     return TOKEN(TNOTIN);
 "in"                        return TOKEN(TIN);
 "one of"                    return TOKEN(TONEOF);
 "none of"                   return TOKEN(TNONEOF);
-- 
2.43.0


From 43661f72f77a86e7738f9bfa098fe0be426dbf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:27 +0000
Subject: [PATCH 21/48] fix: a syntax error in an expression does not leak what
 was read before it

---
 src/ast.c    |  39 +++--
 src/ast.h    |   3 +
 src/parser.c | 464 ++++++++++++++++++++++++++++++++++-----------------
 src/parser.y |  15 ++
 4 files changed, 356 insertions(+), 165 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 4e3ff9d..f6da0fa 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -274,52 +274,67 @@ static void free_special_expr(struct ast_special_expr special_expr)
     }
 }
 
-static void free_set_expr(struct ast_set_expr set_expr)
+void free_set_left_value(struct set_left_value left_value)
 {
-    switch(set_expr.left_value.value_type) {
+    switch(left_value.value_type) {
         case AST_SET_LEFT_VALUE_INTEGER: {
             break;
         }
         case AST_SET_LEFT_VALUE_STRING: {
-            bfree((char*)set_expr.left_value.string_value.string);
+            bfree((char*)left_value.string_value.string);
             break;
         }
         case AST_SET_LEFT_VALUE_VARIABLE: {
-            free_attr_var(set_expr.left_value.variable_value);
+            free_attr_var(left_value.variable_value);
             break;
         }
         default: abort();
     }
-    switch(set_expr.right_value.value_type) {
+}
+
+void free_set_right_value(struct set_right_value right_value)
+{
+    switch(right_value.value_type) {
         case AST_SET_RIGHT_VALUE_INTEGER_LIST: {
-            free_integer_list(set_expr.right_value.integer_list_value);
+            free_integer_list(right_value.integer_list_value);
             break;
         }
         case AST_SET_RIGHT_VALUE_STRING_LIST: {
-            free_string_list(set_expr.right_value.string_list_value);
+            free_string_list(right_value.string_list_value);
             break;
         }
         case AST_SET_RIGHT_VALUE_VARIABLE: {
-            free_attr_var(set_expr.right_value.variable_value);
+            free_attr_var(right_value.variable_value);
             break;
         }
         default: abort();
     }
 }
 
-static void free_list_expr(struct ast_list_expr list_expr)
+static void free_set_expr(struct ast_set_expr set_expr)
 {
-    switch(list_expr.value.value_type) {
+    free_set_left_value(set_expr.left_value);
+    free_set_right_value(set_expr.right_value);
+}
+
+void free_list_value(struct list_value value)
+{
+    switch(value.value_type) {
         case AST_LIST_VALUE_INTEGER_LIST: {
-            free_integer_list(list_expr.value.integer_list_value);
+            free_integer_list(value.integer_list_value);
             break;
         }
         case AST_LIST_VALUE_STRING_LIST: {
-            free_string_list(list_expr.value.string_list_value);
+            free_string_list(value.string_list_value);
             break;
         }
         default: abort();
     }
+}
+
+static void free_list_expr(struct ast_list_expr list_expr)
+{
+    free_list_value(list_expr.value);
     free_attr_var(list_expr.attr_var);
 }
 
diff --git a/src/ast.h b/src/ast.h
index 82cb942..90a4b81 100644
--- a/src/ast.h
+++ b/src/ast.h
@@ -318,6 +318,9 @@ struct ast_node* ast_special_string_create(
 struct ast_node* ast_is_null_expr_create(enum ast_is_null_e type, const char* name);
 
 void free_ast_node(struct ast_node* node);
+void free_set_left_value(struct set_left_value left_value);
+void free_set_right_value(struct set_right_value right_value);
+void free_list_value(struct list_value value);
 
 bool match_node(const struct betree_variable** preds,
     const struct ast_node* node,
diff --git a/src/parser.c b/src/parser.c
index 6c74de6..9800c31 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1188,7 +1188,161 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, void *scanner, str
   YY_SYMBOL_PRINT (yymsg, yytype, yyvaluep, yylocationp);
 
   YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN
-  YYUSE (yytype);
+  switch (yytype)
+    {
+          case 33: /* TSTRING  */
+#line 87 "src/parser.y" /* yacc.c:1257  */
+      { bfree(((*yyvaluep).string)); }
+#line 1197 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 34: /* TIDENTIFIER  */
+#line 87 "src/parser.y" /* yacc.c:1257  */
+      { bfree(((*yyvaluep).string)); }
+#line 1203 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 39: /* ident  */
+#line 87 "src/parser.y" /* yacc.c:1257  */
+      { bfree(((*yyvaluep).string)); }
+#line 1209 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 42: /* string  */
+#line 88 "src/parser.y" /* yacc.c:1257  */
+      { bfree((char*)((*yyvaluep).string_value).string); }
+#line 1215 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 43: /* integer_list_value  */
+#line 89 "src/parser.y" /* yacc.c:1257  */
+      { free_integer_list(((*yyvaluep).integer_list_value)); }
+#line 1221 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 44: /* integer_list_loop  */
+#line 89 "src/parser.y" /* yacc.c:1257  */
+      { free_integer_list(((*yyvaluep).integer_list_value)); }
+#line 1227 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 45: /* string_list_value  */
+#line 90 "src/parser.y" /* yacc.c:1257  */
+      { free_string_list(((*yyvaluep).string_list_value)); }
+#line 1233 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 46: /* string_list_loop  */
+#line 90 "src/parser.y" /* yacc.c:1257  */
+      { free_string_list(((*yyvaluep).string_list_value)); }
+#line 1239 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 47: /* expr  */
+#line 96 "src/parser.y" /* yacc.c:1257  */
+      { free_ast_node(((*yyvaluep).node)); }
+#line 1245 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 48: /* is_null_expr  */
+#line 96 "src/parser.y" /* yacc.c:1257  */
+      { free_ast_node(((*yyvaluep).node)); }
+#line 1251 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 50: /* num_comp_expr  */
+#line 96 "src/parser.y" /* yacc.c:1257  */
+      { free_ast_node(((*yyvaluep).node)); }
+#line 1257 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 51: /* eq_value  */
+#line 91 "src/parser.y" /* yacc.c:1257  */
+      { if(((*yyvaluep).equality_value).value_type == AST_EQUALITY_VALUE_STRING) { bfree((char*)((*yyvaluep).equality_value).string_value.string); } }
+#line 1263 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 52: /* eq_expr  */
+#line 96 "src/parser.y" /* yacc.c:1257  */
+      { free_ast_node(((*yyvaluep).node)); }
+#line 1269 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 53: /* variable_value  */
+#line 92 "src/parser.y" /* yacc.c:1257  */
+      { free_attr_var(((*yyvaluep).variable_value)); }
+#line 1275 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 54: /* set_left_value  */
+#line 93 "src/parser.y" /* yacc.c:1257  */
+      { free_set_left_value(((*yyvaluep).set_left_value)); }
+#line 1281 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 55: /* set_right_value  */
+#line 94 "src/parser.y" /* yacc.c:1257  */
+      { free_set_right_value(((*yyvaluep).set_right_value)); }
+#line 1287 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 56: /* set_expr  */
+#line 96 "src/parser.y" /* yacc.c:1257  */
+      { free_ast_node(((*yyvaluep).node)); }
+#line 1293 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 57: /* list_value  */
+#line 95 "src/parser.y" /* yacc.c:1257  */
+      { free_list_value(((*yyvaluep).list_value)); }
+#line 1299 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 58: /* list_expr  */
+#line 96 "src/parser.y" /* yacc.c:1257  */
+      { free_ast_node(((*yyvaluep).node)); }
+#line 1305 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 59: /* bool_expr  */
+#line 96 "src/parser.y" /* yacc.c:1257  */
+      { free_ast_node(((*yyvaluep).node)); }
+#line 1311 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 60: /* special_expr  */
+#line 96 "src/parser.y" /* yacc.c:1257  */
+      { free_ast_node(((*yyvaluep).node)); }
+#line 1317 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 61: /* s_frequency_expr  */
+#line 96 "src/parser.y" /* yacc.c:1257  */
+      { free_ast_node(((*yyvaluep).node)); }
+#line 1323 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 62: /* s_segment_expr  */
+#line 96 "src/parser.y" /* yacc.c:1257  */
+      { free_ast_node(((*yyvaluep).node)); }
+#line 1329 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 63: /* s_geo_expr  */
+#line 96 "src/parser.y" /* yacc.c:1257  */
+      { free_ast_node(((*yyvaluep).node)); }
+#line 1335 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 64: /* s_string_expr  */
+#line 96 "src/parser.y" /* yacc.c:1257  */
+      { free_ast_node(((*yyvaluep).node)); }
+#line 1341 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+      default:
+        break;
+    }
   YY_IGNORE_MAYBE_UNINITIALIZED_END
 }
 
@@ -1448,457 +1602,457 @@ yyreduce:
   switch (yyn)
     {
         case 2:
-#line 96 "src/parser.y" /* yacc.c:1646  */
+#line 107 "src/parser.y" /* yacc.c:1646  */
     { *root = (yyvsp[0].node); }
-#line 1454 "src/parser.c" /* yacc.c:1646  */
+#line 1608 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 3:
-#line 98 "src/parser.y" /* yacc.c:1646  */
+#line 109 "src/parser.y" /* yacc.c:1646  */
     { (yyval.string) = (yyvsp[0].string); }
-#line 1460 "src/parser.c" /* yacc.c:1646  */
+#line 1614 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 4:
-#line 100 "src/parser.y" /* yacc.c:1646  */
+#line 111 "src/parser.y" /* yacc.c:1646  */
     { (yyval.integer_value) = (yyvsp[0].integer_value); }
-#line 1466 "src/parser.c" /* yacc.c:1646  */
+#line 1620 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 5:
-#line 101 "src/parser.y" /* yacc.c:1646  */
+#line 112 "src/parser.y" /* yacc.c:1646  */
     { (yyval.integer_value) = - (yyvsp[0].integer_value); }
-#line 1472 "src/parser.c" /* yacc.c:1646  */
+#line 1626 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 6:
-#line 104 "src/parser.y" /* yacc.c:1646  */
+#line 115 "src/parser.y" /* yacc.c:1646  */
     { (yyval.float_value) = (yyvsp[0].float_value); }
-#line 1478 "src/parser.c" /* yacc.c:1646  */
+#line 1632 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 7:
-#line 105 "src/parser.y" /* yacc.c:1646  */
+#line 116 "src/parser.y" /* yacc.c:1646  */
     { (yyval.float_value) = - (yyvsp[0].float_value); }
-#line 1484 "src/parser.c" /* yacc.c:1646  */
+#line 1638 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 8:
-#line 108 "src/parser.y" /* yacc.c:1646  */
+#line 119 "src/parser.y" /* yacc.c:1646  */
     { (yyval.string_value).string = bstrdup((yyvsp[0].string)); (yyval.string_value).str = INVALID_STR; bfree((yyvsp[0].string)); }
-#line 1490 "src/parser.c" /* yacc.c:1646  */
+#line 1644 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 9:
-#line 110 "src/parser.y" /* yacc.c:1646  */
+#line 121 "src/parser.y" /* yacc.c:1646  */
     { (yyval.integer_list_value) = (yyvsp[-1].integer_list_value); }
-#line 1496 "src/parser.c" /* yacc.c:1646  */
+#line 1650 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 10:
-#line 112 "src/parser.y" /* yacc.c:1646  */
+#line 123 "src/parser.y" /* yacc.c:1646  */
     { (yyval.integer_list_value) = make_integer_list(); add_integer_list_value((yyvsp[0].integer_value), (yyval.integer_list_value)); }
-#line 1502 "src/parser.c" /* yacc.c:1646  */
+#line 1656 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 11:
-#line 113 "src/parser.y" /* yacc.c:1646  */
+#line 124 "src/parser.y" /* yacc.c:1646  */
     { add_integer_list_value((yyvsp[0].integer_value), (yyvsp[-2].integer_list_value)); (yyval.integer_list_value) = (yyvsp[-2].integer_list_value); }
-#line 1508 "src/parser.c" /* yacc.c:1646  */
+#line 1662 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 12:
-#line 116 "src/parser.y" /* yacc.c:1646  */
+#line 127 "src/parser.y" /* yacc.c:1646  */
     { (yyval.string_list_value) = (yyvsp[-1].string_list_value); }
-#line 1514 "src/parser.c" /* yacc.c:1646  */
+#line 1668 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 13:
-#line 118 "src/parser.y" /* yacc.c:1646  */
+#line 129 "src/parser.y" /* yacc.c:1646  */
     { (yyval.string_list_value) = make_string_list(); add_string_list_value((yyvsp[0].string_value), (yyval.string_list_value)); }
-#line 1520 "src/parser.c" /* yacc.c:1646  */
+#line 1674 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 14:
-#line 119 "src/parser.y" /* yacc.c:1646  */
+#line 130 "src/parser.y" /* yacc.c:1646  */
     { add_string_list_value((yyvsp[0].string_value), (yyvsp[-2].string_list_value)); (yyval.string_list_value) = (yyvsp[-2].string_list_value); }
-#line 1526 "src/parser.c" /* yacc.c:1646  */
+#line 1680 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 15:
-#line 122 "src/parser.y" /* yacc.c:1646  */
+#line 133 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = (yyvsp[-1].node); }
-#line 1532 "src/parser.c" /* yacc.c:1646  */
+#line 1686 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 16:
-#line 123 "src/parser.y" /* yacc.c:1646  */
+#line 134 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = (yyvsp[0].node); }
-#line 1538 "src/parser.c" /* yacc.c:1646  */
+#line 1692 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 17:
-#line 124 "src/parser.y" /* yacc.c:1646  */
+#line 135 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = (yyvsp[0].node); }
-#line 1544 "src/parser.c" /* yacc.c:1646  */
+#line 1698 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 18:
-#line 125 "src/parser.y" /* yacc.c:1646  */
+#line 136 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = (yyvsp[0].node); }
-#line 1550 "src/parser.c" /* yacc.c:1646  */
+#line 1704 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 19:
-#line 126 "src/parser.y" /* yacc.c:1646  */
+#line 137 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = (yyvsp[0].node); }
-#line 1556 "src/parser.c" /* yacc.c:1646  */
+#line 1710 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 20:
-#line 127 "src/parser.y" /* yacc.c:1646  */
+#line 138 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = (yyvsp[0].node); }
-#line 1562 "src/parser.c" /* yacc.c:1646  */
+#line 1716 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 21:
-#line 128 "src/parser.y" /* yacc.c:1646  */
+#line 139 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = (yyvsp[0].node); }
-#line 1568 "src/parser.c" /* yacc.c:1646  */
+#line 1722 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 22:
-#line 129 "src/parser.y" /* yacc.c:1646  */
+#line 140 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = (yyvsp[0].node); }
-#line 1574 "src/parser.c" /* yacc.c:1646  */
+#line 1728 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 23:
-#line 132 "src/parser.y" /* yacc.c:1646  */
+#line 143 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_is_null_expr_create(AST_IS_NULL, (yyvsp[-1].string)); bfree((yyvsp[-1].string)); }
-#line 1580 "src/parser.c" /* yacc.c:1646  */
+#line 1734 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 24:
-#line 133 "src/parser.y" /* yacc.c:1646  */
+#line 144 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_is_null_expr_create(AST_IS_NOT_NULL, (yyvsp[-1].string)); bfree((yyvsp[-1].string)); }
-#line 1586 "src/parser.c" /* yacc.c:1646  */
+#line 1740 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 25:
-#line 134 "src/parser.y" /* yacc.c:1646  */
+#line 145 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_is_null_expr_create(AST_IS_EMPTY, (yyvsp[-1].string)); bfree((yyvsp[-1].string)); }
-#line 1592 "src/parser.c" /* yacc.c:1646  */
+#line 1746 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 26:
-#line 137 "src/parser.y" /* yacc.c:1646  */
+#line 148 "src/parser.y" /* yacc.c:1646  */
     { (yyval.compare_value).value_type = AST_COMPARE_VALUE_INTEGER; (yyval.compare_value).integer_value = (yyvsp[0].integer_value); }
-#line 1598 "src/parser.c" /* yacc.c:1646  */
+#line 1752 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 27:
-#line 138 "src/parser.y" /* yacc.c:1646  */
+#line 149 "src/parser.y" /* yacc.c:1646  */
     { (yyval.compare_value).value_type = AST_COMPARE_VALUE_FLOAT; (yyval.compare_value).float_value = (yyvsp[0].float_value); }
-#line 1604 "src/parser.c" /* yacc.c:1646  */
+#line 1758 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 28:
-#line 141 "src/parser.y" /* yacc.c:1646  */
+#line 152 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_compare_expr_create(AST_COMPARE_GT, (yyvsp[-2].string), (yyvsp[0].compare_value)); bfree((yyvsp[-2].string)); }
-#line 1610 "src/parser.c" /* yacc.c:1646  */
+#line 1764 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 29:
-#line 142 "src/parser.y" /* yacc.c:1646  */
+#line 153 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_compare_expr_create(AST_COMPARE_GE, (yyvsp[-2].string), (yyvsp[0].compare_value)); bfree((yyvsp[-2].string)); }
-#line 1616 "src/parser.c" /* yacc.c:1646  */
+#line 1770 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 30:
-#line 143 "src/parser.y" /* yacc.c:1646  */
+#line 154 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_compare_expr_create(AST_COMPARE_LT, (yyvsp[-2].string), (yyvsp[0].compare_value)); bfree((yyvsp[-2].string)); }
-#line 1622 "src/parser.c" /* yacc.c:1646  */
+#line 1776 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 31:
-#line 144 "src/parser.y" /* yacc.c:1646  */
+#line 155 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_compare_expr_create(AST_COMPARE_LE, (yyvsp[-2].string), (yyvsp[0].compare_value)); bfree((yyvsp[-2].string)); }
-#line 1628 "src/parser.c" /* yacc.c:1646  */
+#line 1782 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 32:
-#line 145 "src/parser.y" /* yacc.c:1646  */
+#line 156 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_compare_expr_create(AST_COMPARE_GT, (yyvsp[0].string), (yyvsp[-2].compare_value)); bfree((yyvsp[0].string)); }
-#line 1634 "src/parser.c" /* yacc.c:1646  */
+#line 1788 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 33:
-#line 146 "src/parser.y" /* yacc.c:1646  */
+#line 157 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_compare_expr_create(AST_COMPARE_GE, (yyvsp[0].string), (yyvsp[-2].compare_value)); bfree((yyvsp[0].string)); }
-#line 1640 "src/parser.c" /* yacc.c:1646  */
+#line 1794 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 34:
-#line 147 "src/parser.y" /* yacc.c:1646  */
+#line 158 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_compare_expr_create(AST_COMPARE_LT, (yyvsp[0].string), (yyvsp[-2].compare_value)); bfree((yyvsp[0].string)); }
-#line 1646 "src/parser.c" /* yacc.c:1646  */
+#line 1800 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 35:
-#line 148 "src/parser.y" /* yacc.c:1646  */
+#line 159 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_compare_expr_create(AST_COMPARE_LE, (yyvsp[0].string), (yyvsp[-2].compare_value)); bfree((yyvsp[0].string)); }
-#line 1652 "src/parser.c" /* yacc.c:1646  */
+#line 1806 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 36:
-#line 151 "src/parser.y" /* yacc.c:1646  */
+#line 162 "src/parser.y" /* yacc.c:1646  */
     { (yyval.equality_value).value_type = AST_EQUALITY_VALUE_INTEGER; (yyval.equality_value).integer_value = (yyvsp[0].integer_value); }
-#line 1658 "src/parser.c" /* yacc.c:1646  */
+#line 1812 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 37:
-#line 152 "src/parser.y" /* yacc.c:1646  */
+#line 163 "src/parser.y" /* yacc.c:1646  */
     { (yyval.equality_value).value_type = AST_EQUALITY_VALUE_FLOAT; (yyval.equality_value).float_value = (yyvsp[0].float_value); }
-#line 1664 "src/parser.c" /* yacc.c:1646  */
+#line 1818 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 38:
-#line 153 "src/parser.y" /* yacc.c:1646  */
+#line 164 "src/parser.y" /* yacc.c:1646  */
     { (yyval.equality_value).value_type = AST_EQUALITY_VALUE_STRING; (yyval.equality_value).string_value = (yyvsp[0].string_value); }
-#line 1670 "src/parser.c" /* yacc.c:1646  */
+#line 1824 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 39:
-#line 156 "src/parser.y" /* yacc.c:1646  */
+#line 167 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_equality_expr_create(AST_EQUALITY_EQ, (yyvsp[-2].string), (yyvsp[0].equality_value)); bfree((yyvsp[-2].string)); }
-#line 1676 "src/parser.c" /* yacc.c:1646  */
+#line 1830 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 40:
-#line 157 "src/parser.y" /* yacc.c:1646  */
+#line 168 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_equality_expr_create(AST_EQUALITY_NE, (yyvsp[-2].string), (yyvsp[0].equality_value)); bfree((yyvsp[-2].string)); }
-#line 1682 "src/parser.c" /* yacc.c:1646  */
+#line 1836 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 41:
-#line 158 "src/parser.y" /* yacc.c:1646  */
+#line 169 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_equality_expr_create(AST_EQUALITY_EQ, (yyvsp[0].string), (yyvsp[-2].equality_value)); bfree((yyvsp[0].string)); }
-#line 1688 "src/parser.c" /* yacc.c:1646  */
+#line 1842 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 42:
-#line 159 "src/parser.y" /* yacc.c:1646  */
+#line 170 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_equality_expr_create(AST_EQUALITY_NE, (yyvsp[0].string), (yyvsp[-2].equality_value)); bfree((yyvsp[0].string)); }
-#line 1694 "src/parser.c" /* yacc.c:1646  */
+#line 1848 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 43:
-#line 162 "src/parser.y" /* yacc.c:1646  */
+#line 173 "src/parser.y" /* yacc.c:1646  */
     { (yyval.variable_value) = make_attr_var((yyvsp[0].string), NULL); bfree((yyvsp[0].string)); }
-#line 1700 "src/parser.c" /* yacc.c:1646  */
+#line 1854 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 44:
-#line 164 "src/parser.y" /* yacc.c:1646  */
+#line 175 "src/parser.y" /* yacc.c:1646  */
     { (yyval.set_left_value).value_type = AST_SET_LEFT_VALUE_INTEGER; (yyval.set_left_value).integer_value = (yyvsp[0].integer_value); }
-#line 1706 "src/parser.c" /* yacc.c:1646  */
+#line 1860 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 45:
-#line 165 "src/parser.y" /* yacc.c:1646  */
+#line 176 "src/parser.y" /* yacc.c:1646  */
     { (yyval.set_left_value).value_type = AST_SET_LEFT_VALUE_STRING; (yyval.set_left_value).string_value = (yyvsp[0].string_value); }
-#line 1712 "src/parser.c" /* yacc.c:1646  */
+#line 1866 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 46:
-#line 166 "src/parser.y" /* yacc.c:1646  */
+#line 177 "src/parser.y" /* yacc.c:1646  */
     { (yyval.set_left_value).value_type = AST_SET_LEFT_VALUE_VARIABLE; (yyval.set_left_value).variable_value = (yyvsp[0].variable_value); }
-#line 1718 "src/parser.c" /* yacc.c:1646  */
+#line 1872 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 47:
-#line 169 "src/parser.y" /* yacc.c:1646  */
+#line 180 "src/parser.y" /* yacc.c:1646  */
     { (yyval.set_right_value).value_type = AST_SET_RIGHT_VALUE_INTEGER_LIST; (yyval.set_right_value).integer_list_value = (yyvsp[0].integer_list_value); }
-#line 1724 "src/parser.c" /* yacc.c:1646  */
+#line 1878 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 48:
-#line 170 "src/parser.y" /* yacc.c:1646  */
+#line 181 "src/parser.y" /* yacc.c:1646  */
     { (yyval.set_right_value).value_type = AST_SET_RIGHT_VALUE_STRING_LIST; (yyval.set_right_value).string_list_value = (yyvsp[0].string_list_value); }
-#line 1730 "src/parser.c" /* yacc.c:1646  */
+#line 1884 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 49:
-#line 171 "src/parser.y" /* yacc.c:1646  */
+#line 182 "src/parser.y" /* yacc.c:1646  */
     { (yyval.set_right_value).value_type = AST_SET_RIGHT_VALUE_VARIABLE; (yyval.set_right_value).variable_value = (yyvsp[0].variable_value); }
-#line 1736 "src/parser.c" /* yacc.c:1646  */
+#line 1890 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 50:
-#line 174 "src/parser.y" /* yacc.c:1646  */
+#line 185 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_set_expr_create(AST_SET_NOT_IN, (yyvsp[-2].set_left_value), (yyvsp[0].set_right_value)); }
-#line 1742 "src/parser.c" /* yacc.c:1646  */
+#line 1896 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 51:
-#line 175 "src/parser.y" /* yacc.c:1646  */
+#line 186 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_set_expr_create(AST_SET_IN, (yyvsp[-2].set_left_value), (yyvsp[0].set_right_value)); }
-#line 1748 "src/parser.c" /* yacc.c:1646  */
+#line 1902 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 52:
-#line 178 "src/parser.y" /* yacc.c:1646  */
+#line 189 "src/parser.y" /* yacc.c:1646  */
     { (yyval.list_value).value_type = AST_LIST_VALUE_INTEGER_LIST; (yyval.list_value).integer_list_value = (yyvsp[0].integer_list_value); }
-#line 1754 "src/parser.c" /* yacc.c:1646  */
+#line 1908 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 53:
-#line 179 "src/parser.y" /* yacc.c:1646  */
+#line 190 "src/parser.y" /* yacc.c:1646  */
     { (yyval.list_value).value_type = AST_LIST_VALUE_STRING_LIST; (yyval.list_value).string_list_value = (yyvsp[0].string_list_value); }
-#line 1760 "src/parser.c" /* yacc.c:1646  */
+#line 1914 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 54:
-#line 182 "src/parser.y" /* yacc.c:1646  */
+#line 193 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_list_expr_create(AST_LIST_ONE_OF, (yyvsp[-2].string), (yyvsp[0].list_value)); bfree((yyvsp[-2].string));}
-#line 1766 "src/parser.c" /* yacc.c:1646  */
+#line 1920 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 55:
-#line 183 "src/parser.y" /* yacc.c:1646  */
+#line 194 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_list_expr_create(AST_LIST_NONE_OF, (yyvsp[-2].string), (yyvsp[0].list_value)); bfree((yyvsp[-2].string));}
-#line 1772 "src/parser.c" /* yacc.c:1646  */
+#line 1926 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 56:
-#line 184 "src/parser.y" /* yacc.c:1646  */
+#line 195 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_list_expr_create(AST_LIST_ALL_OF, (yyvsp[-2].string), (yyvsp[0].list_value)); bfree((yyvsp[-2].string));}
-#line 1778 "src/parser.c" /* yacc.c:1646  */
+#line 1932 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 57:
-#line 187 "src/parser.y" /* yacc.c:1646  */
+#line 198 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_bool_expr_binary_create(AST_BOOL_AND, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1784 "src/parser.c" /* yacc.c:1646  */
+#line 1938 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 58:
-#line 188 "src/parser.y" /* yacc.c:1646  */
+#line 199 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_bool_expr_binary_create(AST_BOOL_OR, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1790 "src/parser.c" /* yacc.c:1646  */
+#line 1944 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 59:
-#line 189 "src/parser.y" /* yacc.c:1646  */
+#line 200 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_bool_expr_unary_create((yyvsp[0].node)); }
-#line 1796 "src/parser.c" /* yacc.c:1646  */
+#line 1950 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 60:
-#line 190 "src/parser.y" /* yacc.c:1646  */
+#line 201 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_bool_expr_variable_create((yyvsp[0].string)); bfree((yyvsp[0].string)); }
-#line 1802 "src/parser.c" /* yacc.c:1646  */
+#line 1956 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 61:
-#line 191 "src/parser.y" /* yacc.c:1646  */
+#line 202 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_bool_expr_literal_create(true); }
-#line 1808 "src/parser.c" /* yacc.c:1646  */
+#line 1962 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 62:
-#line 192 "src/parser.y" /* yacc.c:1646  */
+#line 203 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_bool_expr_literal_create(false); }
-#line 1814 "src/parser.c" /* yacc.c:1646  */
+#line 1968 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 63:
-#line 195 "src/parser.y" /* yacc.c:1646  */
+#line 206 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = (yyvsp[0].node); }
-#line 1820 "src/parser.c" /* yacc.c:1646  */
+#line 1974 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 64:
-#line 196 "src/parser.y" /* yacc.c:1646  */
+#line 207 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = (yyvsp[0].node); }
-#line 1826 "src/parser.c" /* yacc.c:1646  */
+#line 1980 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 65:
-#line 197 "src/parser.y" /* yacc.c:1646  */
+#line 208 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = (yyvsp[0].node); }
-#line 1832 "src/parser.c" /* yacc.c:1646  */
+#line 1986 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 66:
-#line 198 "src/parser.y" /* yacc.c:1646  */
+#line 209 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = (yyvsp[0].node); }
-#line 1838 "src/parser.c" /* yacc.c:1646  */
+#line 1992 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 67:
-#line 202 "src/parser.y" /* yacc.c:1646  */
+#line 213 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_special_frequency_create(AST_SPECIAL_WITHINFREQUENCYCAP, (yyvsp[-7].string), (yyvsp[-5].string_value), (yyvsp[-3].integer_value), (yyvsp[-1].integer_value)); bfree((yyvsp[-7].string)); }
-#line 1844 "src/parser.c" /* yacc.c:1646  */
+#line 1998 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 68:
-#line 206 "src/parser.y" /* yacc.c:1646  */
+#line 217 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_special_segment_create(AST_SPECIAL_SEGMENTWITHIN, NULL, (yyvsp[-3].integer_value), (yyvsp[-1].integer_value)); }
-#line 1850 "src/parser.c" /* yacc.c:1646  */
+#line 2004 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 69:
-#line 208 "src/parser.y" /* yacc.c:1646  */
+#line 219 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_special_segment_create(AST_SPECIAL_SEGMENTWITHIN, (yyvsp[-5].string), (yyvsp[-3].integer_value), (yyvsp[-1].integer_value)); bfree((yyvsp[-5].string)); }
-#line 1856 "src/parser.c" /* yacc.c:1646  */
+#line 2010 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 70:
-#line 210 "src/parser.y" /* yacc.c:1646  */
+#line 221 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_special_segment_create(AST_SPECIAL_SEGMENTBEFORE, NULL, (yyvsp[-3].integer_value), (yyvsp[-1].integer_value)); }
-#line 1862 "src/parser.c" /* yacc.c:1646  */
+#line 2016 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 71:
-#line 212 "src/parser.y" /* yacc.c:1646  */
+#line 223 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_special_segment_create(AST_SPECIAL_SEGMENTBEFORE, (yyvsp[-5].string), (yyvsp[-3].integer_value), (yyvsp[-1].integer_value)); bfree((yyvsp[-5].string)); }
-#line 1868 "src/parser.c" /* yacc.c:1646  */
+#line 2022 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 72:
-#line 216 "src/parser.y" /* yacc.c:1646  */
+#line 227 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_special_geo_create(AST_SPECIAL_GEOWITHINRADIUS, (double)(yyvsp[-5].integer_value), (double)(yyvsp[-3].integer_value), true, (double)(yyvsp[-1].integer_value)); }
-#line 1874 "src/parser.c" /* yacc.c:1646  */
+#line 2028 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 73:
-#line 218 "src/parser.y" /* yacc.c:1646  */
+#line 229 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_special_geo_create(AST_SPECIAL_GEOWITHINRADIUS, (yyvsp[-5].float_value), (yyvsp[-3].float_value), true, (yyvsp[-1].float_value)); }
-#line 1880 "src/parser.c" /* yacc.c:1646  */
+#line 2034 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 74:
-#line 222 "src/parser.y" /* yacc.c:1646  */
+#line 233 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_special_string_create(AST_SPECIAL_CONTAINS, (yyvsp[-3].string), (yyvsp[-1].string_value).string); bfree((yyvsp[-3].string)); bfree((char*)(yyvsp[-1].string_value).string); }
-#line 1886 "src/parser.c" /* yacc.c:1646  */
+#line 2040 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 75:
-#line 224 "src/parser.y" /* yacc.c:1646  */
+#line 235 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_special_string_create(AST_SPECIAL_STARTSWITH, (yyvsp[-3].string), (yyvsp[-1].string_value).string); bfree((yyvsp[-3].string)); bfree((char*)(yyvsp[-1].string_value).string); }
-#line 1892 "src/parser.c" /* yacc.c:1646  */
+#line 2046 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 76:
-#line 226 "src/parser.y" /* yacc.c:1646  */
+#line 237 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_special_string_create(AST_SPECIAL_ENDSWITH, (yyvsp[-3].string), (yyvsp[-1].string_value).string); bfree((yyvsp[-3].string)); bfree((char*)(yyvsp[-1].string_value).string); }
-#line 1898 "src/parser.c" /* yacc.c:1646  */
+#line 2052 "src/parser.c" /* yacc.c:1646  */
     break;
 
 
-#line 1902 "src/parser.c" /* yacc.c:1646  */
+#line 2056 "src/parser.c" /* yacc.c:1646  */
       default: break;
     }
   /* User semantic actions sometimes alter yychar, and that requires
@@ -2126,7 +2280,7 @@ yyreturn:
 #endif
   return yyresult;
 }
-#line 229 "src/parser.y" /* yacc.c:1906  */
+#line 240 "src/parser.y" /* yacc.c:1906  */
 
 
 #if defined(__GNUC__)
@@ -2143,6 +2297,7 @@ int parse(const char *text, struct ast_node **node)
     yyscan_t scanner;
     xxlex_init(&scanner);
     YY_BUFFER_STATE buffer = xx_scan_string(text, scanner);
+    *node = NULL;
     int rc = xxparse(scanner, node);
     xx_delete_buffer(buffer, scanner);
     xxlex_destroy(scanner);
@@ -2151,6 +2306,9 @@ int parse(const char *text, struct ast_node **node)
         return 0;
     }
     else {
+        // The program can be complete before the error is seen
+        free_ast_node(*node);
+        *node = NULL;
         return -1;
     }
 }
diff --git a/src/parser.y b/src/parser.y
index fc6cbc6..3bba9bb 100644
--- a/src/parser.y
+++ b/src/parser.y
@@ -84,6 +84,17 @@
 %type<integer_list_value> integer_list_value integer_list_loop
 %type<string_list_value> string_list_value string_list_loop
 
+%destructor { bfree($$); } <string>
+%destructor { bfree((char*)$$.string); } <string_value>
+%destructor { free_integer_list($$); } <integer_list_value>
+%destructor { free_string_list($$); } <string_list_value>
+%destructor { if($$.value_type == AST_EQUALITY_VALUE_STRING) { bfree((char*)$$.string_value.string); } } <equality_value>
+%destructor { free_attr_var($$); } <variable_value>
+%destructor { free_set_left_value($$); } <set_left_value>
+%destructor { free_set_right_value($$); } <set_right_value>
+%destructor { free_list_value($$); } <list_value>
+%destructor { free_ast_node($$); } <node>
+
 %left TCEQ TCNE TCGT TCGE TCLT TCLE
 %left TOR
 %left TAND 
@@ -242,6 +253,7 @@ int parse(const char *text, struct ast_node **node)
     yyscan_t scanner;
     xxlex_init(&scanner);
     YY_BUFFER_STATE buffer = xx_scan_string(text, scanner);
+    *node = NULL;
     int rc = xxparse(scanner, node);
     xx_delete_buffer(buffer, scanner);
     xxlex_destroy(scanner);
@@ -250,6 +262,9 @@ int parse(const char *text, struct ast_node **node)
         return 0;
     }
     else {
+        // The program can be complete before the error is seen
+        free_ast_node(*node);
+        *node = NULL;
         return -1;
     }
 }
-- 
2.43.0


From aa5789ab313a0dcb1a937395c9eb0d7a979dfe5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:36 +0000
Subject: [PATCH 22/48] fix: a syntax error in an event does not leak what was
 read before it

---
 src/event_parser.c | 292 ++++++++++++++++++++++++++++++---------------
 src/event_parser.y |  16 +++
 2 files changed, 214 insertions(+), 94 deletions(-)

diff --git a/src/event_parser.c b/src/event_parser.c
index 84e3e00..58444e9 100644
--- a/src/event_parser.c
+++ b/src/event_parser.c
@@ -806,91 +806,91 @@ yy_symbol_value_print (FILE *yyo, int yytype, YYSTYPE const * const yyvaluep, vo
   switch (yytype)
     {
     case 13: /* EVENT_INTEGER  */
-#line 83 "src/event_parser.y"
+#line 95 "src/event_parser.y"
          { fprintf(yyoutput, "%lld", ((*yyvaluep).integer_value)); }
 #line 812 "src/event_parser.c"
         break;
 
     case 14: /* EVENT_FLOAT  */
-#line 84 "src/event_parser.y"
+#line 96 "src/event_parser.y"
          { fprintf(yyoutput, "%.2f", ((*yyvaluep).float_value)); }
 #line 818 "src/event_parser.c"
         break;
 
     case 15: /* EVENT_STRING  */
-#line 85 "src/event_parser.y"
+#line 97 "src/event_parser.y"
          { fprintf(yyoutput, "%s", ((*yyvaluep).string)); }
 #line 824 "src/event_parser.c"
         break;
 
     case 22: /* integer  */
-#line 83 "src/event_parser.y"
+#line 95 "src/event_parser.y"
          { fprintf(yyoutput, "%lld", ((*yyvaluep).integer_value)); }
 #line 830 "src/event_parser.c"
         break;
 
     case 23: /* float  */
-#line 84 "src/event_parser.y"
+#line 96 "src/event_parser.y"
          { fprintf(yyoutput, "%.2f", ((*yyvaluep).float_value)); }
 #line 836 "src/event_parser.c"
         break;
 
     case 24: /* string  */
-#line 86 "src/event_parser.y"
+#line 98 "src/event_parser.y"
          { fprintf(yyoutput, "%s", ((*yyvaluep).string_value).string); }
 #line 842 "src/event_parser.c"
         break;
 
     case 25: /* empty_list_value  */
-#line 87 "src/event_parser.y"
+#line 99 "src/event_parser.y"
          { fprintf(yyoutput, "%zu integers", ((*yyvaluep).integer_list_value).count); }
 #line 848 "src/event_parser.c"
         break;
 
     case 26: /* integer_list_value  */
-#line 87 "src/event_parser.y"
+#line 99 "src/event_parser.y"
          { fprintf(yyoutput, "%zu integers", ((*yyvaluep).integer_list_value).count); }
 #line 854 "src/event_parser.c"
         break;
 
     case 27: /* integer_list_loop  */
-#line 87 "src/event_parser.y"
+#line 99 "src/event_parser.y"
          { fprintf(yyoutput, "%zu integers", ((*yyvaluep).integer_list_value).count); }
 #line 860 "src/event_parser.c"
         break;
 
     case 28: /* string_list_value  */
-#line 88 "src/event_parser.y"
+#line 100 "src/event_parser.y"
          { fprintf(yyoutput, "%zu strings", ((*yyvaluep).string_list_value).count); }
 #line 866 "src/event_parser.c"
         break;
 
     case 29: /* string_list_loop  */
-#line 88 "src/event_parser.y"
+#line 100 "src/event_parser.y"
          { fprintf(yyoutput, "%zu strings", ((*yyvaluep).string_list_value).count); }
 #line 872 "src/event_parser.c"
         break;
 
     case 30: /* segments_value  */
-#line 89 "src/event_parser.y"
+#line 101 "src/event_parser.y"
          { fprintf(yyoutput, "%zu segments", ((*yyvaluep).segments_list_value).size); }
 #line 878 "src/event_parser.c"
         break;
 
     case 31: /* segments_loop  */
-#line 89 "src/event_parser.y"
+#line 101 "src/event_parser.y"
          { fprintf(yyoutput, "%zu segments", ((*yyvaluep).segments_list_value).size); }
 #line 884 "src/event_parser.c"
         break;
 
     case 33: /* frequencies_value  */
-#line 90 "src/event_parser.y"
+#line 102 "src/event_parser.y"
          { fprintf(yyoutput, "%zu caps", ((*yyvaluep).frequencies_value).size); }
 #line 890 "src/event_parser.c"
         break;
 
     case 34: /* frequencies_loop  */
-#line 90 "src/event_parser.y"
+#line 102 "src/event_parser.y"
          { fprintf(yyoutput, "%zu caps", ((*yyvaluep).frequencies_value).size); }
 #line 896 "src/event_parser.c"
         break;
@@ -1244,7 +1244,107 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, void *scanner)
   YY_SYMBOL_PRINT (yymsg, yytype, yyvaluep, yylocationp);
 
   YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN
-  YYUSE (yytype);
+  switch (yytype)
+    {
+          case 15: /* EVENT_STRING  */
+#line 80 "src/event_parser.y" /* yacc.c:1257  */
+      { bfree(((*yyvaluep).string)); }
+#line 1253 "src/event_parser.c" /* yacc.c:1257  */
+        break;
+
+          case 18: /* variable_loop  */
+#line 90 "src/event_parser.y" /* yacc.c:1257  */
+      { free_event(((*yyvaluep).event)); }
+#line 1259 "src/event_parser.c" /* yacc.c:1257  */
+        break;
+
+          case 19: /* variable  */
+#line 89 "src/event_parser.y" /* yacc.c:1257  */
+      { if(((*yyvaluep).variable) != NULL) { betree_free_variable(((*yyvaluep).variable)); } }
+#line 1265 "src/event_parser.c" /* yacc.c:1257  */
+        break;
+
+          case 20: /* value  */
+#line 88 "src/event_parser.y" /* yacc.c:1257  */
+      { free_value(((*yyvaluep).value)); }
+#line 1271 "src/event_parser.c" /* yacc.c:1257  */
+        break;
+
+          case 24: /* string  */
+#line 81 "src/event_parser.y" /* yacc.c:1257  */
+      { bfree((char*)((*yyvaluep).string_value).string); }
+#line 1277 "src/event_parser.c" /* yacc.c:1257  */
+        break;
+
+          case 25: /* empty_list_value  */
+#line 82 "src/event_parser.y" /* yacc.c:1257  */
+      { free_integer_list(((*yyvaluep).integer_list_value)); }
+#line 1283 "src/event_parser.c" /* yacc.c:1257  */
+        break;
+
+          case 26: /* integer_list_value  */
+#line 82 "src/event_parser.y" /* yacc.c:1257  */
+      { free_integer_list(((*yyvaluep).integer_list_value)); }
+#line 1289 "src/event_parser.c" /* yacc.c:1257  */
+        break;
+
+          case 27: /* integer_list_loop  */
+#line 82 "src/event_parser.y" /* yacc.c:1257  */
+      { free_integer_list(((*yyvaluep).integer_list_value)); }
+#line 1295 "src/event_parser.c" /* yacc.c:1257  */
+        break;
+
+          case 28: /* string_list_value  */
+#line 83 "src/event_parser.y" /* yacc.c:1257  */
+      { free_string_list(((*yyvaluep).string_list_value)); }
+#line 1301 "src/event_parser.c" /* yacc.c:1257  */
+        break;
+
+          case 29: /* string_list_loop  */
+#line 83 "src/event_parser.y" /* yacc.c:1257  */
+      { free_string_list(((*yyvaluep).string_list_value)); }
+#line 1307 "src/event_parser.c" /* yacc.c:1257  */
+        break;
+
+          case 30: /* segments_value  */
+#line 84 "src/event_parser.y" /* yacc.c:1257  */
+      { free_segments(((*yyvaluep).segments_list_value)); }
+#line 1313 "src/event_parser.c" /* yacc.c:1257  */
+        break;
+
+          case 31: /* segments_loop  */
+#line 84 "src/event_parser.y" /* yacc.c:1257  */
+      { free_segments(((*yyvaluep).segments_list_value)); }
+#line 1319 "src/event_parser.c" /* yacc.c:1257  */
+        break;
+
+          case 32: /* segment_value  */
+#line 85 "src/event_parser.y" /* yacc.c:1257  */
+      { free_segment(((*yyvaluep).segment_value)); }
+#line 1325 "src/event_parser.c" /* yacc.c:1257  */
+        break;
+
+          case 33: /* frequencies_value  */
+#line 86 "src/event_parser.y" /* yacc.c:1257  */
+      { free_frequency_caps(((*yyvaluep).frequencies_value)); }
+#line 1331 "src/event_parser.c" /* yacc.c:1257  */
+        break;
+
+          case 34: /* frequencies_loop  */
+#line 86 "src/event_parser.y" /* yacc.c:1257  */
+      { free_frequency_caps(((*yyvaluep).frequencies_value)); }
+#line 1337 "src/event_parser.c" /* yacc.c:1257  */
+        break;
+
+          case 35: /* frequency_value  */
+#line 87 "src/event_parser.y" /* yacc.c:1257  */
+      { free_frequency_cap(((*yyvaluep).frequency_value)); }
+#line 1343 "src/event_parser.c" /* yacc.c:1257  */
+        break;
+
+      default:
+        break;
+    }
   YY_IGNORE_MAYBE_UNINITIALIZED_END
 }
 
@@ -1511,235 +1611,235 @@ yyreduce:
   switch (yyn)
     {
   case 2:
-#line 94 "src/event_parser.y"
+#line 106 "src/event_parser.y"
                                                                 { root = make_empty_event(); }
-#line 1517 "src/event_parser.c"
+#line 1617 "src/event_parser.c"
     break;
 
   case 3:
-#line 95 "src/event_parser.y"
+#line 107 "src/event_parser.y"
                                                                 { root = (yyvsp[-1].event); }
-#line 1523 "src/event_parser.c"
+#line 1623 "src/event_parser.c"
     break;
 
   case 4:
-#line 98 "src/event_parser.y"
+#line 110 "src/event_parser.y"
                                                             { (yyval.event) = make_empty_event(); add_variable((yyvsp[0].variable), (yyval.event)); }
-#line 1529 "src/event_parser.c"
+#line 1629 "src/event_parser.c"
     break;
 
   case 5:
-#line 99 "src/event_parser.y"
+#line 111 "src/event_parser.y"
                                                             { add_variable((yyvsp[0].variable), (yyvsp[-2].event)); (yyval.event) = (yyvsp[-2].event); }
-#line 1535 "src/event_parser.c"
+#line 1635 "src/event_parser.c"
     break;
 
   case 6:
-#line 102 "src/event_parser.y"
+#line 114 "src/event_parser.y"
                                                             { (yyval.variable) = make_pred((yyvsp[-2].string), INVALID_VAR, (yyvsp[0].value)); bfree((yyvsp[-2].string)); }
-#line 1541 "src/event_parser.c"
+#line 1641 "src/event_parser.c"
     break;
 
   case 7:
-#line 103 "src/event_parser.y"
+#line 115 "src/event_parser.y"
                                                             { (yyval.variable) = NULL; bfree((yyvsp[-2].string)); }
-#line 1547 "src/event_parser.c"
+#line 1647 "src/event_parser.c"
     break;
 
   case 8:
-#line 106 "src/event_parser.y"
+#line 118 "src/event_parser.y"
                                                             { (yyval.value).value_type = BETREE_BOOLEAN; (yyval.value).boolean_value = (yyvsp[0].boolean_value); }
-#line 1553 "src/event_parser.c"
+#line 1653 "src/event_parser.c"
     break;
 
   case 9:
-#line 107 "src/event_parser.y"
+#line 119 "src/event_parser.y"
                                                             { (yyval.value).value_type = BETREE_INTEGER; (yyval.value).integer_value = (yyvsp[0].integer_value); }
-#line 1559 "src/event_parser.c"
+#line 1659 "src/event_parser.c"
     break;
 
   case 10:
-#line 108 "src/event_parser.y"
+#line 120 "src/event_parser.y"
                                                             { (yyval.value).value_type = BETREE_FLOAT; (yyval.value).float_value = (yyvsp[0].float_value); }
-#line 1565 "src/event_parser.c"
+#line 1665 "src/event_parser.c"
     break;
 
   case 11:
-#line 109 "src/event_parser.y"
+#line 121 "src/event_parser.y"
                                                             { (yyval.value).value_type = BETREE_STRING; (yyval.value).string_value = (yyvsp[0].string_value); }
-#line 1571 "src/event_parser.c"
+#line 1671 "src/event_parser.c"
     break;
 
   case 12:
-#line 110 "src/event_parser.y"
+#line 122 "src/event_parser.y"
                                                             { (yyval.value).value_type = BETREE_INTEGER_LIST; (yyval.value).integer_list_value = (yyvsp[0].integer_list_value); }
-#line 1577 "src/event_parser.c"
+#line 1677 "src/event_parser.c"
     break;
 
   case 13:
-#line 111 "src/event_parser.y"
+#line 123 "src/event_parser.y"
                                                             { (yyval.value).value_type = BETREE_INTEGER_LIST; (yyval.value).integer_list_value = (yyvsp[0].integer_list_value); }
-#line 1583 "src/event_parser.c"
+#line 1683 "src/event_parser.c"
     break;
 
   case 14:
-#line 112 "src/event_parser.y"
+#line 124 "src/event_parser.y"
                                                             { (yyval.value).value_type = BETREE_STRING_LIST; (yyval.value).string_list_value = (yyvsp[0].string_list_value); }
-#line 1589 "src/event_parser.c"
+#line 1689 "src/event_parser.c"
     break;
 
   case 15:
-#line 113 "src/event_parser.y"
+#line 125 "src/event_parser.y"
                                                             { (yyval.value).value_type = BETREE_SEGMENTS; (yyval.value).segments_value = (yyvsp[0].segments_list_value); }
-#line 1595 "src/event_parser.c"
+#line 1695 "src/event_parser.c"
     break;
 
   case 16:
-#line 114 "src/event_parser.y"
+#line 126 "src/event_parser.y"
                                                             { (yyval.value).value_type = BETREE_FREQUENCY_CAPS; (yyval.value).frequency_caps_value = (yyvsp[0].frequencies_value); }
-#line 1601 "src/event_parser.c"
+#line 1701 "src/event_parser.c"
     break;
 
   case 17:
-#line 116 "src/event_parser.y"
+#line 128 "src/event_parser.y"
                                                             { (yyval.boolean_value) = true; }
-#line 1607 "src/event_parser.c"
+#line 1707 "src/event_parser.c"
     break;
 
   case 18:
-#line 117 "src/event_parser.y"
+#line 129 "src/event_parser.y"
                                                             { (yyval.boolean_value) = false; }
-#line 1613 "src/event_parser.c"
+#line 1713 "src/event_parser.c"
     break;
 
   case 19:
-#line 120 "src/event_parser.y"
+#line 132 "src/event_parser.y"
                                                             { (yyval.integer_value) = (yyvsp[0].integer_value); }
-#line 1619 "src/event_parser.c"
+#line 1719 "src/event_parser.c"
     break;
 
   case 20:
-#line 121 "src/event_parser.y"
+#line 133 "src/event_parser.y"
                                                             { (yyval.integer_value) = - (yyvsp[0].integer_value); }
-#line 1625 "src/event_parser.c"
+#line 1725 "src/event_parser.c"
     break;
 
   case 21:
-#line 124 "src/event_parser.y"
+#line 136 "src/event_parser.y"
                                                             { (yyval.float_value) = (yyvsp[0].float_value); }
-#line 1631 "src/event_parser.c"
+#line 1731 "src/event_parser.c"
     break;
 
   case 22:
-#line 125 "src/event_parser.y"
+#line 137 "src/event_parser.y"
                                                             { (yyval.float_value) = - (yyvsp[0].float_value); }
-#line 1637 "src/event_parser.c"
+#line 1737 "src/event_parser.c"
     break;
 
   case 23:
-#line 128 "src/event_parser.y"
+#line 140 "src/event_parser.y"
                                                             { (yyval.string_value).string = bstrdup((yyvsp[0].string)); (yyval.string_value).str = INVALID_STR; bfree((yyvsp[0].string)); }
-#line 1643 "src/event_parser.c"
+#line 1743 "src/event_parser.c"
     break;
 
   case 24:
-#line 130 "src/event_parser.y"
+#line 142 "src/event_parser.y"
                                                             { (yyval.integer_list_value) = make_integer_list(); }
-#line 1649 "src/event_parser.c"
+#line 1749 "src/event_parser.c"
     break;
 
   case 25:
-#line 133 "src/event_parser.y"
+#line 145 "src/event_parser.y"
                                                             { (yyval.integer_list_value) = (yyvsp[-1].integer_list_value); }
-#line 1655 "src/event_parser.c"
+#line 1755 "src/event_parser.c"
     break;
 
   case 26:
-#line 135 "src/event_parser.y"
+#line 147 "src/event_parser.y"
                                                             { (yyval.integer_list_value) = make_integer_list(); add_integer_list_value((yyvsp[0].integer_value), (yyval.integer_list_value)); }
-#line 1661 "src/event_parser.c"
+#line 1761 "src/event_parser.c"
     break;
 
   case 27:
-#line 136 "src/event_parser.y"
+#line 148 "src/event_parser.y"
                                                             { add_integer_list_value((yyvsp[0].integer_value), (yyvsp[-2].integer_list_value)); (yyval.integer_list_value) = (yyvsp[-2].integer_list_value); }
-#line 1667 "src/event_parser.c"
+#line 1767 "src/event_parser.c"
     break;
 
   case 28:
-#line 140 "src/event_parser.y"
+#line 152 "src/event_parser.y"
                                                             { (yyval.string_list_value) = (yyvsp[-1].string_list_value); }
-#line 1673 "src/event_parser.c"
+#line 1773 "src/event_parser.c"
     break;
 
   case 29:
-#line 142 "src/event_parser.y"
+#line 154 "src/event_parser.y"
                                                             { (yyval.string_list_value) = make_string_list(); add_string_list_value((yyvsp[0].string_value), (yyval.string_list_value)); }
-#line 1679 "src/event_parser.c"
+#line 1779 "src/event_parser.c"
     break;
 
   case 30:
-#line 143 "src/event_parser.y"
+#line 155 "src/event_parser.y"
                                                             { add_string_list_value((yyvsp[0].string_value), (yyvsp[-2].string_list_value)); (yyval.string_list_value) = (yyvsp[-2].string_list_value); }
-#line 1685 "src/event_parser.c"
+#line 1785 "src/event_parser.c"
     break;
 
   case 31:
-#line 147 "src/event_parser.y"
+#line 159 "src/event_parser.y"
                                                             { (yyval.segments_list_value) = (yyvsp[-1].segments_list_value); }
-#line 1691 "src/event_parser.c"
+#line 1791 "src/event_parser.c"
     break;
 
   case 32:
-#line 149 "src/event_parser.y"
+#line 161 "src/event_parser.y"
                                                             { (yyval.segments_list_value) = make_segments(); add_segment((yyvsp[0].segment_value), (yyval.segments_list_value)); }
-#line 1697 "src/event_parser.c"
+#line 1797 "src/event_parser.c"
     break;
 
   case 33:
-#line 151 "src/event_parser.y"
+#line 163 "src/event_parser.y"
                                                             { add_segment((yyvsp[0].segment_value), (yyvsp[-2].segments_list_value)); (yyval.segments_list_value) = (yyvsp[-2].segments_list_value); }
-#line 1703 "src/event_parser.c"
+#line 1803 "src/event_parser.c"
     break;
 
   case 34:
-#line 155 "src/event_parser.y"
+#line 167 "src/event_parser.y"
                                                             { (yyval.segment_value) = make_segment((yyvsp[-3].integer_value), (yyvsp[-1].integer_value)); }
-#line 1709 "src/event_parser.c"
+#line 1809 "src/event_parser.c"
     break;
 
   case 35:
-#line 158 "src/event_parser.y"
+#line 170 "src/event_parser.y"
                                                             { (yyval.frequencies_value) = (yyvsp[-1].frequencies_value); }
-#line 1715 "src/event_parser.c"
+#line 1815 "src/event_parser.c"
     break;
 
   case 36:
-#line 160 "src/event_parser.y"
+#line 172 "src/event_parser.y"
                                                             { (yyval.frequencies_value) = make_frequency_caps(); add_frequency((yyvsp[0].frequency_value), (yyval.frequencies_value)); }
-#line 1721 "src/event_parser.c"
+#line 1821 "src/event_parser.c"
     break;
 
   case 37:
-#line 162 "src/event_parser.y"
+#line 174 "src/event_parser.y"
                                                             { add_frequency((yyvsp[0].frequency_value), (yyvsp[-2].frequencies_value)); (yyval.frequencies_value) = (yyvsp[-2].frequencies_value); }
-#line 1727 "src/event_parser.c"
+#line 1827 "src/event_parser.c"
     break;
 
   case 38:
-#line 166 "src/event_parser.y"
+#line 178 "src/event_parser.y"
                                                             { (yyval.frequency_value) = make_frequency_cap((yyvsp[-9].string), (yyvsp[-7].integer_value), (yyvsp[-5].string_value), true, (yyvsp[-1].integer_value), (yyvsp[-3].integer_value)); bfree((yyvsp[-9].string)); }
-#line 1733 "src/event_parser.c"
+#line 1833 "src/event_parser.c"
     break;
 
   case 39:
-#line 168 "src/event_parser.y"
+#line 180 "src/event_parser.y"
                                                             { (yyval.frequency_value) = make_frequency_cap((yyvsp[-10].string), (yyvsp[-8].integer_value), (yyvsp[-6].string_value), true, (yyvsp[-1].integer_value), (yyvsp[-3].integer_value)); bfree((yyvsp[-10].string)); }
-#line 1739 "src/event_parser.c"
+#line 1839 "src/event_parser.c"
     break;
 
 
-#line 1743 "src/event_parser.c"
+#line 1843 "src/event_parser.c"
 
       default: break;
     }
@@ -1971,7 +2071,7 @@ yyreturn:
 #endif
   return yyresult;
 }
-#line 171 "src/event_parser.y"
+#line 183 "src/event_parser.y"
 
 
 #if defined(__GNUC__)
@@ -1988,6 +2088,7 @@ int event_parse(const char *text, struct betree_event** event)
     yyscan_t scanner;
     zzlex_init(&scanner);
     YY_BUFFER_STATE buffer = zz_scan_string(text, scanner);
+    root = NULL;
     int rc = zzparse(scanner);
     zz_delete_buffer(buffer, scanner);
     zzlex_destroy(scanner);
@@ -1997,6 +2098,9 @@ int event_parse(const char *text, struct betree_event** event)
         return 0;
     }
     else {
+        // The program can be complete before the error is seen
+        free_event(root);
+        root = NULL;
         return -1;
     }
 }
diff --git a/src/event_parser.y b/src/event_parser.y
index 5c1c2ef..76a9cf6 100644
--- a/src/event_parser.y
+++ b/src/event_parser.y
@@ -77,6 +77,18 @@
 %type<variable> variable
 %type<event> variable_loop
 
+%destructor { bfree($$); } <string>
+%destructor { bfree((char*)$$.string); } <string_value>
+%destructor { free_integer_list($$); } <integer_list_value>
+%destructor { free_string_list($$); } <string_list_value>
+%destructor { free_segments($$); } <segments_list_value>
+%destructor { free_segment($$); } <segment_value>
+%destructor { free_frequency_caps($$); } <frequencies_value>
+%destructor { free_frequency_cap($$); } <frequency_value>
+%destructor { free_value($$); } <value>
+%destructor { if($$ != NULL) { betree_free_variable($$); } } <variable>
+%destructor { free_event($$); } <event>
+
 %start program
 
 
@@ -184,6 +196,7 @@ int event_parse(const char *text, struct betree_event** event)
     yyscan_t scanner;
     zzlex_init(&scanner);
     YY_BUFFER_STATE buffer = zz_scan_string(text, scanner);
+    root = NULL;
     int rc = zzparse(scanner);
     zz_delete_buffer(buffer, scanner);
     zzlex_destroy(scanner);
@@ -193,6 +206,9 @@ int event_parse(const char *text, struct betree_event** event)
         return 0;
     }
     else {
+        // The program can be complete before the error is seen
+        free_event(root);
+        root = NULL;
         return -1;
     }
 }
-- 
2.43.0


From 7b1434894fa72e34bcadb55005434564373f4a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:58 +0000
Subject: [PATCH 23/48] fix: bound of an integer comparison with the largest
 integer does not overflow

---
 src/ast.c    | 9 +++++++--
 src/betree.c | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index f6da0fa..131a6eb 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -1090,6 +1090,11 @@ struct bound_dirty {
     bool max_dirty;
 };
 
+static int64_t next_integer(int64_t value)
+{
+    return value == INT64_MAX ? value : value + 1;
+}
+
 static void get_variable_bound_inner(const struct attr_domain* domain,
     const struct ast_node* node,
     struct value_bound* bound,
@@ -1756,7 +1761,7 @@ static void get_variable_bound_inner(const struct attr_domain* domain,
                     switch(node->compare_expr.value.value_type) {
                         case AST_COMPARE_VALUE_INTEGER:
                             if(is_reversed) {
-                                bound->imin = node->compare_expr.value.integer_value + 1;
+                                bound->imin = next_integer(node->compare_expr.value.integer_value);
                                 dirty->min_dirty = true;
                             }
                             else {
@@ -1786,7 +1791,7 @@ static void get_variable_bound_inner(const struct attr_domain* domain,
                                 dirty->max_dirty = true;
                             }
                             else {
-                                bound->imin = node->compare_expr.value.integer_value + 1;
+                                bound->imin = next_integer(node->compare_expr.value.integer_value);
                                 dirty->min_dirty = true;
                             }
                             break;
diff --git a/src/betree.c b/src/betree.c
index b1c69bc..1d3fc28 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -191,7 +191,7 @@ static struct value_bound compare_simple_bound(struct compare_value value, enum
             switch(op) {
                 case AST_COMPARE_LT: return inverted ? compare_simple_bound(value, AST_COMPARE_GE, false) : integer_bound(i - 1);
                 case AST_COMPARE_LE: return inverted ? compare_simple_bound(value, AST_COMPARE_GT, false) : integer_bound(i);
-                case AST_COMPARE_GT: return inverted ? compare_simple_bound(value, AST_COMPARE_LE, false) : integer_bound(i + 1);
+                case AST_COMPARE_GT: return inverted ? compare_simple_bound(value, AST_COMPARE_LE, false) : integer_bound(i == INT64_MAX ? i : i + 1);
                 case AST_COMPARE_GE: return inverted ? compare_simple_bound(value, AST_COMPARE_LT, false) : integer_bound(i);
                 default: abort();
             }
-- 
2.43.0


From af6849b3966d4c86fb3eb24c07fa41d98b9d842a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:25 +0000
Subject: [PATCH 24/48] fix: expression equality looks at the kind of null
 test, the constant of a cap, the variable of listed strings and the boolean
 operator

---
 src/ast.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 131a6eb..24caf04 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2347,7 +2347,7 @@ static bool eq_string_list(struct betree_string_list* a, struct betree_string_li
         return false;
     }
     for(size_t i = 0; i < a->count; i++) {
-        if(a->strings[i].var == b->strings[i].var && a->strings[i].str != b->strings[i].str) {
+        if(a->strings[i].var != b->strings[i].var || a->strings[i].str != b->strings[i].str) {
             return false;
         }
     }
@@ -2409,6 +2409,7 @@ static bool eq_special_expr(struct ast_special_expr a, struct ast_special_expr b
     switch(a.type) {
         case AST_SPECIAL_FREQUENCY:
             return a.frequency.attr_var.var == b.frequency.attr_var.var
+                && a.frequency.id == b.frequency.id
                 && a.frequency.length == b.frequency.length
                 && a.frequency.ns.var == b.frequency.ns.var
                 && a.frequency.ns.str == b.frequency.ns.str && a.frequency.op == b.frequency.op
@@ -2439,7 +2440,8 @@ bool eq_expr(const struct ast_node* a, const struct ast_node* b)
     }
     switch(a->type) {
         case AST_TYPE_IS_NULL_EXPR:
-            return a->is_null_expr.attr_var.var == b->is_null_expr.attr_var.var;
+            return a->is_null_expr.type == b->is_null_expr.type
+                && a->is_null_expr.attr_var.var == b->is_null_expr.attr_var.var;
         case AST_TYPE_COMPARE_EXPR: {
             return a->compare_expr.attr_var.var == b->compare_expr.attr_var.var
                 && a->compare_expr.op == b->compare_expr.op
@@ -2475,6 +2477,9 @@ bool fast_eq_expr(const struct ast_node* a, const struct ast_node* b)
         return false;
     }
     if(a->type == AST_TYPE_BOOL_EXPR) {
+        if(a->bool_expr.op != b->bool_expr.op) {
+            return false;
+        }
         if(a->bool_expr.op == AST_BOOL_NOT) {
             return a->bool_expr.unary.expr->global_id == b->bool_expr.unary.expr->global_id;
         }
-- 
2.43.0


From a9bbe3fcb730f88d86ad47df3b92c4c8bca734e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:27 +0000
Subject: [PATCH 25/48] fix: the copy of a special expression has all of its
 fields

---
 src/clone.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/clone.c b/src/clone.c
index 6213ebf..756f4a9 100644
--- a/src/clone.c
+++ b/src/clone.c
@@ -222,6 +222,8 @@ static struct ast_node* clone_special(betree_pred_t global_id, betree_pred_t mem
             clone->special_expr.frequency.op = orig.frequency.op;
             clone->special_expr.frequency.type = orig.frequency.type;
             clone->special_expr.frequency.value = orig.frequency.value;
+            clone->special_expr.frequency.now = clone_attr_var(orig.frequency.now);
+            clone->special_expr.frequency.id = orig.frequency.id;
             break;
         case AST_SPECIAL_SEGMENT:
             clone->special_expr.segment.attr_var = clone_attr_var(orig.segment.attr_var);
@@ -229,6 +231,7 @@ static struct ast_node* clone_special(betree_pred_t global_id, betree_pred_t mem
             clone->special_expr.segment.op = orig.segment.op;
             clone->special_expr.segment.seconds = orig.segment.seconds;
             clone->special_expr.segment.segment_id = orig.segment.segment_id;
+            clone->special_expr.segment.now = clone_attr_var(orig.segment.now);
             break;
         case AST_SPECIAL_GEO:
             clone->special_expr.geo.has_radius = orig.geo.has_radius;
@@ -236,6 +239,8 @@ static struct ast_node* clone_special(betree_pred_t global_id, betree_pred_t mem
             clone->special_expr.geo.longitude = orig.geo.longitude;
             clone->special_expr.geo.op = orig.geo.op;
             clone->special_expr.geo.radius = orig.geo.radius;
+            clone->special_expr.geo.latitude_var = clone_attr_var(orig.geo.latitude_var);
+            clone->special_expr.geo.longitude_var = clone_attr_var(orig.geo.longitude_var);
             break;
         case AST_SPECIAL_STRING:
             clone->special_expr.string.attr_var = clone_attr_var(orig.string.attr_var);
-- 
2.43.0


From 4be05fe47ccf89b45f812f666aa08b57716b3799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:42 +0000
Subject: [PATCH 26/48] fix: adjusted boundaries never shrink, whatever
 constants were announced

---
 src/betree.c | 9 +++++----
 src/config.c | 1 +
 src/config.h | 1 +
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/betree.c b/src/betree.c
index 1d3fc28..4c64607 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -392,13 +392,13 @@ static void change_boundaries(struct config* config, const struct ast_node* node
                 break;
             case BETREE_INTEGER:
             case BETREE_INTEGER_LIST:
-                if(attr_domain->bound.imin != INT64_MIN) {
+                if(attr_domain->adjusted || attr_domain->bound.imin != INT64_MIN) {
                     attr_domain->bound.imin = bound.imin < attr_domain->bound.imin ? bound.imin : attr_domain->bound.imin;
                 }
                 else {
                     attr_domain->bound.imin = bound.imin;
                 }
-                if(attr_domain->bound.imax != INT64_MAX) {
+                if(attr_domain->adjusted || attr_domain->bound.imax != INT64_MAX) {
                     attr_domain->bound.imax = bound.imax > attr_domain->bound.imax ? bound.imax : attr_domain->bound.imax;
                 }
                 else {
@@ -406,13 +406,13 @@ static void change_boundaries(struct config* config, const struct ast_node* node
                 }
                 break;
             case BETREE_FLOAT:
-                if(fne(attr_domain->bound.fmin, -DBL_MAX)) {
+                if(attr_domain->adjusted || fne(attr_domain->bound.fmin, -DBL_MAX)) {
                     attr_domain->bound.fmin = bound.fmin < attr_domain->bound.fmin ? bound.fmin : attr_domain->bound.fmin;
                 }
                 else {
                     attr_domain->bound.fmin = bound.fmin;
                 }
-                if(fne(attr_domain->bound.fmax, DBL_MAX)) {
+                if(attr_domain->adjusted || fne(attr_domain->bound.fmax, DBL_MAX)) {
                     attr_domain->bound.fmax = bound.fmax > attr_domain->bound.fmax ? bound.fmax : attr_domain->bound.fmax;
                 }
                 else {
@@ -453,6 +453,7 @@ static void change_boundaries(struct config* config, const struct ast_node* node
             default:
                 break;
         }
+        attr_domain->adjusted = true;
     }
 }
 
diff --git a/src/config.c b/src/config.c
index 10e01d3..da6d142 100644
--- a/src/config.c
+++ b/src/config.c
@@ -80,6 +80,7 @@ static struct attr_domain* make_attr_domain(
     attr_domain->attr_var.var = variable_id;
     attr_domain->bound = bound;
     attr_domain->allow_undefined = allow_undefined;
+    attr_domain->adjusted = false;
     return attr_domain;
 }
 
diff --git a/src/config.h b/src/config.h
index 229ee66..70051cc 100644
--- a/src/config.h
+++ b/src/config.h
@@ -12,6 +12,7 @@ struct attr_domain {
     struct attr_var attr_var;
     struct value_bound bound;
     bool allow_undefined;
+    bool adjusted; // The bound was adjusted to expressions, from then on it can only grow
 };
 
 struct ast_node;
-- 
2.43.0


From 3cc6adf84d09a80efdbc86eed40d7a9db504a9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:21 +0000
Subject: [PATCH 27/48] fix: a new string map is initialised even when no
 string can be added to it

---
 src/config.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/config.c b/src/config.c
index da6d142..4be96a8 100644
--- a/src/config.c
+++ b/src/config.c
@@ -252,6 +252,7 @@ static void add_string_map(struct attr_var attr_var, struct config* config)
     config->string_maps[config->string_map_count].attr_var.attr = bstrdup(attr_var.attr);
     config->string_maps[config->string_map_count].attr_var.var = attr_var.var;
     config->string_maps[config->string_map_count].string_value_count = 0;
+    map_init(&config->string_maps[config->string_map_count].m);
     config->string_map_count++;
 }
 
@@ -279,9 +280,6 @@ static void add_to_integer_map(struct integer_map* integer_map, int64_t integer)
 
 static void add_to_string_map(struct string_map* string_map, const char* string)
 {
-    if(string_map->string_value_count == 0) {
-        map_init(&string_map->m);
-    }
     map_set(&string_map->m, string, string_map->string_value_count);
     string_map->string_value_count++;
 }
-- 
2.43.0


From 2a5aa2a61fe9ce2621154473964f5195e553be26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:10 +0000
Subject: [PATCH 28/48] fix: printed decimals read back as the same value

---
 src/printer.c | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/printer.c b/src/printer.c
index 7b3ae02..b81e816 100644
--- a/src/printer.c
+++ b/src/printer.c
@@ -8,6 +8,23 @@
 #include "tree.h"
 #include "utils.h"
 
+// At least two decimals, and as many as needed to read back the same value
+static char* float_value_to_string(double value)
+{
+    int precision = 2;
+    while(true) {
+        char* expr;
+        if(basprintf(&expr, "%.*f", precision, value) < 0) {
+            abort();
+        }
+        if(strtod(expr, NULL) == value || precision >= DBL_DIG - DBL_MIN_10_EXP) {
+            return expr;
+        }
+        bfree(expr);
+        precision++;
+    }
+}
+
 static const char* compare_value_to_string(struct compare_value value)
 {
     char* expr;
@@ -18,9 +35,7 @@ static const char* compare_value_to_string(struct compare_value value)
             }
             break;
         case AST_COMPARE_VALUE_FLOAT:
-            if(basprintf(&expr, "%.2f", value.float_value) < 0) {
-                abort();
-            }
+            expr = float_value_to_string(value.float_value);
             break;
         default: abort();
     }
@@ -52,9 +67,7 @@ static const char* equality_value_to_string(struct equality_value value)
             }
             break;
         case AST_EQUALITY_VALUE_FLOAT:
-            if(basprintf(&expr, "%.2f", value.float_value) < 0) {
-                abort();
-            }
+            expr = float_value_to_string(value.float_value);
             break;
         case AST_EQUALITY_VALUE_STRING:
             if(basprintf(&expr, "\"%s\"", value.string_value.string) < 0) {
@@ -233,14 +246,15 @@ char* ast_to_string(const struct ast_node* node)
                     return expr;
                 }
                 case AST_SPECIAL_GEO: {
-                    if(basprintf(&expr,
-                           "geo_within_radius(%.2f, %.2f, %.2f)",
-                           node->special_expr.geo.latitude,
-                           node->special_expr.geo.longitude,
-                           node->special_expr.geo.radius)
-                        < 0) {
+                    char* latitude = float_value_to_string(node->special_expr.geo.latitude);
+                    char* longitude = float_value_to_string(node->special_expr.geo.longitude);
+                    char* radius = float_value_to_string(node->special_expr.geo.radius);
+                    if(basprintf(&expr, "geo_within_radius(%s, %s, %s)", latitude, longitude, radius) < 0) {
                         abort();
                     }
+                    bfree(latitude);
+                    bfree(longitude);
+                    bfree(radius);
                     return expr;
                 }
                 case AST_SPECIAL_STRING: {
-- 
2.43.0


From 7a2d660c718223bd9e6d7460461af2fecf4eee1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:10 +0000
Subject: [PATCH 29/48] fix: negative segment ids are printed as they are
 written

---
 src/printer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/printer.c b/src/printer.c
index b81e816..e0d76d8 100644
--- a/src/printer.c
+++ b/src/printer.c
@@ -235,7 +235,7 @@ char* ast_to_string(const struct ast_node* node)
                         default: abort();
                     }
                     if(basprintf(&expr,
-                           "%s(%s, %lu, %ld)",
+                           "%s(%s, %ld, %ld)",
                            op,
                            node->special_expr.segment.attr_var.attr,
                            node->special_expr.segment.segment_id,
-- 
2.43.0


From eb87721a341e3e7eb8b6fd89cd893c81abffe20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:45 +0000
Subject: [PATCH 30/48] fix: ordered container counts only the elements it
 holds

Inserting an element already present, or erasing one that is absent, changed
the size although the contents did not change.
---
 src/jsw_rbtree.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/jsw_rbtree.c b/src/jsw_rbtree.c
index d9fc229..f516d59 100644
--- a/src/jsw_rbtree.c
+++ b/src/jsw_rbtree.c
@@ -137,6 +137,8 @@ int jsw_rbinsert(struct jsw_rbtree* tree, void* data)
         if(tree->root == NULL) {
             return 0;
 		}
+
+        tree->size++;
     }
     else {
         struct jsw_rbnode head = {0}; 
@@ -155,6 +157,8 @@ int jsw_rbinsert(struct jsw_rbtree* tree, void* data)
                 if(q == NULL) {
                     return 0;
                 }
+
+                tree->size++;
             }
             else if(is_red(q->link[0]) && is_red(q->link[1])) {
                 q->red = 1;
@@ -192,7 +196,6 @@ int jsw_rbinsert(struct jsw_rbtree* tree, void* data)
     }
 
     tree->root->red = 0;
-    tree->size++;
 
     return 1;
 }
@@ -256,6 +259,7 @@ int jsw_rberase(struct jsw_rbtree* tree, void* data)
             f->data = q->data;
             p->link[p->link[1] == q] = q->link[q->link[0] == NULL];
             bfree(q);
+            tree->size--;
         }
 
         tree->root = head.link[1];
@@ -263,8 +267,6 @@ int jsw_rberase(struct jsw_rbtree* tree, void* data)
         if(tree->root != NULL) {
             tree->root->red = 0;
         }
-
-        tree->size--;
     }
 
     return 1;
-- 
2.43.0


From 6014e3a8f25c8fcb8b1b5cf5577b988873b11300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 31/48] fix: events are read independently by each thread

The event being read was kept in one global variable, so two threads reading
event text at the same time, even for different trees, took or freed each
other's event.
---
 src/event_parser.c | 2 +-
 src/event_parser.y | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/event_parser.c b/src/event_parser.c
index 58444e9..9b55307 100644
--- a/src/event_parser.c
+++ b/src/event_parser.c
@@ -84,7 +84,7 @@
     #include "event_parser.h"
     #include "tree.h"
     #include "value.h"
-    struct betree_event *root;
+    static _Thread_local struct betree_event *root;
     extern int zzlex();
     void zzerror(void *scanner, const char *s) { (void)scanner; printf("ERROR: %s\n", s); }
 #if defined(__GNUC__)
diff --git a/src/event_parser.y b/src/event_parser.y
index 76a9cf6..f8411fa 100644
--- a/src/event_parser.y
+++ b/src/event_parser.y
@@ -9,7 +9,7 @@
     #include "event_parser.h"
     #include "tree.h"
     #include "value.h"
-    struct betree_event *root;
+    static _Thread_local struct betree_event *root;
     extern int zzlex();
     void zzerror(void *scanner, const char *s) { (void)scanner; printf("ERROR: %s\n", s); }
 #if defined(__GNUC__)
-- 
2.43.0


From 6e0fb705473ad86f151c75a549fc1ec7fc3d2a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 32/48] fix: looking up a string for a search does not write to
 the tree

map_get stores the result in the map itself, which made concurrent searches of
one tree write to it without synchronisation.
---
 src/config.c       |    5 +-
 src/event_parser.c | 1173 +++++++++++++++++++-------------------------
 2 files changed, 496 insertions(+), 682 deletions(-)

diff --git a/src/config.c b/src/config.c
index 4be96a8..1341318 100644
--- a/src/config.c
+++ b/src/config.c
@@ -306,8 +306,9 @@ betree_str_t try_get_id_for_string(
 {
     for(size_t i = 0; i < config->string_map_count; i++) {
         if(config->string_maps[i].attr_var.var == attr_var.var) {
-            struct string_map* string_map = string_map = &config->string_maps[i];
-            betree_str_t* str = map_get(&string_map->m, string);
+            const struct string_map* string_map = &config->string_maps[i];
+            // Searches call this, so the map can't be written to like map_get does
+            const betree_str_t* str = map_get_((map_base_t*)&string_map->m.base, string);
             if(str != NULL) {
                 return *str;
             }
diff --git a/src/event_parser.c b/src/event_parser.c
index 9b55307..586ae79 100644
--- a/src/event_parser.c
+++ b/src/event_parser.c
@@ -1,8 +1,8 @@
-/* A Bison parser, made by GNU Bison 3.5.1.  */
+/* A Bison parser, made by GNU Bison 3.8.2.  */
 
 /* Bison implementation for Yacc-like parsers in C
 
-   Copyright (C) 1984, 1989-1990, 2000-2015, 2018-2020 Free Software Foundation,
+   Copyright (C) 1984, 1989-1990, 2000-2015, 2018-2021 Free Software Foundation,
    Inc.
 
    This program is free software: you can redistribute it and/or modify
@@ -16,7 +16,7 @@
    GNU General Public License for more details.
 
    You should have received a copy of the GNU General Public License
-   along with this program.  If not, see <http://www.gnu.org/licenses/>.  */
+   along with this program.  If not, see <https://www.gnu.org/licenses/>.  */
 
 /* As a special exception, you may create a larger work that contains
    part or all of the Bison parser skeleton and distribute that work
@@ -34,6 +34,10 @@
 /* C LALR(1) parser skeleton written by Richard Stallman, by
    simplifying the original so-called "semantic" parser.  */
 
+/* DO NOT RELY ON FEATURES THAT ARE NOT DOCUMENTED in the manual,
+   especially those whose name start with YY_ or yy_.  They are
+   private implementation details that can be changed or removed.  */
+
 /* All symbols defined below should begin with yy or YY, to avoid
    infringing on user name space.  This should be done even for local
    variables, as they might otherwise be expanded by user macros.
@@ -41,14 +45,11 @@
    define necessary library symbols; they are noted "INFRINGES ON
    USER NAME SPACE" below.  */
 
-/* Undocumented macros, especially those whose name start with YY_,
-   are private implementation details.  Do not rely on them.  */
-
-/* Identify Bison output.  */
-#define YYBISON 1
+/* Identify Bison output, and Bison version.  */
+#define YYBISON 30802
 
-/* Bison version.  */
-#define YYBISON_VERSION "3.5.1"
+/* Bison version string.  */
+#define YYBISON_VERSION "3.8.2"
 
 /* Skeleton name.  */
 #define YYSKELETON_NAME "yacc.c"
@@ -72,7 +73,7 @@
 #define yynerrs         zznerrs
 
 /* First part of user prologue.  */
-#line 1 "src/event_parser.y"
+#line 1 "/repo/src/event_parser.y"
 
     #include <stdint.h>
     #include <stdbool.h>
@@ -92,11 +93,11 @@
     #pragma GCC diagnostic ignored "-Wswitch-default"
     #pragma GCC diagnostic ignored "-Wshadow"
 #endif
-#line 28 "src/event_parser.y"
+#line 28 "/repo/src/event_parser.y"
 
     int event_parse(const char *text, struct betree_event **event);
 
-#line 100 "src/event_parser.c"
+#line 101 "y.tab.c"
 
 # ifndef YY_CAST
 #  ifdef __cplusplus
@@ -119,18 +120,7 @@
 #  endif
 # endif
 
-/* Enabling verbose error messages.  */
-#ifdef YYERROR_VERBOSE
-# undef YYERROR_VERBOSE
-# define YYERROR_VERBOSE 1
-#else
-# define YYERROR_VERBOSE 0
-#endif
 
-/* Use api.header.include to #include this header
-   instead of duplicating it here.  */
-#ifndef YY_ZZ_SRC_EVENT_PARSER_H_INCLUDED
-# define YY_ZZ_SRC_EVENT_PARSER_H_INCLUDED
 /* Debug traces.  */
 #ifndef ZZDEBUG
 # if defined YYDEBUG
@@ -147,32 +137,55 @@
 extern int zzdebug;
 #endif
 
-/* Token type.  */
+/* Token kinds.  */
 #ifndef ZZTOKENTYPE
 # define ZZTOKENTYPE
   enum zztokentype
   {
-    EVENT_LCURLY = 258,
-    EVENT_RCURLY = 259,
-    EVENT_LSQUARE = 260,
-    EVENT_RSQUARE = 261,
-    EVENT_COMMA = 262,
-    EVENT_COLON = 263,
-    EVENT_MINUS = 264,
-    EVENT_NULL = 265,
-    EVENT_TRUE = 266,
-    EVENT_FALSE = 267,
-    EVENT_INTEGER = 268,
-    EVENT_FLOAT = 269,
-    EVENT_STRING = 270
+    ZZEMPTY = -2,
+    ZZEOF = 0,                     /* "end of file"  */
+    ZZerror = 256,                 /* error  */
+    ZZUNDEF = 257,                 /* "invalid token"  */
+    EVENT_LCURLY = 258,            /* EVENT_LCURLY  */
+    EVENT_RCURLY = 259,            /* EVENT_RCURLY  */
+    EVENT_LSQUARE = 260,           /* EVENT_LSQUARE  */
+    EVENT_RSQUARE = 261,           /* EVENT_RSQUARE  */
+    EVENT_COMMA = 262,             /* EVENT_COMMA  */
+    EVENT_COLON = 263,             /* EVENT_COLON  */
+    EVENT_MINUS = 264,             /* EVENT_MINUS  */
+    EVENT_NULL = 265,              /* EVENT_NULL  */
+    EVENT_TRUE = 266,              /* EVENT_TRUE  */
+    EVENT_FALSE = 267,             /* EVENT_FALSE  */
+    EVENT_INTEGER = 268,           /* EVENT_INTEGER  */
+    EVENT_FLOAT = 269,             /* EVENT_FLOAT  */
+    EVENT_STRING = 270             /* EVENT_STRING  */
   };
+  typedef enum zztokentype zztoken_kind_t;
 #endif
+/* Token kinds.  */
+#define ZZEMPTY -2
+#define ZZEOF 0
+#define ZZerror 256
+#define ZZUNDEF 257
+#define EVENT_LCURLY 258
+#define EVENT_RCURLY 259
+#define EVENT_LSQUARE 260
+#define EVENT_RSQUARE 261
+#define EVENT_COMMA 262
+#define EVENT_COLON 263
+#define EVENT_MINUS 264
+#define EVENT_NULL 265
+#define EVENT_TRUE 266
+#define EVENT_FALSE 267
+#define EVENT_INTEGER 268
+#define EVENT_FLOAT 269
+#define EVENT_STRING 270
 
 /* Value type.  */
 #if ! defined ZZSTYPE && ! defined ZZSTYPE_IS_DECLARED
 union ZZSTYPE
 {
-#line 32 "src/event_parser.y"
+#line 32 "/repo/src/event_parser.y"
 
     int token;
     char *string;
@@ -193,7 +206,7 @@ union ZZSTYPE
 
     struct betree_event* event;
 
-#line 197 "src/event_parser.c"
+#line 210 "y.tab.c"
 
 };
 typedef union ZZSTYPE ZZSTYPE;
@@ -203,9 +216,54 @@ typedef union ZZSTYPE ZZSTYPE;
 
 
 
+
 int zzparse (void *scanner);
 
-#endif /* !YY_ZZ_SRC_EVENT_PARSER_H_INCLUDED  */
+
+
+/* Symbol kind.  */
+enum yysymbol_kind_t
+{
+  YYSYMBOL_YYEMPTY = -2,
+  YYSYMBOL_YYEOF = 0,                      /* "end of file"  */
+  YYSYMBOL_YYerror = 1,                    /* error  */
+  YYSYMBOL_YYUNDEF = 2,                    /* "invalid token"  */
+  YYSYMBOL_EVENT_LCURLY = 3,               /* EVENT_LCURLY  */
+  YYSYMBOL_EVENT_RCURLY = 4,               /* EVENT_RCURLY  */
+  YYSYMBOL_EVENT_LSQUARE = 5,              /* EVENT_LSQUARE  */
+  YYSYMBOL_EVENT_RSQUARE = 6,              /* EVENT_RSQUARE  */
+  YYSYMBOL_EVENT_COMMA = 7,                /* EVENT_COMMA  */
+  YYSYMBOL_EVENT_COLON = 8,                /* EVENT_COLON  */
+  YYSYMBOL_EVENT_MINUS = 9,                /* EVENT_MINUS  */
+  YYSYMBOL_EVENT_NULL = 10,                /* EVENT_NULL  */
+  YYSYMBOL_EVENT_TRUE = 11,                /* EVENT_TRUE  */
+  YYSYMBOL_EVENT_FALSE = 12,               /* EVENT_FALSE  */
+  YYSYMBOL_EVENT_INTEGER = 13,             /* EVENT_INTEGER  */
+  YYSYMBOL_EVENT_FLOAT = 14,               /* EVENT_FLOAT  */
+  YYSYMBOL_EVENT_STRING = 15,              /* EVENT_STRING  */
+  YYSYMBOL_YYACCEPT = 16,                  /* $accept  */
+  YYSYMBOL_program = 17,                   /* program  */
+  YYSYMBOL_variable_loop = 18,             /* variable_loop  */
+  YYSYMBOL_variable = 19,                  /* variable  */
+  YYSYMBOL_value = 20,                     /* value  */
+  YYSYMBOL_boolean = 21,                   /* boolean  */
+  YYSYMBOL_integer = 22,                   /* integer  */
+  YYSYMBOL_float = 23,                     /* float  */
+  YYSYMBOL_string = 24,                    /* string  */
+  YYSYMBOL_empty_list_value = 25,          /* empty_list_value  */
+  YYSYMBOL_integer_list_value = 26,        /* integer_list_value  */
+  YYSYMBOL_integer_list_loop = 27,         /* integer_list_loop  */
+  YYSYMBOL_string_list_value = 28,         /* string_list_value  */
+  YYSYMBOL_string_list_loop = 29,          /* string_list_loop  */
+  YYSYMBOL_segments_value = 30,            /* segments_value  */
+  YYSYMBOL_segments_loop = 31,             /* segments_loop  */
+  YYSYMBOL_segment_value = 32,             /* segment_value  */
+  YYSYMBOL_frequencies_value = 33,         /* frequencies_value  */
+  YYSYMBOL_frequencies_loop = 34,          /* frequencies_loop  */
+  YYSYMBOL_frequency_value = 35            /* frequency_value  */
+};
+typedef enum yysymbol_kind_t yysymbol_kind_t;
+
 
 
 
@@ -246,6 +304,18 @@ typedef int_least16_t yytype_int16;
 typedef short yytype_int16;
 #endif
 
+/* Work around bug in HP-UX 11.23, which defines these macros
+   incorrectly for preprocessor constants.  This workaround can likely
+   be removed in 2023, as HPE has promised support for HP-UX 11.23
+   (aka HP-UX 11i v2) only through the end of 2022; see Table 2 of
+   <https://h20195.www2.hpe.com/V2/getpdf.aspx/4AA4-7673ENW.pdf>.  */
+#ifdef __hpux
+# undef UINT_LEAST8_MAX
+# undef UINT_LEAST16_MAX
+# define UINT_LEAST8_MAX 255
+# define UINT_LEAST16_MAX 65535
+#endif
+
 #if defined __UINT_LEAST8_MAX__ && __UINT_LEAST8_MAX__ <= __INT_MAX__
 typedef __UINT_LEAST8_TYPE__ yytype_uint8;
 #elif (!defined __UINT_LEAST8_MAX__ && defined YY_STDINT_H \
@@ -305,6 +375,7 @@ typedef int yytype_uint16;
 
 #define YYSIZEOF(X) YY_CAST (YYPTRDIFF_T, sizeof (X))
 
+
 /* Stored state numbers (used for stacks). */
 typedef yytype_int8 yy_state_t;
 
@@ -323,6 +394,7 @@ typedef int yy_state_fast_t;
 # endif
 #endif
 
+
 #ifndef YY_ATTRIBUTE_PURE
 # if defined __GNUC__ && 2 < __GNUC__ + (96 <= __GNUC_MINOR__)
 #  define YY_ATTRIBUTE_PURE __attribute__ ((__pure__))
@@ -341,17 +413,23 @@ typedef int yy_state_fast_t;
 
 /* Suppress unused-variable warnings by "using" E.  */
 #if ! defined lint || defined __GNUC__
-# define YYUSE(E) ((void) (E))
+# define YY_USE(E) ((void) (E))
 #else
-# define YYUSE(E) /* empty */
+# define YY_USE(E) /* empty */
 #endif
 
-#if defined __GNUC__ && ! defined __ICC && 407 <= __GNUC__ * 100 + __GNUC_MINOR__
 /* Suppress an incorrect diagnostic about yylval being uninitialized.  */
-# define YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN                            \
+#if defined __GNUC__ && ! defined __ICC && 406 <= __GNUC__ * 100 + __GNUC_MINOR__
+# if __GNUC__ * 100 + __GNUC_MINOR__ < 407
+#  define YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN                           \
+    _Pragma ("GCC diagnostic push")                                     \
+    _Pragma ("GCC diagnostic ignored \"-Wuninitialized\"")
+# else
+#  define YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN                           \
     _Pragma ("GCC diagnostic push")                                     \
     _Pragma ("GCC diagnostic ignored \"-Wuninitialized\"")              \
     _Pragma ("GCC diagnostic ignored \"-Wmaybe-uninitialized\"")
+# endif
 # define YY_IGNORE_MAYBE_UNINITIALIZED_END      \
     _Pragma ("GCC diagnostic pop")
 #else
@@ -380,7 +458,7 @@ typedef int yy_state_fast_t;
 
 #define YY_ASSERT(E) ((void) (0 && (E)))
 
-#if ! defined yyoverflow || YYERROR_VERBOSE
+#if !defined yyoverflow
 
 /* The parser invokes alloca or malloc; define the necessary symbols.  */
 
@@ -445,8 +523,7 @@ void free (void *); /* INFRINGES ON USER NAME SPACE */
 #   endif
 #  endif
 # endif
-#endif /* ! defined yyoverflow || YYERROR_VERBOSE */
-
+#endif /* !defined yyoverflow */
 
 #if (! defined yyoverflow \
      && (! defined __cplusplus \
@@ -522,14 +599,16 @@ union yyalloc
 /* YYNSTATES -- Number of states.  */
 #define YYNSTATES  83
 
-#define YYUNDEFTOK  2
+/* YYMAXUTOK -- Last valid token kind.  */
 #define YYMAXUTOK   270
 
 
 /* YYTRANSLATE(TOKEN-NUM) -- Symbol number corresponding to TOKEN-NUM
    as returned by yylex, with out-of-bounds checking.  */
-#define YYTRANSLATE(YYX)                                                \
-  (0 <= (YYX) && (YYX) <= YYMAXUTOK ? yytranslate[YYX] : YYUNDEFTOK)
+#define YYTRANSLATE(YYX)                                \
+  (0 <= (YYX) && (YYX) <= YYMAXUTOK                     \
+   ? YY_CAST (yysymbol_kind_t, yytranslate[YYX])        \
+   : YYSYMBOL_YYUNDEF)
 
 /* YYTRANSLATE[TOKEN-NUM] -- Symbol number corresponding to TOKEN-NUM
    as returned by yylex.  */
@@ -566,24 +645,31 @@ static const yytype_int8 yytranslate[] =
 };
 
 #if ZZDEBUG
-  /* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
+/* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
 static const yytype_uint8 yyrline[] =
 {
-       0,    94,    94,    95,    98,    99,   102,   103,   106,   107,
-     108,   109,   110,   111,   112,   113,   114,   116,   117,   120,
-     121,   124,   125,   128,   130,   132,   135,   136,   139,   142,
-     143,   146,   149,   150,   154,   157,   160,   161,   165,   167
+       0,   106,   106,   107,   110,   111,   114,   115,   118,   119,
+     120,   121,   122,   123,   124,   125,   126,   128,   129,   132,
+     133,   136,   137,   140,   142,   144,   147,   148,   151,   154,
+     155,   158,   161,   162,   166,   169,   172,   173,   177,   179
 };
 #endif
 
-#if ZZDEBUG || YYERROR_VERBOSE || 0
+/** Accessing symbol of state STATE.  */
+#define YY_ACCESSING_SYMBOL(State) YY_CAST (yysymbol_kind_t, yystos[State])
+
+#if ZZDEBUG || 0
+/* The user-facing name of the symbol whose (internal) number is
+   YYSYMBOL.  No bounds checking.  */
+static const char *yysymbol_name (yysymbol_kind_t yysymbol) YY_ATTRIBUTE_UNUSED;
+
 /* YYTNAME[SYMBOL-NUM] -- String name of the symbol SYMBOL-NUM.
    First, the terminals, then, starting at YYNTOKENS, nonterminals.  */
 static const char *const yytname[] =
 {
-  "$end", "error", "$undefined", "EVENT_LCURLY", "EVENT_RCURLY",
-  "EVENT_LSQUARE", "EVENT_RSQUARE", "EVENT_COMMA", "EVENT_COLON",
-  "EVENT_MINUS", "EVENT_NULL", "EVENT_TRUE", "EVENT_FALSE",
+  "\"end of file\"", "error", "\"invalid token\"", "EVENT_LCURLY",
+  "EVENT_RCURLY", "EVENT_LSQUARE", "EVENT_RSQUARE", "EVENT_COMMA",
+  "EVENT_COLON", "EVENT_MINUS", "EVENT_NULL", "EVENT_TRUE", "EVENT_FALSE",
   "EVENT_INTEGER", "EVENT_FLOAT", "EVENT_STRING", "$accept", "program",
   "variable_loop", "variable", "value", "boolean", "integer", "float",
   "string", "empty_list_value", "integer_list_value", "integer_list_loop",
@@ -591,17 +677,13 @@ static const char *const yytname[] =
   "segments_loop", "segment_value", "frequencies_value",
   "frequencies_loop", "frequency_value", YY_NULLPTR
 };
-#endif
 
-# ifdef YYPRINT
-/* YYTOKNUM[NUM] -- (External) token number corresponding to the
-   (internal) symbol number NUM (which must be that of a token).  */
-static const yytype_int16 yytoknum[] =
+static const char *
+yysymbol_name (yysymbol_kind_t yysymbol)
 {
-       0,   256,   257,   258,   259,   260,   261,   262,   263,   264,
-     265,   266,   267,   268,   269,   270
-};
-# endif
+  return yytname[yysymbol];
+}
+#endif
 
 #define YYPACT_NINF (-10)
 
@@ -613,8 +695,8 @@ static const yytype_int16 yytoknum[] =
 #define yytable_value_is_error(Yyn) \
   0
 
-  /* YYPACT[STATE-NUM] -- Index in YYTABLE of the portion describing
-     STATE-NUM.  */
+/* YYPACT[STATE-NUM] -- Index in YYTABLE of the portion describing
+   STATE-NUM.  */
 static const yytype_int8 yypact[] =
 {
        8,    -3,    29,   -10,    36,     3,   -10,   -10,     4,   -10,
@@ -628,9 +710,9 @@ static const yytype_int8 yypact[] =
      -10,    64,   -10
 };
 
-  /* YYDEFACT[STATE-NUM] -- Default reduction number in state STATE-NUM.
-     Performed when YYTABLE does not specify something else to do.  Zero
-     means the default is an error.  */
+/* YYDEFACT[STATE-NUM] -- Default reduction number in state STATE-NUM.
+   Performed when YYTABLE does not specify something else to do.  Zero
+   means the default is an error.  */
 static const yytype_int8 yydefact[] =
 {
        0,     0,     0,     2,     0,     0,     4,     1,     0,     3,
@@ -644,23 +726,23 @@ static const yytype_int8 yydefact[] =
       38,     0,    39
 };
 
-  /* YYPGOTO[NTERM-NUM].  */
+/* YYPGOTO[NTERM-NUM].  */
 static const yytype_int8 yypgoto[] =
 {
      -10,   -10,   -10,    63,   -10,   -10,    -8,   -10,    -9,   -10,
      -10,   -10,   -10,   -10,   -10,   -10,     2,   -10,   -10,    19
 };
 
-  /* YYDEFGOTO[NTERM-NUM].  */
+/* YYDEFGOTO[NTERM-NUM].  */
 static const yytype_int8 yydefgoto[] =
 {
-      -1,     2,     5,     6,    19,    20,    45,    22,    23,    24,
+       0,     2,     5,     6,    19,    20,    45,    22,    23,    24,
       25,    35,    26,    36,    27,    37,    38,    28,    39,    40
 };
 
-  /* YYTABLE[YYPACT[STATE-NUM]] -- What to do in state STATE-NUM.  If
-     positive, shift that token.  If negative, reduce the rule whose
-     number is the opposite.  If YYTABLE_NINF, syntax error.  */
+/* YYTABLE[YYPACT[STATE-NUM]] -- What to do in state STATE-NUM.  If
+   positive, shift that token.  If negative, reduce the rule whose
+   number is the opposite.  If YYTABLE_NINF, syntax error.  */
 static const yytype_int8 yytable[] =
 {
       21,     3,    34,    33,    32,    46,    47,     9,    16,    11,
@@ -685,8 +767,8 @@ static const yytype_int8 yycheck[] =
        6,    79,    53,    10
 };
 
-  /* YYSTOS[STATE-NUM] -- The (internal number of the) accessing
-     symbol of state STATE-NUM.  */
+/* YYSTOS[STATE-NUM] -- The symbol kind of the accessing symbol of
+   state STATE-NUM.  */
 static const yytype_int8 yystos[] =
 {
        0,     3,    17,     4,    15,    18,    19,     0,     8,     4,
@@ -700,7 +782,7 @@ static const yytype_int8 yystos[] =
        6,    22,     6
 };
 
-  /* YYR1[YYN] -- Symbol number of symbol that rule YYN derives.  */
+/* YYR1[RULE-NUM] -- Symbol kind of the left-hand side of rule RULE-NUM.  */
 static const yytype_int8 yyr1[] =
 {
        0,    16,    17,    17,    18,    18,    19,    19,    20,    20,
@@ -709,7 +791,7 @@ static const yytype_int8 yyr1[] =
       29,    30,    31,    31,    32,    33,    34,    34,    35,    35
 };
 
-  /* YYR2[YYN] -- Number of symbols on the right hand side of rule YYN.  */
+/* YYR2[RULE-NUM] -- Number of symbols on the right-hand side of rule RULE-NUM.  */
 static const yytype_int8 yyr2[] =
 {
        0,     2,     2,     3,     1,     3,     3,     3,     1,     1,
@@ -719,21 +801,22 @@ static const yytype_int8 yyr2[] =
 };
 
 
+enum { YYENOMEM = -2 };
+
 #define yyerrok         (yyerrstatus = 0)
-#define yyclearin       (yychar = YYEMPTY)
-#define YYEMPTY         (-2)
-#define YYEOF           0
+#define yyclearin       (yychar = ZZEMPTY)
 
 #define YYACCEPT        goto yyacceptlab
 #define YYABORT         goto yyabortlab
 #define YYERROR         goto yyerrorlab
+#define YYNOMEM         goto yyexhaustedlab
 
 
 #define YYRECOVERING()  (!!yyerrstatus)
 
 #define YYBACKUP(Token, Value)                                    \
   do                                                              \
-    if (yychar == YYEMPTY)                                        \
+    if (yychar == ZZEMPTY)                                        \
       {                                                           \
         yychar = (Token);                                         \
         yylval = (Value);                                         \
@@ -748,10 +831,9 @@ static const yytype_int8 yyr2[] =
       }                                                           \
   while (0)
 
-/* Error token number */
-#define YYTERROR        1
-#define YYERRCODE       256
-
+/* Backward compatibility with an undocumented macro.
+   Use ZZerror or ZZUNDEF. */
+#define YYERRCODE ZZUNDEF
 
 
 /* Enable debugging if requested.  */
@@ -768,19 +850,16 @@ do {                                            \
     YYFPRINTF Args;                             \
 } while (0)
 
-/* This macro is provided for backward compatibility. */
-#ifndef YY_LOCATION_PRINT
-# define YY_LOCATION_PRINT(File, Loc) ((void) 0)
-#endif
 
 
-# define YY_SYMBOL_PRINT(Title, Type, Value, Location)                    \
+
+# define YY_SYMBOL_PRINT(Title, Kind, Value, Location)                    \
 do {                                                                      \
   if (yydebug)                                                            \
     {                                                                     \
       YYFPRINTF (stderr, "%s ", Title);                                   \
       yy_symbol_print (stderr,                                            \
-                  Type, Value, scanner); \
+                  Kind, Value, scanner); \
       YYFPRINTF (stderr, "\n");                                           \
     }                                                                     \
 } while (0)
@@ -791,108 +870,105 @@ do {                                                                      \
 `-----------------------------------*/
 
 static void
-yy_symbol_value_print (FILE *yyo, int yytype, YYSTYPE const * const yyvaluep, void *scanner)
+yy_symbol_value_print (FILE *yyo,
+                       yysymbol_kind_t yykind, YYSTYPE const * const yyvaluep, void *scanner)
 {
   FILE *yyoutput = yyo;
-  YYUSE (yyoutput);
-  YYUSE (scanner);
+  YY_USE (yyoutput);
+  YY_USE (scanner);
   if (!yyvaluep)
     return;
-# ifdef YYPRINT
-  if (yytype < YYNTOKENS)
-    YYPRINT (yyo, yytoknum[yytype], *yyvaluep);
-# endif
   YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN
-  switch (yytype)
+  switch (yykind)
     {
-    case 13: /* EVENT_INTEGER  */
-#line 95 "src/event_parser.y"
+    case YYSYMBOL_EVENT_INTEGER: /* EVENT_INTEGER  */
+#line 95 "/repo/src/event_parser.y"
          { fprintf(yyoutput, "%lld", ((*yyvaluep).integer_value)); }
-#line 812 "src/event_parser.c"
+#line 888 "y.tab.c"
         break;
 
-    case 14: /* EVENT_FLOAT  */
-#line 96 "src/event_parser.y"
+    case YYSYMBOL_EVENT_FLOAT: /* EVENT_FLOAT  */
+#line 96 "/repo/src/event_parser.y"
          { fprintf(yyoutput, "%.2f", ((*yyvaluep).float_value)); }
-#line 818 "src/event_parser.c"
+#line 894 "y.tab.c"
         break;
 
-    case 15: /* EVENT_STRING  */
-#line 97 "src/event_parser.y"
+    case YYSYMBOL_EVENT_STRING: /* EVENT_STRING  */
+#line 97 "/repo/src/event_parser.y"
          { fprintf(yyoutput, "%s", ((*yyvaluep).string)); }
-#line 824 "src/event_parser.c"
+#line 900 "y.tab.c"
         break;
 
-    case 22: /* integer  */
-#line 95 "src/event_parser.y"
+    case YYSYMBOL_integer: /* integer  */
+#line 95 "/repo/src/event_parser.y"
          { fprintf(yyoutput, "%lld", ((*yyvaluep).integer_value)); }
-#line 830 "src/event_parser.c"
+#line 906 "y.tab.c"
         break;
 
-    case 23: /* float  */
-#line 96 "src/event_parser.y"
+    case YYSYMBOL_float: /* float  */
+#line 96 "/repo/src/event_parser.y"
          { fprintf(yyoutput, "%.2f", ((*yyvaluep).float_value)); }
-#line 836 "src/event_parser.c"
+#line 912 "y.tab.c"
         break;
 
-    case 24: /* string  */
-#line 98 "src/event_parser.y"
+    case YYSYMBOL_string: /* string  */
+#line 98 "/repo/src/event_parser.y"
          { fprintf(yyoutput, "%s", ((*yyvaluep).string_value).string); }
-#line 842 "src/event_parser.c"
+#line 918 "y.tab.c"
         break;
 
-    case 25: /* empty_list_value  */
-#line 99 "src/event_parser.y"
+    case YYSYMBOL_empty_list_value: /* empty_list_value  */
+#line 99 "/repo/src/event_parser.y"
          { fprintf(yyoutput, "%zu integers", ((*yyvaluep).integer_list_value).count); }
-#line 848 "src/event_parser.c"
+#line 924 "y.tab.c"
         break;
 
-    case 26: /* integer_list_value  */
-#line 99 "src/event_parser.y"
+    case YYSYMBOL_integer_list_value: /* integer_list_value  */
+#line 99 "/repo/src/event_parser.y"
          { fprintf(yyoutput, "%zu integers", ((*yyvaluep).integer_list_value).count); }
-#line 854 "src/event_parser.c"
+#line 930 "y.tab.c"
         break;
 
-    case 27: /* integer_list_loop  */
-#line 99 "src/event_parser.y"
+    case YYSYMBOL_integer_list_loop: /* integer_list_loop  */
+#line 99 "/repo/src/event_parser.y"
          { fprintf(yyoutput, "%zu integers", ((*yyvaluep).integer_list_value).count); }
-#line 860 "src/event_parser.c"
+#line 936 "y.tab.c"
         break;
 
-    case 28: /* string_list_value  */
-#line 100 "src/event_parser.y"
+    case YYSYMBOL_string_list_value: /* string_list_value  */
+#line 100 "/repo/src/event_parser.y"
          { fprintf(yyoutput, "%zu strings", ((*yyvaluep).string_list_value).count); }
-#line 866 "src/event_parser.c"
+#line 942 "y.tab.c"
         break;
 
-    case 29: /* string_list_loop  */
-#line 100 "src/event_parser.y"
+    case YYSYMBOL_string_list_loop: /* string_list_loop  */
+#line 100 "/repo/src/event_parser.y"
          { fprintf(yyoutput, "%zu strings", ((*yyvaluep).string_list_value).count); }
-#line 872 "src/event_parser.c"
+#line 948 "y.tab.c"
         break;
 
-    case 30: /* segments_value  */
-#line 101 "src/event_parser.y"
+    case YYSYMBOL_segments_value: /* segments_value  */
+#line 101 "/repo/src/event_parser.y"
          { fprintf(yyoutput, "%zu segments", ((*yyvaluep).segments_list_value).size); }
-#line 878 "src/event_parser.c"
+#line 954 "y.tab.c"
         break;
 
-    case 31: /* segments_loop  */
-#line 101 "src/event_parser.y"
+    case YYSYMBOL_segments_loop: /* segments_loop  */
+#line 101 "/repo/src/event_parser.y"
          { fprintf(yyoutput, "%zu segments", ((*yyvaluep).segments_list_value).size); }
-#line 884 "src/event_parser.c"
+#line 960 "y.tab.c"
         break;
 
-    case 33: /* frequencies_value  */
-#line 102 "src/event_parser.y"
+    case YYSYMBOL_frequencies_value: /* frequencies_value  */
+#line 102 "/repo/src/event_parser.y"
          { fprintf(yyoutput, "%zu caps", ((*yyvaluep).frequencies_value).size); }
-#line 890 "src/event_parser.c"
+#line 966 "y.tab.c"
         break;
 
-    case 34: /* frequencies_loop  */
-#line 102 "src/event_parser.y"
+    case YYSYMBOL_frequencies_loop: /* frequencies_loop  */
+#line 102 "/repo/src/event_parser.y"
          { fprintf(yyoutput, "%zu caps", ((*yyvaluep).frequencies_value).size); }
-#line 896 "src/event_parser.c"
+#line 972 "y.tab.c"
         break;
 
       default:
@@ -907,12 +983,13 @@ yy_symbol_value_print (FILE *yyo, int yytype, YYSTYPE const * const yyvaluep, vo
 `---------------------------*/
 
 static void
-yy_symbol_print (FILE *yyo, int yytype, YYSTYPE const * const yyvaluep, void *scanner)
+yy_symbol_print (FILE *yyo,
+                 yysymbol_kind_t yykind, YYSTYPE const * const yyvaluep, void *scanner)
 {
   YYFPRINTF (yyo, "%s %s (",
-             yytype < YYNTOKENS ? "token" : "nterm", yytname[yytype]);
+             yykind < YYNTOKENS ? "token" : "nterm", yysymbol_name (yykind));
 
-  yy_symbol_value_print (yyo, yytype, yyvaluep, scanner);
+  yy_symbol_value_print (yyo, yykind, yyvaluep, scanner);
   YYFPRINTF (yyo, ")");
 }
 
@@ -945,7 +1022,8 @@ do {                                                            \
 `------------------------------------------------*/
 
 static void
-yy_reduce_print (yy_state_t *yyssp, YYSTYPE *yyvsp, int yyrule, void *scanner)
+yy_reduce_print (yy_state_t *yyssp, YYSTYPE *yyvsp,
+                 int yyrule, void *scanner)
 {
   int yylno = yyrline[yyrule];
   int yynrhs = yyr2[yyrule];
@@ -957,9 +1035,8 @@ yy_reduce_print (yy_state_t *yyssp, YYSTYPE *yyvsp, int yyrule, void *scanner)
     {
       YYFPRINTF (stderr, "   $%d = ", yyi + 1);
       yy_symbol_print (stderr,
-                       yystos[+yyssp[yyi + 1 - yynrhs]],
-                       &yyvsp[(yyi + 1) - (yynrhs)]
-                                              , scanner);
+                       YY_ACCESSING_SYMBOL (+yyssp[yyi + 1 - yynrhs]),
+                       &yyvsp[(yyi + 1) - (yynrhs)], scanner);
       YYFPRINTF (stderr, "\n");
     }
 }
@@ -974,8 +1051,8 @@ do {                                    \
    multiple parsers can coexist.  */
 int yydebug;
 #else /* !ZZDEBUG */
-# define YYDPRINTF(Args)
-# define YY_SYMBOL_PRINT(Title, Type, Value, Location)
+# define YYDPRINTF(Args) ((void) 0)
+# define YY_SYMBOL_PRINT(Title, Kind, Value, Location)
 # define YY_STACK_PRINT(Bottom, Top)
 # define YY_REDUCE_PRINT(Rule)
 #endif /* !ZZDEBUG */
@@ -998,348 +1075,121 @@ int yydebug;
 #endif
 
 
-#if YYERROR_VERBOSE
 
-# ifndef yystrlen
-#  if defined __GLIBC__ && defined _STRING_H
-#   define yystrlen(S) (YY_CAST (YYPTRDIFF_T, strlen (S)))
-#  else
-/* Return the length of YYSTR.  */
-static YYPTRDIFF_T
-yystrlen (const char *yystr)
-{
-  YYPTRDIFF_T yylen;
-  for (yylen = 0; yystr[yylen]; yylen++)
-    continue;
-  return yylen;
-}
-#  endif
-# endif
 
-# ifndef yystpcpy
-#  if defined __GLIBC__ && defined _STRING_H && defined _GNU_SOURCE
-#   define yystpcpy stpcpy
-#  else
-/* Copy YYSRC to YYDEST, returning the address of the terminating '\0' in
-   YYDEST.  */
-static char *
-yystpcpy (char *yydest, const char *yysrc)
-{
-  char *yyd = yydest;
-  const char *yys = yysrc;
 
-  while ((*yyd++ = *yys++) != '\0')
-    continue;
-
-  return yyd - 1;
-}
-#  endif
-# endif
-
-# ifndef yytnamerr
-/* Copy to YYRES the contents of YYSTR after stripping away unnecessary
-   quotes and backslashes, so that it's suitable for yyerror.  The
-   heuristic is that double-quoting is unnecessary unless the string
-   contains an apostrophe, a comma, or backslash (other than
-   backslash-backslash).  YYSTR is taken from yytname.  If YYRES is
-   null, do not copy; instead, return the length of what the result
-   would have been.  */
-static YYPTRDIFF_T
-yytnamerr (char *yyres, const char *yystr)
-{
-  if (*yystr == '"')
-    {
-      YYPTRDIFF_T yyn = 0;
-      char const *yyp = yystr;
-
-      for (;;)
-        switch (*++yyp)
-          {
-          case '\'':
-          case ',':
-            goto do_not_strip_quotes;
-
-          case '\\':
-            if (*++yyp != '\\')
-              goto do_not_strip_quotes;
-            else
-              goto append;
-
-          append:
-          default:
-            if (yyres)
-              yyres[yyn] = *yyp;
-            yyn++;
-            break;
-
-          case '"':
-            if (yyres)
-              yyres[yyn] = '\0';
-            return yyn;
-          }
-    do_not_strip_quotes: ;
-    }
-
-  if (yyres)
-    return yystpcpy (yyres, yystr) - yyres;
-  else
-    return yystrlen (yystr);
-}
-# endif
-
-/* Copy into *YYMSG, which is of size *YYMSG_ALLOC, an error message
-   about the unexpected token YYTOKEN for the state stack whose top is
-   YYSSP.
-
-   Return 0 if *YYMSG was successfully written.  Return 1 if *YYMSG is
-   not large enough to hold the message.  In that case, also set
-   *YYMSG_ALLOC to the required number of bytes.  Return 2 if the
-   required number of bytes is too large to store.  */
-static int
-yysyntax_error (YYPTRDIFF_T *yymsg_alloc, char **yymsg,
-                yy_state_t *yyssp, int yytoken)
-{
-  enum { YYERROR_VERBOSE_ARGS_MAXIMUM = 5 };
-  /* Internationalized format string. */
-  const char *yyformat = YY_NULLPTR;
-  /* Arguments of yyformat: reported tokens (one for the "unexpected",
-     one per "expected"). */
-  char const *yyarg[YYERROR_VERBOSE_ARGS_MAXIMUM];
-  /* Actual size of YYARG. */
-  int yycount = 0;
-  /* Cumulated lengths of YYARG.  */
-  YYPTRDIFF_T yysize = 0;
-
-  /* There are many possibilities here to consider:
-     - If this state is a consistent state with a default action, then
-       the only way this function was invoked is if the default action
-       is an error action.  In that case, don't check for expected
-       tokens because there are none.
-     - The only way there can be no lookahead present (in yychar) is if
-       this state is a consistent state with a default action.  Thus,
-       detecting the absence of a lookahead is sufficient to determine
-       that there is no unexpected or expected token to report.  In that
-       case, just report a simple "syntax error".
-     - Don't assume there isn't a lookahead just because this state is a
-       consistent state with a default action.  There might have been a
-       previous inconsistent state, consistent state with a non-default
-       action, or user semantic action that manipulated yychar.
-     - Of course, the expected token list depends on states to have
-       correct lookahead information, and it depends on the parser not
-       to perform extra reductions after fetching a lookahead from the
-       scanner and before detecting a syntax error.  Thus, state merging
-       (from LALR or IELR) and default reductions corrupt the expected
-       token list.  However, the list is correct for canonical LR with
-       one exception: it will still contain any token that will not be
-       accepted due to an error action in a later state.
-  */
-  if (yytoken != YYEMPTY)
-    {
-      int yyn = yypact[+*yyssp];
-      YYPTRDIFF_T yysize0 = yytnamerr (YY_NULLPTR, yytname[yytoken]);
-      yysize = yysize0;
-      yyarg[yycount++] = yytname[yytoken];
-      if (!yypact_value_is_default (yyn))
-        {
-          /* Start YYX at -YYN if negative to avoid negative indexes in
-             YYCHECK.  In other words, skip the first -YYN actions for
-             this state because they are default actions.  */
-          int yyxbegin = yyn < 0 ? -yyn : 0;
-          /* Stay within bounds of both yycheck and yytname.  */
-          int yychecklim = YYLAST - yyn + 1;
-          int yyxend = yychecklim < YYNTOKENS ? yychecklim : YYNTOKENS;
-          int yyx;
-
-          for (yyx = yyxbegin; yyx < yyxend; ++yyx)
-            if (yycheck[yyx + yyn] == yyx && yyx != YYTERROR
-                && !yytable_value_is_error (yytable[yyx + yyn]))
-              {
-                if (yycount == YYERROR_VERBOSE_ARGS_MAXIMUM)
-                  {
-                    yycount = 1;
-                    yysize = yysize0;
-                    break;
-                  }
-                yyarg[yycount++] = yytname[yyx];
-                {
-                  YYPTRDIFF_T yysize1
-                    = yysize + yytnamerr (YY_NULLPTR, yytname[yyx]);
-                  if (yysize <= yysize1 && yysize1 <= YYSTACK_ALLOC_MAXIMUM)
-                    yysize = yysize1;
-                  else
-                    return 2;
-                }
-              }
-        }
-    }
-
-  switch (yycount)
-    {
-# define YYCASE_(N, S)                      \
-      case N:                               \
-        yyformat = S;                       \
-      break
-    default: /* Avoid compiler warnings. */
-      YYCASE_(0, YY_("syntax error"));
-      YYCASE_(1, YY_("syntax error, unexpected %s"));
-      YYCASE_(2, YY_("syntax error, unexpected %s, expecting %s"));
-      YYCASE_(3, YY_("syntax error, unexpected %s, expecting %s or %s"));
-      YYCASE_(4, YY_("syntax error, unexpected %s, expecting %s or %s or %s"));
-      YYCASE_(5, YY_("syntax error, unexpected %s, expecting %s or %s or %s or %s"));
-# undef YYCASE_
-    }
-
-  {
-    /* Don't count the "%s"s in the final size, but reserve room for
-       the terminator.  */
-    YYPTRDIFF_T yysize1 = yysize + (yystrlen (yyformat) - 2 * yycount) + 1;
-    if (yysize <= yysize1 && yysize1 <= YYSTACK_ALLOC_MAXIMUM)
-      yysize = yysize1;
-    else
-      return 2;
-  }
-
-  if (*yymsg_alloc < yysize)
-    {
-      *yymsg_alloc = 2 * yysize;
-      if (! (yysize <= *yymsg_alloc
-             && *yymsg_alloc <= YYSTACK_ALLOC_MAXIMUM))
-        *yymsg_alloc = YYSTACK_ALLOC_MAXIMUM;
-      return 1;
-    }
-
-  /* Avoid sprintf, as that infringes on the user's name space.
-     Don't have undefined behavior even if the translation
-     produced a string with the wrong number of "%s"s.  */
-  {
-    char *yyp = *yymsg;
-    int yyi = 0;
-    while ((*yyp = *yyformat) != '\0')
-      if (*yyp == '%' && yyformat[1] == 's' && yyi < yycount)
-        {
-          yyp += yytnamerr (yyp, yyarg[yyi++]);
-          yyformat += 2;
-        }
-      else
-        {
-          ++yyp;
-          ++yyformat;
-        }
-  }
-  return 0;
-}
-#endif /* YYERROR_VERBOSE */
 
 /*-----------------------------------------------.
 | Release the memory associated to this symbol.  |
 `-----------------------------------------------*/
 
 static void
-yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, void *scanner)
+yydestruct (const char *yymsg,
+            yysymbol_kind_t yykind, YYSTYPE *yyvaluep, void *scanner)
 {
-  YYUSE (yyvaluep);
-  YYUSE (scanner);
+  YY_USE (yyvaluep);
+  YY_USE (scanner);
   if (!yymsg)
     yymsg = "Deleting";
-  YY_SYMBOL_PRINT (yymsg, yytype, yyvaluep, yylocationp);
+  YY_SYMBOL_PRINT (yymsg, yykind, yyvaluep, yylocationp);
 
   YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN
-  switch (yytype)
+  switch (yykind)
     {
-          case 15: /* EVENT_STRING  */
-#line 80 "src/event_parser.y" /* yacc.c:1257  */
-      { bfree(((*yyvaluep).string)); }
-#line 1253 "src/event_parser.c" /* yacc.c:1257  */
+    case YYSYMBOL_EVENT_STRING: /* EVENT_STRING  */
+#line 80 "/repo/src/event_parser.y"
+            { bfree(((*yyvaluep).string)); }
+#line 1103 "y.tab.c"
         break;
 
-          case 18: /* variable_loop  */
-#line 90 "src/event_parser.y" /* yacc.c:1257  */
-      { free_event(((*yyvaluep).event)); }
-#line 1259 "src/event_parser.c" /* yacc.c:1257  */
+    case YYSYMBOL_variable_loop: /* variable_loop  */
+#line 90 "/repo/src/event_parser.y"
+            { free_event(((*yyvaluep).event)); }
+#line 1109 "y.tab.c"
         break;
 
-          case 19: /* variable  */
-#line 89 "src/event_parser.y" /* yacc.c:1257  */
-      { if(((*yyvaluep).variable) != NULL) { betree_free_variable(((*yyvaluep).variable)); } }
-#line 1265 "src/event_parser.c" /* yacc.c:1257  */
+    case YYSYMBOL_variable: /* variable  */
+#line 89 "/repo/src/event_parser.y"
+            { if(((*yyvaluep).variable) != NULL) { betree_free_variable(((*yyvaluep).variable)); } }
+#line 1115 "y.tab.c"
         break;
 
-          case 20: /* value  */
-#line 88 "src/event_parser.y" /* yacc.c:1257  */
-      { free_value(((*yyvaluep).value)); }
-#line 1271 "src/event_parser.c" /* yacc.c:1257  */
+    case YYSYMBOL_value: /* value  */
+#line 88 "/repo/src/event_parser.y"
+            { free_value(((*yyvaluep).value)); }
+#line 1121 "y.tab.c"
         break;
 
-          case 24: /* string  */
-#line 81 "src/event_parser.y" /* yacc.c:1257  */
-      { bfree((char*)((*yyvaluep).string_value).string); }
-#line 1277 "src/event_parser.c" /* yacc.c:1257  */
+    case YYSYMBOL_string: /* string  */
+#line 81 "/repo/src/event_parser.y"
+            { bfree((char*)((*yyvaluep).string_value).string); }
+#line 1127 "y.tab.c"
         break;
 
-          case 25: /* empty_list_value  */
-#line 82 "src/event_parser.y" /* yacc.c:1257  */
-      { free_integer_list(((*yyvaluep).integer_list_value)); }
-#line 1283 "src/event_parser.c" /* yacc.c:1257  */
+    case YYSYMBOL_empty_list_value: /* empty_list_value  */
+#line 82 "/repo/src/event_parser.y"
+            { free_integer_list(((*yyvaluep).integer_list_value)); }
+#line 1133 "y.tab.c"
         break;
 
-          case 26: /* integer_list_value  */
-#line 82 "src/event_parser.y" /* yacc.c:1257  */
-      { free_integer_list(((*yyvaluep).integer_list_value)); }
-#line 1289 "src/event_parser.c" /* yacc.c:1257  */
+    case YYSYMBOL_integer_list_value: /* integer_list_value  */
+#line 82 "/repo/src/event_parser.y"
+            { free_integer_list(((*yyvaluep).integer_list_value)); }
+#line 1139 "y.tab.c"
         break;
 
-          case 27: /* integer_list_loop  */
-#line 82 "src/event_parser.y" /* yacc.c:1257  */
-      { free_integer_list(((*yyvaluep).integer_list_value)); }
-#line 1295 "src/event_parser.c" /* yacc.c:1257  */
+    case YYSYMBOL_integer_list_loop: /* integer_list_loop  */
+#line 82 "/repo/src/event_parser.y"
+            { free_integer_list(((*yyvaluep).integer_list_value)); }
+#line 1145 "y.tab.c"
         break;
 
-          case 28: /* string_list_value  */
-#line 83 "src/event_parser.y" /* yacc.c:1257  */
-      { free_string_list(((*yyvaluep).string_list_value)); }
-#line 1301 "src/event_parser.c" /* yacc.c:1257  */
+    case YYSYMBOL_string_list_value: /* string_list_value  */
+#line 83 "/repo/src/event_parser.y"
+            { free_string_list(((*yyvaluep).string_list_value)); }
+#line 1151 "y.tab.c"
         break;
 
-          case 29: /* string_list_loop  */
-#line 83 "src/event_parser.y" /* yacc.c:1257  */
-      { free_string_list(((*yyvaluep).string_list_value)); }
-#line 1307 "src/event_parser.c" /* yacc.c:1257  */
+    case YYSYMBOL_string_list_loop: /* string_list_loop  */
+#line 83 "/repo/src/event_parser.y"
+            { free_string_list(((*yyvaluep).string_list_value)); }
+#line 1157 "y.tab.c"
         break;
 
-          case 30: /* segments_value  */
-#line 84 "src/event_parser.y" /* yacc.c:1257  */
-      { free_segments(((*yyvaluep).segments_list_value)); }
-#line 1313 "src/event_parser.c" /* yacc.c:1257  */
+    case YYSYMBOL_segments_value: /* segments_value  */
+#line 84 "/repo/src/event_parser.y"
+            { free_segments(((*yyvaluep).segments_list_value)); }
+#line 1163 "y.tab.c"
         break;
 
-          case 31: /* segments_loop  */
-#line 84 "src/event_parser.y" /* yacc.c:1257  */
-      { free_segments(((*yyvaluep).segments_list_value)); }
-#line 1319 "src/event_parser.c" /* yacc.c:1257  */
+    case YYSYMBOL_segments_loop: /* segments_loop  */
+#line 84 "/repo/src/event_parser.y"
+            { free_segments(((*yyvaluep).segments_list_value)); }
+#line 1169 "y.tab.c"
         break;
 
-          case 32: /* segment_value  */
-#line 85 "src/event_parser.y" /* yacc.c:1257  */
-      { free_segment(((*yyvaluep).segment_value)); }
-#line 1325 "src/event_parser.c" /* yacc.c:1257  */
+    case YYSYMBOL_segment_value: /* segment_value  */
+#line 85 "/repo/src/event_parser.y"
+            { free_segment(((*yyvaluep).segment_value)); }
+#line 1175 "y.tab.c"
         break;
 
-          case 33: /* frequencies_value  */
-#line 86 "src/event_parser.y" /* yacc.c:1257  */
-      { free_frequency_caps(((*yyvaluep).frequencies_value)); }
-#line 1331 "src/event_parser.c" /* yacc.c:1257  */
+    case YYSYMBOL_frequencies_value: /* frequencies_value  */
+#line 86 "/repo/src/event_parser.y"
+            { free_frequency_caps(((*yyvaluep).frequencies_value)); }
+#line 1181 "y.tab.c"
         break;
 
-          case 34: /* frequencies_loop  */
-#line 86 "src/event_parser.y" /* yacc.c:1257  */
-      { free_frequency_caps(((*yyvaluep).frequencies_value)); }
-#line 1337 "src/event_parser.c" /* yacc.c:1257  */
+    case YYSYMBOL_frequencies_loop: /* frequencies_loop  */
+#line 86 "/repo/src/event_parser.y"
+            { free_frequency_caps(((*yyvaluep).frequencies_value)); }
+#line 1187 "y.tab.c"
         break;
 
-          case 35: /* frequency_value  */
-#line 87 "src/event_parser.y" /* yacc.c:1257  */
-      { free_frequency_cap(((*yyvaluep).frequency_value)); }
-#line 1343 "src/event_parser.c" /* yacc.c:1257  */
+    case YYSYMBOL_frequency_value: /* frequency_value  */
+#line 87 "/repo/src/event_parser.y"
+            { free_frequency_cap(((*yyvaluep).frequency_value)); }
+#line 1193 "y.tab.c"
         break;
 
       default:
@@ -1351,6 +1201,8 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, void *scanner)
 
 
 
+
+
 /*----------.
 | yyparse.  |
 `----------*/
@@ -1358,7 +1210,7 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, void *scanner)
 int
 yyparse (void *scanner)
 {
-/* The lookahead symbol.  */
+/* Lookahead token kind.  */
 int yychar;
 
 
@@ -1369,45 +1221,38 @@ YY_INITIAL_VALUE (static YYSTYPE yyval_default;)
 YYSTYPE yylval YY_INITIAL_VALUE (= yyval_default);
 
     /* Number of syntax errors so far.  */
-    int yynerrs;
+    int yynerrs = 0;
 
-    yy_state_fast_t yystate;
+    yy_state_fast_t yystate = 0;
     /* Number of tokens to shift before error messages enabled.  */
-    int yyerrstatus;
+    int yyerrstatus = 0;
 
-    /* The stacks and their tools:
-       'yyss': related to states.
-       'yyvs': related to semantic values.
-
-       Refer to the stacks through separate pointers, to allow yyoverflow
+    /* Refer to the stacks through separate pointers, to allow yyoverflow
        to reallocate them elsewhere.  */
 
-    /* The state stack.  */
+    /* Their size.  */
+    YYPTRDIFF_T yystacksize = YYINITDEPTH;
+
+    /* The state stack: array, bottom, top.  */
     yy_state_t yyssa[YYINITDEPTH];
-    yy_state_t *yyss;
-    yy_state_t *yyssp;
+    yy_state_t *yyss = yyssa;
+    yy_state_t *yyssp = yyss;
 
-    /* The semantic value stack.  */
+    /* The semantic value stack: array, bottom, top.  */
     YYSTYPE yyvsa[YYINITDEPTH];
-    YYSTYPE *yyvs;
-    YYSTYPE *yyvsp;
-
-    YYPTRDIFF_T yystacksize;
+    YYSTYPE *yyvs = yyvsa;
+    YYSTYPE *yyvsp = yyvs;
 
   int yyn;
+  /* The return value of yyparse.  */
   int yyresult;
-  /* Lookahead token as an internal (translated) token number.  */
-  int yytoken = 0;
+  /* Lookahead symbol kind.  */
+  yysymbol_kind_t yytoken = YYSYMBOL_YYEMPTY;
   /* The variables used to return semantic value and location from the
      action routines.  */
   YYSTYPE yyval;
 
-#if YYERROR_VERBOSE
-  /* Buffer for error messages, and its allocated size.  */
-  char yymsgbuf[128];
-  char *yymsg = yymsgbuf;
-  YYPTRDIFF_T yymsg_alloc = sizeof yymsgbuf;
-#endif
+
 
 #define YYPOPSTACK(N)   (yyvsp -= (N), yyssp -= (N))
 
@@ -1415,16 +1260,10 @@ YYSTYPE yylval YY_INITIAL_VALUE (= yyval_default);
      Keep to zero when no symbol should be popped.  */
   int yylen = 0;
 
-  yyssp = yyss = yyssa;
-  yyvsp = yyvs = yyvsa;
-  yystacksize = YYINITDEPTH;
-
   YYDPRINTF ((stderr, "Starting parse\n"));
 
-  yystate = 0;
-  yyerrstatus = 0;
-  yynerrs = 0;
-  yychar = YYEMPTY; /* Cause a token to be read.  */
+  yychar = ZZEMPTY; /* Cause a token to be read.  */
+
   goto yysetstate;
 
 
@@ -1446,10 +1285,11 @@ yysetstate:
   YY_IGNORE_USELESS_CAST_BEGIN
   *yyssp = YY_CAST (yy_state_t, yystate);
   YY_IGNORE_USELESS_CAST_END
+  YY_STACK_PRINT (yyss, yyssp);
 
   if (yyss + yystacksize - 1 <= yyssp)
 #if !defined yyoverflow && !defined YYSTACK_RELOCATE
-    goto yyexhaustedlab;
+    YYNOMEM;
 #else
     {
       /* Get the current used size of the three stacks, in elements.  */
@@ -1477,7 +1317,7 @@ yysetstate:
 # else /* defined YYSTACK_RELOCATE */
       /* Extend the stack our own way.  */
       if (YYMAXDEPTH <= yystacksize)
-        goto yyexhaustedlab;
+        YYNOMEM;
       yystacksize *= 2;
       if (YYMAXDEPTH < yystacksize)
         yystacksize = YYMAXDEPTH;
@@ -1488,10 +1328,10 @@ yysetstate:
           YY_CAST (union yyalloc *,
                    YYSTACK_ALLOC (YY_CAST (YYSIZE_T, YYSTACK_BYTES (yystacksize))));
         if (! yyptr)
-          goto yyexhaustedlab;
+          YYNOMEM;
         YYSTACK_RELOCATE (yyss_alloc, yyss);
         YYSTACK_RELOCATE (yyvs_alloc, yyvs);
-# undef YYSTACK_RELOCATE
+#  undef YYSTACK_RELOCATE
         if (yyss1 != yyssa)
           YYSTACK_FREE (yyss1);
       }
@@ -1510,6 +1350,7 @@ yysetstate:
     }
 #endif /* !defined yyoverflow && !defined YYSTACK_RELOCATE */
 
+
   if (yystate == YYFINAL)
     YYACCEPT;
 
@@ -1530,18 +1371,29 @@ yybackup:
 
   /* Not known => get a lookahead token if don't already have one.  */
 
-  /* YYCHAR is either YYEMPTY or YYEOF or a valid lookahead symbol.  */
-  if (yychar == YYEMPTY)
+  /* YYCHAR is either empty, or end-of-input, or a valid lookahead.  */
+  if (yychar == ZZEMPTY)
     {
-      YYDPRINTF ((stderr, "Reading a token: "));
+      YYDPRINTF ((stderr, "Reading a token\n"));
       yychar = yylex (&yylval, scanner);
     }
 
-  if (yychar <= YYEOF)
+  if (yychar <= ZZEOF)
     {
-      yychar = yytoken = YYEOF;
+      yychar = ZZEOF;
+      yytoken = YYSYMBOL_YYEOF;
       YYDPRINTF ((stderr, "Now at end of input.\n"));
     }
+  else if (yychar == ZZerror)
+    {
+      /* The scanner already issued an error message, process directly
+         to error recovery.  But do not keep the error token as
+         lookahead, it is too special and may lead us to an endless
+         loop in error recovery. */
+      yychar = ZZUNDEF;
+      yytoken = YYSYMBOL_YYerror;
+      goto yyerrlab1;
+    }
   else
     {
       yytoken = YYTRANSLATE (yychar);
@@ -1575,7 +1427,7 @@ yybackup:
   YY_IGNORE_MAYBE_UNINITIALIZED_END
 
   /* Discard the shifted token.  */
-  yychar = YYEMPTY;
+  yychar = ZZEMPTY;
   goto yynewstate;
 
 
@@ -1610,236 +1462,236 @@ yyreduce:
   YY_REDUCE_PRINT (yyn);
   switch (yyn)
     {
-  case 2:
-#line 106 "src/event_parser.y"
+  case 2: /* program: EVENT_LCURLY EVENT_RCURLY  */
+#line 106 "/repo/src/event_parser.y"
                                                                 { root = make_empty_event(); }
-#line 1617 "src/event_parser.c"
+#line 1469 "y.tab.c"
     break;
 
-  case 3:
-#line 107 "src/event_parser.y"
+  case 3: /* program: EVENT_LCURLY variable_loop EVENT_RCURLY  */
+#line 107 "/repo/src/event_parser.y"
                                                                 { root = (yyvsp[-1].event); }
-#line 1623 "src/event_parser.c"
+#line 1475 "y.tab.c"
     break;
 
-  case 4:
-#line 110 "src/event_parser.y"
+  case 4: /* variable_loop: variable  */
+#line 110 "/repo/src/event_parser.y"
                                                             { (yyval.event) = make_empty_event(); add_variable((yyvsp[0].variable), (yyval.event)); }
-#line 1629 "src/event_parser.c"
+#line 1481 "y.tab.c"
     break;
 
-  case 5:
-#line 111 "src/event_parser.y"
+  case 5: /* variable_loop: variable_loop EVENT_COMMA variable  */
+#line 111 "/repo/src/event_parser.y"
                                                             { add_variable((yyvsp[0].variable), (yyvsp[-2].event)); (yyval.event) = (yyvsp[-2].event); }
-#line 1635 "src/event_parser.c"
+#line 1487 "y.tab.c"
     break;
 
-  case 6:
-#line 114 "src/event_parser.y"
+  case 6: /* variable: EVENT_STRING EVENT_COLON value  */
+#line 114 "/repo/src/event_parser.y"
                                                             { (yyval.variable) = make_pred((yyvsp[-2].string), INVALID_VAR, (yyvsp[0].value)); bfree((yyvsp[-2].string)); }
-#line 1641 "src/event_parser.c"
+#line 1493 "y.tab.c"
     break;
 
-  case 7:
-#line 115 "src/event_parser.y"
+  case 7: /* variable: EVENT_STRING EVENT_COLON EVENT_NULL  */
+#line 115 "/repo/src/event_parser.y"
                                                             { (yyval.variable) = NULL; bfree((yyvsp[-2].string)); }
-#line 1647 "src/event_parser.c"
+#line 1499 "y.tab.c"
     break;
 
-  case 8:
-#line 118 "src/event_parser.y"
+  case 8: /* value: boolean  */
+#line 118 "/repo/src/event_parser.y"
                                                             { (yyval.value).value_type = BETREE_BOOLEAN; (yyval.value).boolean_value = (yyvsp[0].boolean_value); }
-#line 1653 "src/event_parser.c"
+#line 1505 "y.tab.c"
     break;
 
-  case 9:
-#line 119 "src/event_parser.y"
+  case 9: /* value: integer  */
+#line 119 "/repo/src/event_parser.y"
                                                             { (yyval.value).value_type = BETREE_INTEGER; (yyval.value).integer_value = (yyvsp[0].integer_value); }
-#line 1659 "src/event_parser.c"
+#line 1511 "y.tab.c"
     break;
 
-  case 10:
-#line 120 "src/event_parser.y"
+  case 10: /* value: float  */
+#line 120 "/repo/src/event_parser.y"
                                                             { (yyval.value).value_type = BETREE_FLOAT; (yyval.value).float_value = (yyvsp[0].float_value); }
-#line 1665 "src/event_parser.c"
+#line 1517 "y.tab.c"
     break;
 
-  case 11:
-#line 121 "src/event_parser.y"
+  case 11: /* value: string  */
+#line 121 "/repo/src/event_parser.y"
                                                             { (yyval.value).value_type = BETREE_STRING; (yyval.value).string_value = (yyvsp[0].string_value); }
-#line 1671 "src/event_parser.c"
+#line 1523 "y.tab.c"
     break;
 
-  case 12:
-#line 122 "src/event_parser.y"
+  case 12: /* value: empty_list_value  */
+#line 122 "/repo/src/event_parser.y"
                                                             { (yyval.value).value_type = BETREE_INTEGER_LIST; (yyval.value).integer_list_value = (yyvsp[0].integer_list_value); }
-#line 1677 "src/event_parser.c"
+#line 1529 "y.tab.c"
     break;
 
-  case 13:
-#line 123 "src/event_parser.y"
+  case 13: /* value: integer_list_value  */
+#line 123 "/repo/src/event_parser.y"
                                                             { (yyval.value).value_type = BETREE_INTEGER_LIST; (yyval.value).integer_list_value = (yyvsp[0].integer_list_value); }
-#line 1683 "src/event_parser.c"
+#line 1535 "y.tab.c"
     break;
 
-  case 14:
-#line 124 "src/event_parser.y"
+  case 14: /* value: string_list_value  */
+#line 124 "/repo/src/event_parser.y"
                                                             { (yyval.value).value_type = BETREE_STRING_LIST; (yyval.value).string_list_value = (yyvsp[0].string_list_value); }
-#line 1689 "src/event_parser.c"
+#line 1541 "y.tab.c"
     break;
 
-  case 15:
-#line 125 "src/event_parser.y"
+  case 15: /* value: segments_value  */
+#line 125 "/repo/src/event_parser.y"
                                                             { (yyval.value).value_type = BETREE_SEGMENTS; (yyval.value).segments_value = (yyvsp[0].segments_list_value); }
-#line 1695 "src/event_parser.c"
+#line 1547 "y.tab.c"
     break;
 
-  case 16:
-#line 126 "src/event_parser.y"
+  case 16: /* value: frequencies_value  */
+#line 126 "/repo/src/event_parser.y"
                                                             { (yyval.value).value_type = BETREE_FREQUENCY_CAPS; (yyval.value).frequency_caps_value = (yyvsp[0].frequencies_value); }
-#line 1701 "src/event_parser.c"
+#line 1553 "y.tab.c"
     break;
 
-  case 17:
-#line 128 "src/event_parser.y"
+  case 17: /* boolean: EVENT_TRUE  */
+#line 128 "/repo/src/event_parser.y"
                                                             { (yyval.boolean_value) = true; }
-#line 1707 "src/event_parser.c"
+#line 1559 "y.tab.c"
     break;
 
-  case 18:
-#line 129 "src/event_parser.y"
+  case 18: /* boolean: EVENT_FALSE  */
+#line 129 "/repo/src/event_parser.y"
                                                             { (yyval.boolean_value) = false; }
-#line 1713 "src/event_parser.c"
+#line 1565 "y.tab.c"
     break;
 
-  case 19:
-#line 132 "src/event_parser.y"
+  case 19: /* integer: EVENT_INTEGER  */
+#line 132 "/repo/src/event_parser.y"
                                                             { (yyval.integer_value) = (yyvsp[0].integer_value); }
-#line 1719 "src/event_parser.c"
+#line 1571 "y.tab.c"
     break;
 
-  case 20:
-#line 133 "src/event_parser.y"
+  case 20: /* integer: EVENT_MINUS EVENT_INTEGER  */
+#line 133 "/repo/src/event_parser.y"
                                                             { (yyval.integer_value) = - (yyvsp[0].integer_value); }
-#line 1725 "src/event_parser.c"
+#line 1577 "y.tab.c"
     break;
 
-  case 21:
-#line 136 "src/event_parser.y"
+  case 21: /* float: EVENT_FLOAT  */
+#line 136 "/repo/src/event_parser.y"
                                                             { (yyval.float_value) = (yyvsp[0].float_value); }
-#line 1731 "src/event_parser.c"
+#line 1583 "y.tab.c"
     break;
 
-  case 22:
-#line 137 "src/event_parser.y"
+  case 22: /* float: EVENT_MINUS EVENT_FLOAT  */
+#line 137 "/repo/src/event_parser.y"
                                                             { (yyval.float_value) = - (yyvsp[0].float_value); }
-#line 1737 "src/event_parser.c"
+#line 1589 "y.tab.c"
     break;
 
-  case 23:
-#line 140 "src/event_parser.y"
+  case 23: /* string: EVENT_STRING  */
+#line 140 "/repo/src/event_parser.y"
                                                             { (yyval.string_value).string = bstrdup((yyvsp[0].string)); (yyval.string_value).str = INVALID_STR; bfree((yyvsp[0].string)); }
-#line 1743 "src/event_parser.c"
+#line 1595 "y.tab.c"
     break;
 
-  case 24:
-#line 142 "src/event_parser.y"
+  case 24: /* empty_list_value: EVENT_LSQUARE EVENT_RSQUARE  */
+#line 142 "/repo/src/event_parser.y"
                                                             { (yyval.integer_list_value) = make_integer_list(); }
-#line 1749 "src/event_parser.c"
+#line 1601 "y.tab.c"
     break;
 
-  case 25:
-#line 145 "src/event_parser.y"
+  case 25: /* integer_list_value: EVENT_LSQUARE integer_list_loop EVENT_RSQUARE  */
+#line 145 "/repo/src/event_parser.y"
                                                             { (yyval.integer_list_value) = (yyvsp[-1].integer_list_value); }
-#line 1755 "src/event_parser.c"
+#line 1607 "y.tab.c"
     break;
 
-  case 26:
-#line 147 "src/event_parser.y"
+  case 26: /* integer_list_loop: integer  */
+#line 147 "/repo/src/event_parser.y"
                                                             { (yyval.integer_list_value) = make_integer_list(); add_integer_list_value((yyvsp[0].integer_value), (yyval.integer_list_value)); }
-#line 1761 "src/event_parser.c"
+#line 1613 "y.tab.c"
     break;
 
-  case 27:
-#line 148 "src/event_parser.y"
+  case 27: /* integer_list_loop: integer_list_loop EVENT_COMMA integer  */
+#line 148 "/repo/src/event_parser.y"
                                                             { add_integer_list_value((yyvsp[0].integer_value), (yyvsp[-2].integer_list_value)); (yyval.integer_list_value) = (yyvsp[-2].integer_list_value); }
-#line 1767 "src/event_parser.c"
+#line 1619 "y.tab.c"
     break;
 
-  case 28:
-#line 152 "src/event_parser.y"
+  case 28: /* string_list_value: EVENT_LSQUARE string_list_loop EVENT_RSQUARE  */
+#line 152 "/repo/src/event_parser.y"
                                                             { (yyval.string_list_value) = (yyvsp[-1].string_list_value); }
-#line 1773 "src/event_parser.c"
+#line 1625 "y.tab.c"
     break;
 
-  case 29:
-#line 154 "src/event_parser.y"
+  case 29: /* string_list_loop: string  */
+#line 154 "/repo/src/event_parser.y"
                                                             { (yyval.string_list_value) = make_string_list(); add_string_list_value((yyvsp[0].string_value), (yyval.string_list_value)); }
-#line 1779 "src/event_parser.c"
+#line 1631 "y.tab.c"
     break;
 
-  case 30:
-#line 155 "src/event_parser.y"
+  case 30: /* string_list_loop: string_list_loop EVENT_COMMA string  */
+#line 155 "/repo/src/event_parser.y"
                                                             { add_string_list_value((yyvsp[0].string_value), (yyvsp[-2].string_list_value)); (yyval.string_list_value) = (yyvsp[-2].string_list_value); }
-#line 1785 "src/event_parser.c"
+#line 1637 "y.tab.c"
     break;
 
-  case 31:
-#line 159 "src/event_parser.y"
+  case 31: /* segments_value: EVENT_LSQUARE segments_loop EVENT_RSQUARE  */
+#line 159 "/repo/src/event_parser.y"
                                                             { (yyval.segments_list_value) = (yyvsp[-1].segments_list_value); }
-#line 1791 "src/event_parser.c"
+#line 1643 "y.tab.c"
     break;
 
-  case 32:
-#line 161 "src/event_parser.y"
+  case 32: /* segments_loop: segment_value  */
+#line 161 "/repo/src/event_parser.y"
                                                             { (yyval.segments_list_value) = make_segments(); add_segment((yyvsp[0].segment_value), (yyval.segments_list_value)); }
-#line 1797 "src/event_parser.c"
+#line 1649 "y.tab.c"
     break;
 
-  case 33:
-#line 163 "src/event_parser.y"
+  case 33: /* segments_loop: segments_loop EVENT_COMMA segment_value  */
+#line 163 "/repo/src/event_parser.y"
                                                             { add_segment((yyvsp[0].segment_value), (yyvsp[-2].segments_list_value)); (yyval.segments_list_value) = (yyvsp[-2].segments_list_value); }
-#line 1803 "src/event_parser.c"
+#line 1655 "y.tab.c"
     break;
 
-  case 34:
-#line 167 "src/event_parser.y"
+  case 34: /* segment_value: EVENT_LSQUARE integer EVENT_COMMA integer EVENT_RSQUARE  */
+#line 167 "/repo/src/event_parser.y"
                                                             { (yyval.segment_value) = make_segment((yyvsp[-3].integer_value), (yyvsp[-1].integer_value)); }
-#line 1809 "src/event_parser.c"
+#line 1661 "y.tab.c"
     break;
 
-  case 35:
-#line 170 "src/event_parser.y"
+  case 35: /* frequencies_value: EVENT_LSQUARE frequencies_loop EVENT_RSQUARE  */
+#line 170 "/repo/src/event_parser.y"
                                                             { (yyval.frequencies_value) = (yyvsp[-1].frequencies_value); }
-#line 1815 "src/event_parser.c"
+#line 1667 "y.tab.c"
     break;
 
-  case 36:
-#line 172 "src/event_parser.y"
+  case 36: /* frequencies_loop: frequency_value  */
+#line 172 "/repo/src/event_parser.y"
                                                             { (yyval.frequencies_value) = make_frequency_caps(); add_frequency((yyvsp[0].frequency_value), (yyval.frequencies_value)); }
-#line 1821 "src/event_parser.c"
+#line 1673 "y.tab.c"
     break;
 
-  case 37:
-#line 174 "src/event_parser.y"
+  case 37: /* frequencies_loop: frequencies_loop EVENT_COMMA frequency_value  */
+#line 174 "/repo/src/event_parser.y"
                                                             { add_frequency((yyvsp[0].frequency_value), (yyvsp[-2].frequencies_value)); (yyval.frequencies_value) = (yyvsp[-2].frequencies_value); }
-#line 1827 "src/event_parser.c"
+#line 1679 "y.tab.c"
     break;
 
-  case 38:
-#line 178 "src/event_parser.y"
+  case 38: /* frequency_value: EVENT_LSQUARE EVENT_STRING EVENT_COMMA integer EVENT_COMMA string EVENT_COMMA integer EVENT_COMMA integer EVENT_RSQUARE  */
+#line 178 "/repo/src/event_parser.y"
                                                             { (yyval.frequency_value) = make_frequency_cap((yyvsp[-9].string), (yyvsp[-7].integer_value), (yyvsp[-5].string_value), true, (yyvsp[-1].integer_value), (yyvsp[-3].integer_value)); bfree((yyvsp[-9].string)); }
-#line 1833 "src/event_parser.c"
+#line 1685 "y.tab.c"
     break;
 
-  case 39:
-#line 180 "src/event_parser.y"
+  case 39: /* frequency_value: EVENT_LSQUARE EVENT_LSQUARE EVENT_STRING EVENT_COMMA integer EVENT_COMMA string EVENT_RSQUARE EVENT_COMMA integer EVENT_COMMA integer EVENT_RSQUARE  */
+#line 180 "/repo/src/event_parser.y"
                                                             { (yyval.frequency_value) = make_frequency_cap((yyvsp[-10].string), (yyvsp[-8].integer_value), (yyvsp[-6].string_value), true, (yyvsp[-1].integer_value), (yyvsp[-3].integer_value)); bfree((yyvsp[-10].string)); }
-#line 1839 "src/event_parser.c"
+#line 1691 "y.tab.c"
     break;
 
 
-#line 1843 "src/event_parser.c"
+#line 1695 "y.tab.c"
 
       default: break;
     }
@@ -1854,11 +1706,10 @@ yyreduce:
      case of YYERROR or YYBACKUP, subsequent parser actions might lead
      to an incorrect destructor call or verbose syntax error message
      before the lookahead is translated.  */
-  YY_SYMBOL_PRINT ("-> $$ =", yyr1[yyn], &yyval, &yyloc);
+  YY_SYMBOL_PRINT ("-> $$ =", YY_CAST (yysymbol_kind_t, yyr1[yyn]), &yyval, &yyloc);
 
   YYPOPSTACK (yylen);
   yylen = 0;
-  YY_STACK_PRINT (yyss, yyssp);
 
   *++yyvsp = yyval;
 
@@ -1882,66 +1733,30 @@ yyreduce:
 yyerrlab:
   /* Make sure we have latest lookahead translation.  See comments at
      user semantic actions for why this is necessary.  */
-  yytoken = yychar == YYEMPTY ? YYEMPTY : YYTRANSLATE (yychar);
-
+  yytoken = yychar == ZZEMPTY ? YYSYMBOL_YYEMPTY : YYTRANSLATE (yychar);
   /* If not already recovering from an error, report this error.  */
   if (!yyerrstatus)
     {
       ++yynerrs;
-#if ! YYERROR_VERBOSE
       yyerror (scanner, YY_("syntax error"));
-#else
-# define YYSYNTAX_ERROR yysyntax_error (&yymsg_alloc, &yymsg, \
-                                        yyssp, yytoken)
-      {
-        char const *yymsgp = YY_("syntax error");
-        int yysyntax_error_status;
-        yysyntax_error_status = YYSYNTAX_ERROR;
-        if (yysyntax_error_status == 0)
-          yymsgp = yymsg;
-        else if (yysyntax_error_status == 1)
-          {
-            if (yymsg != yymsgbuf)
-              YYSTACK_FREE (yymsg);
-            yymsg = YY_CAST (char *, YYSTACK_ALLOC (YY_CAST (YYSIZE_T, yymsg_alloc)));
-            if (!yymsg)
-              {
-                yymsg = yymsgbuf;
-                yymsg_alloc = sizeof yymsgbuf;
-                yysyntax_error_status = 2;
-              }
-            else
-              {
-                yysyntax_error_status = YYSYNTAX_ERROR;
-                yymsgp = yymsg;
-              }
-          }
-        yyerror (scanner, yymsgp);
-        if (yysyntax_error_status == 2)
-          goto yyexhaustedlab;
-      }
-# undef YYSYNTAX_ERROR
-#endif
     }
 
-
-
   if (yyerrstatus == 3)
     {
       /* If just tried and failed to reuse lookahead token after an
          error, discard it.  */
 
-      if (yychar <= YYEOF)
+      if (yychar <= ZZEOF)
         {
           /* Return failure if at end of input.  */
-          if (yychar == YYEOF)
+          if (yychar == ZZEOF)
             YYABORT;
         }
       else
         {
           yydestruct ("Error: discarding",
                       yytoken, &yylval, scanner);
-          yychar = YYEMPTY;
+          yychar = ZZEMPTY;
         }
     }
 
@@ -1958,6 +1773,7 @@ yyerrorlab:
      label yyerrorlab therefore never appears in user code.  */
   if (0)
     YYERROR;
+  ++yynerrs;
 
   /* Do not reclaim the symbols of the rule whose action triggered
      this YYERROR.  */
@@ -1974,13 +1790,14 @@ yyerrorlab:
 yyerrlab1:
   yyerrstatus = 3;      /* Each real token shifted decrements this.  */
 
+  /* Pop stack until we find a state that shifts the error token.  */
   for (;;)
     {
       yyn = yypact[yystate];
       if (!yypact_value_is_default (yyn))
         {
-          yyn += YYTERROR;
-          if (0 <= yyn && yyn <= YYLAST && yycheck[yyn] == YYTERROR)
+          yyn += YYSYMBOL_YYerror;
+          if (0 <= yyn && yyn <= YYLAST && yycheck[yyn] == YYSYMBOL_YYerror)
             {
               yyn = yytable[yyn];
               if (0 < yyn)
@@ -1994,7 +1811,7 @@ yyerrlab1:
 
 
       yydestruct ("Error: popping",
-                  yystos[yystate], yyvsp, scanner);
+                  YY_ACCESSING_SYMBOL (yystate), yyvsp, scanner);
       YYPOPSTACK (1);
       yystate = *yyssp;
       YY_STACK_PRINT (yyss, yyssp);
@@ -2006,7 +1823,7 @@ yyerrlab1:
 
 
   /* Shift the error token.  */
-  YY_SYMBOL_PRINT ("Shifting", yystos[yyn], yyvsp, yylsp);
+  YY_SYMBOL_PRINT ("Shifting", YY_ACCESSING_SYMBOL (yyn), yyvsp, yylsp);
 
   yystate = yyn;
   goto yynewstate;
@@ -2017,7 +1834,7 @@ yyerrlab1:
 `-------------------------------------*/
 yyacceptlab:
   yyresult = 0;
-  goto yyreturn;
+  goto yyreturnlab;
 
 
 /*-----------------------------------.
@@ -2025,25 +1842,23 @@ yyacceptlab:
 `-----------------------------------*/
 yyabortlab:
   yyresult = 1;
-  goto yyreturn;
+  goto yyreturnlab;
 
 
-#if !defined yyoverflow || YYERROR_VERBOSE
-/*-------------------------------------------------.
-| yyexhaustedlab -- memory exhaustion comes here.  |
-`-------------------------------------------------*/
+/*-----------------------------------------------------------.
+| yyexhaustedlab -- YYNOMEM (memory exhaustion) comes here.  |
+`-----------------------------------------------------------*/
 yyexhaustedlab:
   yyerror (scanner, YY_("memory exhausted"));
   yyresult = 2;
-  /* Fall through.  */
-#endif
+  goto yyreturnlab;
 
 
-/*-----------------------------------------------------.
-| yyreturn -- parsing is finished, return the result.  |
-`-----------------------------------------------------*/
-yyreturn:
-  if (yychar != YYEMPTY)
+/*----------------------------------------------------------.
+| yyreturnlab -- parsing is finished, clean up and return.  |
+`----------------------------------------------------------*/
+yyreturnlab:
+  if (yychar != ZZEMPTY)
     {
       /* Make sure we have latest lookahead translation.  See comments at
          user semantic actions for why this is necessary.  */
@@ -2058,20 +1873,18 @@ yyreturn:
   while (yyssp != yyss)
     {
       yydestruct ("Cleanup: popping",
-                  yystos[+*yyssp], yyvsp, scanner);
+                  YY_ACCESSING_SYMBOL (+*yyssp), yyvsp, scanner);
       YYPOPSTACK (1);
     }
 #ifndef yyoverflow
   if (yyss != yyssa)
     YYSTACK_FREE (yyss);
 #endif
-#if YYERROR_VERBOSE
-  if (yymsg != yymsgbuf)
-    YYSTACK_FREE (yymsg);
-#endif
+
   return yyresult;
 }
-#line 183 "src/event_parser.y"
+
+#line 183 "/repo/src/event_parser.y"
 
 
 #if defined(__GNUC__)
-- 
2.43.0


From 028d97ed83ff6074222a05c45cd2e1db61e1cea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 33/48] fix: attributes configured with upper case letters can
 be used

---
 src/tree.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index a0c04a5..0138d35 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -1,4 +1,3 @@
-#include <ctype.h>
 #include <float.h>
 #include <inttypes.h>
 #include <math.h>
@@ -7,6 +6,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <strings.h>
 
 #include "alloc.h"
 #include "ast.h"
@@ -1618,17 +1618,12 @@ const char* get_attr_for_id(const struct config* config, betree_var_t variable_i
 
 betree_var_t try_get_id_for_attr(const struct config* config, const char* attr)
 {
-    char* copy = bstrdup(attr);
-    for(size_t i = 0; copy[i]; i++) {
-        copy[i] = tolower(copy[i]);
-    }
     for(size_t i = 0; i < config->attr_domain_count; i++) {
-        if(strcmp(config->attr_domains[i]->attr_var.attr, copy) == 0) {
-            bfree(copy);
+        // Names are not case sensitive, neither in the config
+        if(strcasecmp(config->attr_domains[i]->attr_var.attr, attr) == 0) {
             return i;
         }
     }
-    bfree(copy);
     return INVALID_VAR;
 }
 
-- 
2.43.0


From e7a2b97bda737706e3c1a0abdd3a5ce82fa3d291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 34/48] fix: node capacities and minimum partition sizes above
 255 are not truncated

---
 src/config.c | 2 +-
 src/config.h | 6 +++---
 src/tree.c   | 6 ++++--
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/config.c b/src/config.c
index 1341318..67de477 100644
--- a/src/config.c
+++ b/src/config.c
@@ -9,7 +9,7 @@
 #include "memoize.h"
 #include "utils.h"
 
-struct config* make_config(uint8_t lnode_max_cap, uint8_t partition_min_size)
+struct config* make_config(uint64_t lnode_max_cap, uint64_t partition_min_size)
 {
     struct config* config = bcalloc(sizeof(*config));
     if(config == NULL) {
diff --git a/src/config.h b/src/config.h
index 70051cc..b90501d 100644
--- a/src/config.h
+++ b/src/config.h
@@ -34,13 +34,13 @@ struct integer_map {
     };
 };
 
-struct config* make_config(uint8_t lnode_max_cap, uint8_t partition_min_size);
+struct config* make_config(uint64_t lnode_max_cap, uint64_t partition_min_size);
 struct config* make_default_config();
 void free_config(struct config* config);
 
 struct config {
-    uint8_t lnode_max_cap;
-    uint8_t partition_min_size;
+    uint64_t lnode_max_cap;
+    uint64_t partition_min_size;
     uint32_t max_domain_for_split;
     struct {
         size_t attr_domain_count;
diff --git a/src/tree.c b/src/tree.c
index 0138d35..9e20535 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -789,8 +789,10 @@ static void update_cluster_capacity(const struct config* config, struct lnode* l
         return;
     }
     size_t count = lnode->sub_count;
-    size_t max = smax(config->lnode_max_cap,
-        ceil((double)count / (double)config->lnode_max_cap) * config->lnode_max_cap);
+    size_t max = config->lnode_max_cap;
+    if(count > max) {
+        max = ceil((double)count / (double)max) * max;
+    }
     lnode->max = max;
 }
 
-- 
2.43.0


From a78bbbe1ddb91f8b8740a154b9f0cbca977559e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:12 +0000
Subject: [PATCH 35/48] fix: a float of an event can be written with no
 fractions

---
 src/tree.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tree.c b/src/tree.c
index 9e20535..aa6abf1 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -1874,6 +1874,10 @@ void fill_event(const struct config* config, struct betree_event* event)
         }
         pred->attr_var.var = var;
         struct attr_domain* domain = config->attr_domains[var];
+        // As in the expressions, a float can be written with no fractions
+        if(domain->bound.value_type == BETREE_FLOAT && pred->value.value_type == BETREE_INTEGER) {
+            pred->value.float_value = (double)pred->value.integer_value;
+        }
         pred->value.value_type = domain->bound.value_type;
         switch(pred->value.value_type) {
             case BETREE_BOOLEAN:
-- 
2.43.0


From 1eab9933e10de1cf6aac771bb3040c165843c70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 36/48] fix: the existence check refuses the events the search
 refuses

---
 src/betree.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/betree.c b/src/betree.c
index 4c64607..3e901cb 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -589,6 +589,11 @@ static bool betree_search_with_event_filled(const struct betree* betree, struct
 static bool betree_exists_with_event_filled(const struct betree* betree, struct betree_event* event)
 {
     const struct betree_variable** variables = make_environment(betree->config->attr_domain_count, event);
+    if(validate_variables(betree->config, variables) == false) {
+        fprintf(stderr, "Failed to validate event\n");
+        bfree(variables);
+        return false;
+    }
     return betree_exists_with_preds(betree->config, variables, betree->cnode);
 }
 
-- 
2.43.0


From eac39859ed108fb2c735b6c5200a8e05596e1e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 37/48] fix: an event with a value of the wrong type is refused

---
 src/tree.c | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/tree.c b/src/tree.c
index aa6abf1..9eb996e 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -1860,6 +1860,30 @@ void add_variable(struct betree_variable* variable, struct betree_event* event)
     event->variable_count++;
 }
 
+// Whether a value, as it was parsed or made, is one of the type of a domain
+static bool can_be_read_as(const struct value* value, enum betree_value_type_e type)
+{
+    switch(value->value_type) {
+        case BETREE_INTEGER:
+            return type == BETREE_INTEGER || type == BETREE_FLOAT || type == BETREE_INTEGER_ENUM;
+        case BETREE_INTEGER_LIST:
+        case BETREE_STRING_LIST:
+        case BETREE_SEGMENTS:
+        case BETREE_FREQUENCY_CAPS:
+            // Nothing tells the empty lists apart
+            return type == value->value_type
+                || (is_empty_list(*value)
+                       && (type == BETREE_INTEGER_LIST || type == BETREE_STRING_LIST
+                              || type == BETREE_SEGMENTS || type == BETREE_FREQUENCY_CAPS));
+        case BETREE_BOOLEAN:
+        case BETREE_FLOAT:
+        case BETREE_STRING:
+        case BETREE_INTEGER_ENUM:
+        default:
+            return type == value->value_type;
+    }
+}
+
 void fill_event(const struct config* config, struct betree_event* event)
 {
     for(size_t i = 0; i < event->variable_count; i++) {
@@ -1878,6 +1902,10 @@ void fill_event(const struct config* config, struct betree_event* event)
         if(domain->bound.value_type == BETREE_FLOAT && pred->value.value_type == BETREE_INTEGER) {
             pred->value.float_value = (double)pred->value.integer_value;
         }
+        if(!can_be_read_as(&pred->value, domain->bound.value_type)) {
+            // Keeps its own type, validate_variables refuses it
+            continue;
+        }
         pred->value.value_type = domain->bound.value_type;
         switch(pred->value.value_type) {
             case BETREE_BOOLEAN:
@@ -1932,6 +1960,9 @@ bool validate_variables(const struct config* config, const struct betree_variabl
         if(attr_domain->allow_undefined == false && variable == NULL) {
             return false;
         }
+        if(variable != NULL && variable->value.value_type != attr_domain->bound.value_type) {
+            return false;
+        }
     }
     return true;
 }
-- 
2.43.0


From 6710beb61989679aa3448bc56769ff95c5598649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:16 +0000
Subject: [PATCH 38/48] fix: keep all unknown strings of an event list

Strings the tree does not know share one id, so all but one of them were
dropped from the list of an event object, which then missed expressions
inserted before it was searched again.
---
 src/value.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/value.c b/src/value.c
index a5bdd80..33df190 100644
--- a/src/value.c
+++ b/src/value.c
@@ -432,7 +432,10 @@ void remove_duplicates_string_list(struct betree_string_list* list)
     }
     size_t r = 0;
     for (size_t i = 1; i < list->count; i++) {
-        if (list->strings[r].str != list->strings[i].str) {
+        // strings the tree does not know all have the same id, they can still be different
+        if (list->strings[r].str != list->strings[i].str
+            || (list->strings[i].str == INVALID_STR
+                && strcmp(list->strings[r].string, list->strings[i].string) != 0)) {
             list->strings[++ r] = list->strings[i]; // copy-in next unique number
         }
         else {
-- 
2.43.0


From 557a67e0e25cc1747b4b284961d8d3914046367a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:55 +0000
Subject: [PATCH 39/48] fix: close the graph file once written

It was left open, so the file stayed incomplete until the process ended and
every graph cost a file descriptor.
---
 src/debug.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/debug.c b/src/debug.c
index 4487b07..b00c843 100644
--- a/src/debug.c
+++ b/src/debug.c
@@ -778,5 +778,6 @@ void write_dot_file(const struct betree* tree)
     write_dot_file_cnode_links(f, config, root, 1);
     write_dot_file_cnode_ranks(f, config, root, 1);
     fprintf(f, "}\n");
+    fclose(f);
 }
 
-- 
2.43.0


From d99eac38ac31a220c3041c67c289a278abc95e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:08 +0000
Subject: [PATCH 40/48] fix: graph names that are no two things' and that DOT
 can read

Names of c-directories were not quoted, so a negative bound or a '-' made
the file unreadable; float bounds were rounded and '-' in attributes became
'_', so that different nodes could get one name.
---
 src/debug.c | 50 +++++++++++---------------------------------------
 1 file changed, 11 insertions(+), 39 deletions(-)

diff --git a/src/debug.c b/src/debug.c
index b00c843..3cfa9de 100644
--- a/src/debug.c
+++ b/src/debug.c
@@ -15,56 +15,28 @@ static bool should_print_cnode(const struct cnode* cnode)
 
 static const char* get_path_cnode(const struct config* config, const struct cnode* cnode);
 
-static const char* escape_name(const char* input)
-{
-    size_t len = strlen(input);
-    char* escaped = bcalloc((len + 1) * sizeof(*escaped));
-    if(escaped == NULL) {
-        fprintf(stderr, "%s bcalloc failed", __func__);
-        abort();
-    }
-    for(size_t i = 0; i < len; i++) {
-        if(input[i] == '-') {
-            escaped[i] = '_';
-        }
-        else {
-            escaped[i] = input[i];
-        }
-    }
-    escaped[len] = '\0';
-    return escaped;
-}
-
 static const char* get_path_pnode(const struct config* config, const struct pnode* pnode)
 {
     char* name;
     const char* parent_path = get_path_cnode(config, pnode->parent->parent);
-    const char* escaped_attr = escape_name(pnode->attr_var.attr);
-    if(basprintf(&name, "%s_%s", parent_path, escaped_attr) < 0) {
+    if(basprintf(&name, "%s_%s", parent_path, pnode->attr_var.attr) < 0) {
         abort();
     }
     bfree((char*)parent_path);
-    bfree((char*)escaped_attr);
     return name;
 }
 
-static const char* get_path_cdir(const struct config* config, const struct cdir* cdir, bool first)
+static const char* get_path_cdir(const struct config* config, const struct cdir* cdir)
 {
     const char* parent_path = NULL;
     switch(cdir->parent_type) {
         case(CNODE_PARENT_CDIR): {
-            if(first) {
-                parent_path = get_path_cdir(config, cdir->cdir_parent, false);
-                break;
-            }
-            return get_path_cdir(config, cdir->cdir_parent, false);
+            parent_path = get_path_cdir(config, cdir->cdir_parent);
+            break;
         }
         case(CNODE_PARENT_PNODE): {
-            if(first) {
-                parent_path = get_path_pnode(config, cdir->pnode_parent);
-                break;
-            }
-            return get_path_pnode(config, cdir->pnode_parent);
+            parent_path = get_path_pnode(config, cdir->pnode_parent);
+            break;
         }
         default: abort();
     }
@@ -82,7 +54,7 @@ static const char* get_path_cdir(const struct config* config, const struct cdir*
             }
             break;
         case(BETREE_FLOAT): {
-            if(basprintf(&name, "%s_%.0f_%.0f", parent_path, cdir->bound.fmin, cdir->bound.fmax)
+            if(basprintf(&name, "%s_%.17g_%.17g", parent_path, cdir->bound.fmin, cdir->bound.fmax)
                 < 0) {
                 abort();
             }
@@ -122,7 +94,7 @@ static const char* get_path_cnode(const struct config* config, const struct cnod
     if(cnode->parent == NULL) {
         return bstrdup("");
     }
-    return get_path_cdir(config, cnode->parent, true);
+    return get_path_cdir(config, cnode->parent);
 }
 
 static const char* get_name_pnode(const struct config* config, const struct pnode* pnode)
@@ -139,7 +111,7 @@ static const char* get_name_pnode(const struct config* config, const struct pnod
 static const char* get_name_cdir(const struct config* config, const struct cdir* cdir)
 {
     char* name;
-    const char* path = get_path_cdir(config, cdir, true);
+    const char* path = get_path_cdir(config, cdir);
     if(basprintf(&name, "cdir_%s", path) < 0) {
         abort();
     }
@@ -374,7 +346,7 @@ static void write_dot_file_cdir_names(
         "color=orange; fillcolor=orange; style=filled; label=\"c-directory\"; fontsize=20; "
         "fontname=\"Verdana\"\n");
     print_spaces(f, level);
-    fprintf(f, "%s [fillcolor=darkolivegreen3, style=filled, shape=box, label=<\n", name);
+    fprintf(f, "\"%s\" [fillcolor=darkolivegreen3, style=filled, shape=box, label=<\n", name);
     level++;
     print_spaces(f, level);
     fprintf(f, "<table>\n");
@@ -481,7 +453,7 @@ static void write_dot_file_cdir_links(FILE* f,
     if(cdir->cnode != NULL && should_print_cnode(cdir->cnode)) {
         const char* cnode_name = get_name_cnode(config, cdir->cnode);
         print_spaces(f, level);
-        fprintf(f, "%s:%s -> \"%s\"\n", table_name, cdir_name, cnode_name);
+        fprintf(f, "\"%s\":\"%s\" -> \"%s\"\n", table_name, cdir_name, cnode_name);
         bfree((char*)cnode_name);
         write_dot_file_cnode_links(f, config, cdir->cnode, level);
     }
-- 
2.43.0


From c387e614041ed86c9f6bfe3aec2d162cd7dac449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:04 +0000
Subject: [PATCH 41/48] fix: print empty lists as empty

---
 src/value.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/value.c b/src/value.c
index 33df190..ba0318b 100644
--- a/src/value.c
+++ b/src/value.c
@@ -72,6 +72,9 @@ void add_integer_list_value(int64_t integer, struct betree_integer_list* list)
 
 char* integer_list_value_to_string(struct betree_integer_list* list)
 {
+    if(list->count == 0) {
+        return bstrdup("");
+    }
     char* string = NULL;
     for(size_t i = 0; i < list->count; i++) {
         char* new_string;
@@ -115,6 +118,9 @@ void add_string_list_value(struct string_value string, struct betree_string_list
 
 char* string_list_value_to_string(struct betree_string_list* list)
 {
+    if(list->count == 0) {
+        return bstrdup("");
+    }
     char* string = NULL;
     for(size_t i = 0; i < list->count; i++) {
         char* new_string;
@@ -339,6 +345,9 @@ char* segment_value_to_string(struct betree_segment* segment)
 
 char* segments_value_to_string(struct betree_segments* list)
 {
+    if(list->size == 0) {
+        return bstrdup("");
+    }
     char* string = NULL;
     for(size_t i = 0; i < list->size; i++) {
         char* new_string;
@@ -379,6 +388,9 @@ char* frequency_cap_to_string(struct betree_frequency_cap* cap)
 
 char* frequency_caps_value_to_string(struct betree_frequency_caps* list)
 {
+    if(list->size == 0) {
+        return bstrdup("");
+    }
     char* string = NULL;
     for(size_t i = 0; i < list->size; i++) {
         char* new_string;
-- 
2.43.0


From 5b93ffa6a7ec89cddbbdfd3bc9030ba00466b520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:04 +0000
Subject: [PATCH 42/48] fix: print negative integers of events as negative

---
 src/tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tree.c b/src/tree.c
index 9eb996e..d4e6ff8 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -1640,7 +1640,7 @@ void event_to_string(const struct betree_event* event, char* buffer)
         const char* attr = pred->attr_var.attr;
         switch(pred->value.value_type) {
             case(BETREE_INTEGER): {
-                length += sprintf(buffer + length, "%s = %" PRIu64, attr, pred->value.integer_value);
+                length += sprintf(buffer + length, "%s = %" PRId64, attr, pred->value.integer_value);
                 break;
             }
             case(BETREE_FLOAT): {
-- 
2.43.0


From 727894d4c2f3bae8acf3500f0395a8f02c77731b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:17 +0000
Subject: [PATCH 43/48] fix: attributes can be declared after expressions are
 inserted

The bits of an expression were sized for the attributes there were when it
was made, and read for all there are.
---
 src/tree.c | 22 +++++++++++-----------
 src/tree.h |  2 ++
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index d4e6ff8..b58a7ac 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -62,14 +62,13 @@ static enum short_circuit_e try_short_circuit(size_t attr_domains_count,
     return SHORT_CIRCUIT_NONE;
 }
 
-static bool match_sub(size_t attr_domains_count,
-    const struct betree_variable** preds,
+static bool match_sub(const struct betree_variable** preds,
     const struct betree_sub* sub,
     struct report* report,
     struct memoize* memoize,
     const uint64_t* undefined)
 {
-    enum short_circuit_e short_circuit = try_short_circuit(attr_domains_count, &sub->short_circuit, undefined);
+    enum short_circuit_e short_circuit = try_short_circuit(sub->attr_count, &sub->short_circuit, undefined);
     if(short_circuit != SHORT_CIRCUIT_NONE) {
         if(report != NULL) {
             report->shorted++;
@@ -193,7 +192,7 @@ bool sub_is_enclosed(const struct attr_domain** attr_domains, const struct betre
     if(cdir == NULL) {
         return false;
     }
-    if(test_bit(sub->attr_vars, cdir->attr_var.var) == true) {
+    if(sub_has_attribute(sub, cdir->attr_var.var) == true) {
         const struct attr_domain* attr_domain = get_attr_domain(attr_domains, cdir->attr_var.var);
         struct value_bound bound = get_variable_bound(attr_domain, sub->expr);
         switch(attr_domain->bound.value_type) {
@@ -423,7 +422,7 @@ bool insert_be_tree(
     if(cnode->pdir != NULL) {
         float max_score = -DBL_MAX;
         for(size_t i = 0; i < config->attr_domain_count; i++) {
-            if(test_bit(sub->attr_vars, i) == false) {
+            if(sub_has_attribute(sub, i) == false) {
                 continue;
             }
             betree_var_t variable_id = i;
@@ -483,7 +482,7 @@ static bool is_overflowed(const struct lnode* lnode)
 
 bool sub_has_attribute(const struct betree_sub* sub, betree_var_t variable_id)
 {
-    return test_bit(sub->attr_vars, variable_id);
+    return variable_id < sub->attr_count && test_bit(sub->attr_vars, variable_id);
 }
 
 bool sub_has_attribute_str(struct config* config, const struct betree_sub* sub, const char* attr)
@@ -664,7 +663,7 @@ static size_t count_attr_in_lnode(betree_var_t variable_id, const struct lnode*
             fprintf(stderr, "%s, sub is NULL\n", __func__);
             continue;
         }
-        if(test_bit(sub->attr_vars, variable_id) == true) {
+        if(sub_has_attribute(sub, variable_id) == true) {
             count++;
         }
     }
@@ -758,7 +757,7 @@ static bool get_next_highest_score_unused_attr(
     for(size_t i = 0; i < lnode->sub_count; i++) {
         const struct betree_sub* sub = lnode->subs[i];
         for(size_t j = 0; j < config->attr_domain_count; j++) {
-            if(test_bit(sub->attr_vars, j) == false) {
+            if(sub_has_attribute(sub, j) == false) {
                 continue;
             }
             betree_var_t current_variable_id = j;
@@ -1588,7 +1587,8 @@ struct betree_sub* make_sub(struct config* config, betree_sub_t id, struct ast_n
         abort();
     }
     sub->id = id;
-    size_t count = config->attr_domain_count / 64 + 1;
+    sub->attr_count = config->attr_domain_count;
+    size_t count = sub->attr_count / 64 + 1;
     sub->attr_vars = bcalloc(count * sizeof(*sub->attr_vars));
     sub->expr = expr;
     fill_pred(sub, sub->expr);
@@ -1750,7 +1750,7 @@ bool betree_search_with_preds(const struct config* config,
     for(size_t i = 0; i < subs.count; i++) {
         const struct betree_sub* sub = subs.subs[i];
         report->evaluated++;
-        if(match_sub(config->attr_domain_count, preds, sub, report, &memoize, undefined) == true) {
+        if(match_sub(preds, sub, report, &memoize, undefined) == true) {
             add_sub(sub->id, report);
         }
     }
@@ -1771,7 +1771,7 @@ bool betree_exists_with_preds(const struct config* config, const struct betree_v
     bool result = false;
     for(size_t i = 0; i < subs.count; i++) {
         const struct betree_sub* sub = subs.subs[i];
-        if(match_sub(config->attr_domain_count, preds, sub, NULL, &memoize, undefined) == true) {
+        if(match_sub(preds, sub, NULL, &memoize, undefined) == true) {
             result = true;
             break;
         }
diff --git a/src/tree.h b/src/tree.h
index dbc2fcb..0edfe22 100644
--- a/src/tree.h
+++ b/src/tree.h
@@ -21,6 +21,8 @@ struct short_circuit {
 
 struct betree_sub {
     betree_sub_t id;
+    // How many attributes there were when it was made, the bits of attr_vars and short_circuit
+    size_t attr_count;
     uint64_t* attr_vars;
     const struct ast_node* expr;
     struct short_circuit short_circuit;
-- 
2.43.0


From 05ce99904874e94772b82d5471759036db21d719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:43 +0000
Subject: [PATCH 44/48] fix: constants, caps and windows are not cut down to 32
 bits

---
 src/ast.c     |  2 +-
 src/ast.h     |  2 +-
 src/special.c | 27 ++++++++++++++++++++-------
 src/special.h |  8 ++++----
 src/value.c   | 12 ++++++------
 src/value.h   | 12 ++++++------
 6 files changed, 38 insertions(+), 25 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 24caf04..8913606 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -1973,7 +1973,7 @@ bool assign_constants(
                     if(success == false) {
                         return false;
                     }
-                    node->special_expr.frequency.id = (uint32_t)constant;
+                    node->special_expr.frequency.id = constant;
                     return true;
                 }
                 case AST_SPECIAL_SEGMENT:
diff --git a/src/ast.h b/src/ast.h
index 90a4b81..5d8a308 100644
--- a/src/ast.h
+++ b/src/ast.h
@@ -188,7 +188,7 @@ struct ast_special_frequency {
     int64_t value;
     size_t length;
     struct attr_var now;
-    uint32_t id;
+    int64_t id;
 };
 
 enum ast_special_segment_e {
diff --git a/src/special.c b/src/special.c
index 5192ae6..9f5050c 100644
--- a/src/special.c
+++ b/src/special.c
@@ -8,11 +8,24 @@
 #include "special.h"
 #include "utils.h"
 
+// Seconds between a timestamp in microseconds and now, saturating
+static int64_t seconds_since(int64_t timestamp, int64_t now)
+{
+    int64_t then = timestamp / 1000000;
+    if(then > 0 && now < INT64_MIN + then) {
+        return INT64_MIN;
+    }
+    if(then < 0 && now > INT64_MAX + then) {
+        return INT64_MAX;
+    }
+    return now - then;
+}
+
 bool within_frequency_caps(const struct betree_frequency_caps* caps,
     enum frequency_type_e type,
-    uint32_t id,
+    int64_t id,
     const struct string_value namespace,
-    uint32_t value,
+    int64_t value,
     size_t length,
     int64_t now)
 {
@@ -27,7 +40,7 @@ bool within_frequency_caps(const struct betree_frequency_caps* caps,
             if(!content->timestamp_defined) {
                 return true;
             }
-            if((now - (content->timestamp / 1000000)) > (int64_t)length) {
+            if(seconds_since(content->timestamp, now) > (int64_t)length) {
                 return true;
             }
             if(value > content->value) {
@@ -40,14 +53,14 @@ bool within_frequency_caps(const struct betree_frequency_caps* caps,
 }
 
 bool segment_within(
-    int64_t segment_id, int32_t after_seconds, const struct betree_segments* segments, int64_t now)
+    int64_t segment_id, int64_t after_seconds, const struct betree_segments* segments, int64_t now)
 {
     for(size_t i = 0; i < segments->size; i++) {
         if(segments->content[i]->id < segment_id) {
             continue;
         }
         if(segments->content[i]->id == segment_id) {
-            return (now - after_seconds) <= (segments->content[i]->timestamp / 1000000);
+            return seconds_since(segments->content[i]->timestamp, now) <= after_seconds;
         }
         return false;
     }
@@ -55,14 +68,14 @@ bool segment_within(
 }
 
 bool segment_before(
-    int64_t segment_id, int32_t before_seconds, const struct betree_segments* segments, int64_t now)
+    int64_t segment_id, int64_t before_seconds, const struct betree_segments* segments, int64_t now)
 {
     for(size_t i = 0; i < segments->size; i++) {
         if(segments->content[i]->id < segment_id) {
             continue;
         }
         if(segments->content[i]->id == segment_id) {
-            return (now - before_seconds) > (segments->content[i]->timestamp / 1000000);
+            return seconds_since(segments->content[i]->timestamp, now) > before_seconds;
         }
         return false;
     }
diff --git a/src/special.h b/src/special.h
index 688aa9c..0a1634c 100644
--- a/src/special.h
+++ b/src/special.h
@@ -8,15 +8,15 @@
 
 bool within_frequency_caps(const struct betree_frequency_caps* caps,
     enum frequency_type_e type,
-    uint32_t id,
+    int64_t id,
     const struct string_value namespace,
-    uint32_t value,
+    int64_t value,
     size_t length,
     int64_t now);
 bool segment_within(
-    int64_t segment_id, int32_t after_seconds, const struct betree_segments* segments, int64_t now);
+    int64_t segment_id, int64_t after_seconds, const struct betree_segments* segments, int64_t now);
 bool segment_before(
-    int64_t segment_id, int32_t before_seconds, const struct betree_segments* segments, int64_t now);
+    int64_t segment_id, int64_t before_seconds, const struct betree_segments* segments, int64_t now);
 bool geo_within_radius(double lat1, double lon1, double lat2, double lon2, double distance);
 bool contains(const char* value, const char* pattern);
 bool starts_with(const char* value, const char* pattern);
diff --git a/src/value.c b/src/value.c
index ba0318b..8371b35 100644
--- a/src/value.c
+++ b/src/value.c
@@ -192,22 +192,22 @@ struct betree_segment* make_segment(int64_t id, int64_t timestamp)
 }
 
 struct betree_frequency_cap* make_frequency_cap(const char* stype,
-    uint32_t id,
+    int64_t id,
     struct string_value namespace,
     bool timestamp_defined,
     int64_t timestamp,
-    uint32_t value)
+    int64_t value)
 {
     enum frequency_type_e type = get_type_from_string(stype);
     return make_frequency_cap_with_type(type, id, namespace, timestamp_defined, timestamp, value);
 }
 
 struct betree_frequency_cap* make_frequency_cap_with_type(enum frequency_type_e type,
-    uint32_t id,
+    int64_t id,
     struct string_value namespace,
     bool timestamp_defined,
     int64_t timestamp,
-    uint32_t value)
+    int64_t value)
 {
     struct betree_frequency_cap* frequency_cap = bmalloc(sizeof(*frequency_cap));
     frequency_cap->type = type;
@@ -374,12 +374,12 @@ char* frequency_cap_to_string(struct betree_frequency_cap* cap)
     char* string = NULL;
     const char* type = frequency_type_to_string(cap->type);
     if(cap->timestamp_defined) {
-        if(basprintf(&string, "[[\"%s\", %u, \"%s\"], %u, %ld]", type, cap->id, cap->namespace.string, cap->value, cap->timestamp) < 0) {
+        if(basprintf(&string, "[[\"%s\", %ld, \"%s\"], %ld, %ld]", type, cap->id, cap->namespace.string, cap->value, cap->timestamp) < 0) {
             abort();
         }
     }
     else {
-        if(basprintf(&string, "[[\"%s\", %u, \"%s\"], %u, undefined]", type, cap->id, cap->namespace.string, cap->value) < 0) {
+        if(basprintf(&string, "[[\"%s\", %ld, \"%s\"], %ld, undefined]", type, cap->id, cap->namespace.string, cap->value) < 0) {
             abort();
         }
     }
diff --git a/src/value.h b/src/value.h
index 4505b96..010e031 100644
--- a/src/value.h
+++ b/src/value.h
@@ -63,11 +63,11 @@ enum frequency_type_e {
 
 struct betree_frequency_cap {
     enum frequency_type_e type;
-    uint32_t id;
+    int64_t id;
     struct string_value namespace;
     bool timestamp_defined;
     int64_t timestamp;
-    uint32_t value;
+    int64_t value;
 };
 
 struct betree_frequency_caps {
@@ -125,17 +125,17 @@ void add_segment(struct betree_segment* segment, struct betree_segments* list);
 void add_frequency(struct betree_frequency_cap* frequency, struct betree_frequency_caps* list);
 struct betree_segment* make_segment(int64_t id, int64_t timestamp);
 struct betree_frequency_cap* make_frequency_cap(const char* stype,
-    uint32_t id,
+    int64_t id,
     struct string_value namespace,
     bool timestamp_defined,
     int64_t timestamp,
-    uint32_t value);
+    int64_t value);
 struct betree_frequency_cap* make_frequency_cap_with_type(enum frequency_type_e type,
-    uint32_t id,
+    int64_t id,
     struct string_value namespace,
     bool timestamp_defined,
     int64_t timestamp,
-    uint32_t value);
+    int64_t value);
 
 enum frequency_type_e get_type_from_string(const char* stype);
 char* segments_value_to_string(struct betree_segments* list);
-- 
2.43.0


From 3f7350e27676e87d030d76f8801c48e8ccbef4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:00 +0000
Subject: [PATCH 45/48] fix: expressions true of a float that is not a number
 are found in split domains

---
 src/tree.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tree.c b/src/tree.c
index b58a7ac..a4a7a93 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -151,6 +151,10 @@ static bool is_event_enclosed(const struct betree_variable** preds, const struct
         case BETREE_INTEGER:
             return (open_left || cdir->bound.imin <= pred->value.integer_value) && (open_right || cdir->bound.imax >= pred->value.integer_value);
         case BETREE_FLOAT:
+            // What is not a number is on neither side, so no side can be ruled out
+            if(isnan(pred->value.float_value)) {
+                return true;
+            }
             // Float equality and strict bounds both have an epsilon of tolerance
             return (open_left || cdir->bound.fmin - 2 * __DBL_EPSILON__ <= pred->value.float_value) && (open_right || cdir->bound.fmax + 2 * __DBL_EPSILON__ >= pred->value.float_value);
         case BETREE_STRING:
-- 
2.43.0


From 3df2dea0071d1060c4c68c10e313a2b45fe8d228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:55 +0000
Subject: [PATCH 46/48] fix: graph node names cannot collide with attribute
 names

---
 src/debug.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/debug.c b/src/debug.c
index 3cfa9de..6e9b4be 100644
--- a/src/debug.c
+++ b/src/debug.c
@@ -19,7 +19,7 @@ static const char* get_path_pnode(const struct config* config, const struct pnod
 {
     char* name;
     const char* parent_path = get_path_cnode(config, pnode->parent->parent);
-    if(basprintf(&name, "%s_%s", parent_path, pnode->attr_var.attr) < 0) {
+    if(basprintf(&name, "%s/%s", parent_path, pnode->attr_var.attr) < 0) {
         abort();
     }
     bfree((char*)parent_path);
@@ -45,7 +45,7 @@ static const char* get_path_cdir(const struct config* config, const struct cdir*
         case(BETREE_INTEGER):
         case(BETREE_INTEGER_LIST):
             if(basprintf(&name,
-                   "%s_%lu_%lu",
+                   "%s/%lu_%lu",
                    parent_path,
                    cdir->bound.imin,
                    cdir->bound.imax)
@@ -54,7 +54,7 @@ static const char* get_path_cdir(const struct config* config, const struct cdir*
             }
             break;
         case(BETREE_FLOAT): {
-            if(basprintf(&name, "%s_%.17g_%.17g", parent_path, cdir->bound.fmin, cdir->bound.fmax)
+            if(basprintf(&name, "%s/%.17g_%.17g", parent_path, cdir->bound.fmin, cdir->bound.fmax)
                 < 0) {
                 abort();
             }
@@ -63,7 +63,7 @@ static const char* get_path_cdir(const struct config* config, const struct cdir*
         case(BETREE_BOOLEAN): {
             const char* min = cdir->bound.bmin ? "true" : "false";
             const char* max = cdir->bound.bmax ? "true" : "false";
-            if(basprintf(&name, "%s_%s_%s", parent_path, min, max) < 0) {
+            if(basprintf(&name, "%s/%s_%s", parent_path, min, max) < 0) {
                 abort();
             }
             break;
@@ -71,7 +71,7 @@ static const char* get_path_cdir(const struct config* config, const struct cdir*
         case(BETREE_STRING):
         case(BETREE_STRING_LIST):
         case(BETREE_INTEGER_ENUM):
-            if(basprintf(&name, "%s_%zu_%zu", parent_path, cdir->bound.smin, cdir->bound.smax) < 0) {
+            if(basprintf(&name, "%s/%zu_%zu", parent_path, cdir->bound.smin, cdir->bound.smax) < 0) {
                 abort();
             }
             break;
@@ -377,7 +377,7 @@ static void write_dot_file_pnode_names(
         pnode->attr_var.attr);
     print_spaces(f, level);
     fprintf(f,
-        "\"%s_fake\" [label=\"p-node\", color=cyan2, fillcolor=cyan2, style=filled, shape=circle, "
+        "\"%s/fake\" [label=\"p-node\", color=cyan2, fillcolor=cyan2, style=filled, shape=circle, "
         "fixedsize=true, width=0.8]\n",
         name);
     bfree((char*)name);
@@ -473,10 +473,10 @@ static void write_dot_file_pnode_links(
         const char* pnode_name = get_name_pnode(config, pnode);
         const char* cdir_name = get_name_cdir(config, pnode->cdir);
         print_spaces(f, level);
-        fprintf(f, "\"%s\" -> \"%s_fake\"\n", pnode_name, pnode_name);
+        fprintf(f, "\"%s\" -> \"%s/fake\"\n", pnode_name, pnode_name);
         print_spaces(f, level);
         fprintf(
-            f, "\"%s_fake\" -> \"%s\" [lhead=\"cluster%s\"]\n", pnode_name, cdir_name, cdir_name);
+            f, "\"%s/fake\" -> \"%s\" [lhead=\"cluster%s\"]\n", pnode_name, cdir_name, cdir_name);
         bfree((char*)pnode_name);
         write_dot_file_cdir_links(f, config, pnode->cdir, level, cdir_name);
         bfree((char*)cdir_name);
@@ -651,7 +651,7 @@ static void write_dot_file_pdir_ranks(
         if(i != 0) {
             fprintf(f, ", ");
         }
-        fprintf(f, "\"%s_fake\"", pnode_name);
+        fprintf(f, "\"%s/fake\"", pnode_name);
         bfree((char*)pnode_name);
     }
     fprintf(f, " }\n");
-- 
2.43.0


From c2573c6066eef5aa787757122d8e2a039313ee75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:07 +0000
Subject: [PATCH 47/48] fix: the smallest integer can be written in expressions
 and events

strtoll saturated at the largest integer before the minus was applied, so
-9223372036854775808 was read as -9223372036854775807.
---
 src/ast.c          | 9 +++++++--
 src/betree.c       | 2 +-
 src/event_lexer.c  | 2 +-
 src/event_lexer.l  | 2 +-
 src/event_parser.c | 4 ++--
 src/event_parser.y | 4 ++--
 src/lexer.c        | 2 +-
 src/lexer.l        | 2 +-
 src/parser.c       | 4 ++--
 src/parser.y       | 4 ++--
 10 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 8913606..cdc88e9 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -1095,6 +1095,11 @@ static int64_t next_integer(int64_t value)
     return value == INT64_MAX ? value : value + 1;
 }
 
+static int64_t previous_integer(int64_t value)
+{
+    return value == INT64_MIN ? value : value - 1;
+}
+
 static void get_variable_bound_inner(const struct attr_domain* domain,
     const struct ast_node* node,
     struct value_bound* bound,
@@ -1739,7 +1744,7 @@ static void get_variable_bound_inner(const struct attr_domain* domain,
                                 dirty->min_dirty = true;
                             }
                             else {
-                                bound->imax = node->compare_expr.value.integer_value - 1;
+                                bound->imax = previous_integer(node->compare_expr.value.integer_value);
                                 dirty->max_dirty = true;
                             }
                             break;
@@ -1813,7 +1818,7 @@ static void get_variable_bound_inner(const struct attr_domain* domain,
                     switch(node->compare_expr.value.value_type) {
                         case AST_COMPARE_VALUE_INTEGER:
                             if(is_reversed) {
-                                bound->imax = node->compare_expr.value.integer_value - 1;
+                                bound->imax = previous_integer(node->compare_expr.value.integer_value);
                                 dirty->max_dirty = true;
                             }
                             else {
diff --git a/src/betree.c b/src/betree.c
index 3e901cb..3f2695f 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -189,7 +189,7 @@ static struct value_bound compare_simple_bound(struct compare_value value, enum
         case AST_COMPARE_VALUE_INTEGER: {
             int64_t i = value.integer_value;
             switch(op) {
-                case AST_COMPARE_LT: return inverted ? compare_simple_bound(value, AST_COMPARE_GE, false) : integer_bound(i - 1);
+                case AST_COMPARE_LT: return inverted ? compare_simple_bound(value, AST_COMPARE_GE, false) : integer_bound(i == INT64_MIN ? i : i - 1);
                 case AST_COMPARE_LE: return inverted ? compare_simple_bound(value, AST_COMPARE_GT, false) : integer_bound(i);
                 case AST_COMPARE_GT: return inverted ? compare_simple_bound(value, AST_COMPARE_LE, false) : integer_bound(i == INT64_MAX ? i : i + 1);
                 case AST_COMPARE_GE: return inverted ? compare_simple_bound(value, AST_COMPARE_LT, false) : integer_bound(i);
diff --git a/src/event_lexer.c b/src/event_lexer.c
index 4622588..162dd37 100644
--- a/src/event_lexer.c
+++ b/src/event_lexer.c
@@ -677,7 +677,7 @@ static const flex_int16_t yy_chk[79] =
         memcpy(yylval->string, yytext + 1, yyleng - 2);\
         yylval->string[yyleng - 2] = 0;\
     }
-    #define SAVE_INTEGER yylval->integer_value = strtoll(yytext, NULL, 10)
+    #define SAVE_INTEGER yylval->integer_value = (int64_t)strtoull(yytext, NULL, 10) /* negative past INT64_MAX */
     #define SAVE_FLOAT yylval->float_value = atof(yytext)
     #define TOKEN(t) (yylval->token = t)
     #define YYSTYPE ZZSTYPE
diff --git a/src/event_lexer.l b/src/event_lexer.l
index 29ea1c9..94b103a 100644
--- a/src/event_lexer.l
+++ b/src/event_lexer.l
@@ -8,7 +8,7 @@
         memcpy(yylval->string, yytext + 1, yyleng - 2);\
         yylval->string[yyleng - 2] = 0;\
     }
-    #define SAVE_INTEGER yylval->integer_value = strtoll(yytext, NULL, 10)
+    #define SAVE_INTEGER yylval->integer_value = (int64_t)strtoull(yytext, NULL, 10) /* negative past INT64_MAX */
     #define SAVE_FLOAT yylval->float_value = atof(yytext)
     #define TOKEN(t) (yylval->token = t)
     #define YYSTYPE ZZSTYPE
diff --git a/src/event_parser.c b/src/event_parser.c
index 586ae79..430bcd9 100644
--- a/src/event_parser.c
+++ b/src/event_parser.c
@@ -1566,13 +1566,13 @@ yyreduce:
 
   case 19: /* integer: EVENT_INTEGER  */
 #line 132 "/repo/src/event_parser.y"
-                                                            { (yyval.integer_value) = (yyvsp[0].integer_value); }
+                                                            { (yyval.integer_value) = (yyvsp[0].integer_value) < 0 ? INT64_MAX : (yyvsp[0].integer_value); }
 #line 1571 "y.tab.c"
     break;
 
   case 20: /* integer: EVENT_MINUS EVENT_INTEGER  */
 #line 133 "/repo/src/event_parser.y"
-                                                            { (yyval.integer_value) = - (yyvsp[0].integer_value); }
+                                                            { (yyval.integer_value) = (yyvsp[0].integer_value) < 0 ? INT64_MIN : - (yyvsp[0].integer_value); }
 #line 1577 "y.tab.c"
     break;
 
diff --git a/src/event_parser.y b/src/event_parser.y
index f8411fa..d6b8861 100644
--- a/src/event_parser.y
+++ b/src/event_parser.y
@@ -129,8 +129,8 @@ boolean             : EVENT_TRUE                            { $$ = true; }
                     | EVENT_FALSE                           { $$ = false; }
 ;                       
 
-integer             : EVENT_INTEGER                         { $$ = $1; }
-                    | EVENT_MINUS EVENT_INTEGER             { $$ = - $2; }
+integer             : EVENT_INTEGER                         { $$ = $1 < 0 ? INT64_MAX : $1; }
+                    | EVENT_MINUS EVENT_INTEGER             { $$ = $2 < 0 ? INT64_MIN : - $2; }
 ;                       
 
 float               : EVENT_FLOAT                           { $$ = $1; }
diff --git a/src/lexer.c b/src/lexer.c
index 89fcbf9..e24ea4e 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -759,7 +759,7 @@ static const flex_int16_t yy_chk[240] =
         yylval->string[yyleng - 2] = 0;\
     }
     #define SAVE_IDENTIFIER yylval->string = bstrdup(yytext)
-    #define SAVE_INTEGER yylval->integer_value = strtoll(yytext, NULL, 10)
+    #define SAVE_INTEGER yylval->integer_value = (int64_t)strtoull(yytext, NULL, 10) /* negative past INT64_MAX */
     #define SAVE_FLOAT yylval->float_value = atof(yytext)
     #define TOKEN(t) (yylval->token = t)
     #define YYSTYPE XXSTYPE
diff --git a/src/lexer.l b/src/lexer.l
index d3efbc4..7bce9db 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -9,7 +9,7 @@
         yylval->string[yyleng - 2] = 0;\
     }
     #define SAVE_IDENTIFIER yylval->string = bstrdup(yytext)
-    #define SAVE_INTEGER yylval->integer_value = strtoll(yytext, NULL, 10)
+    #define SAVE_INTEGER yylval->integer_value = (int64_t)strtoull(yytext, NULL, 10) /* negative past INT64_MAX */
     #define SAVE_FLOAT yylval->float_value = atof(yytext)
     #define TOKEN(t) (yylval->token = t)
     #define YYSTYPE XXSTYPE
diff --git a/src/parser.c b/src/parser.c
index 9800c31..0703a2b 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1615,13 +1615,13 @@ yyreduce:
 
   case 4:
 #line 111 "src/parser.y" /* yacc.c:1646  */
-    { (yyval.integer_value) = (yyvsp[0].integer_value); }
+    { (yyval.integer_value) = (yyvsp[0].integer_value) < 0 ? INT64_MAX : (yyvsp[0].integer_value); }
 #line 1620 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 5:
 #line 112 "src/parser.y" /* yacc.c:1646  */
-    { (yyval.integer_value) = - (yyvsp[0].integer_value); }
+    { (yyval.integer_value) = (yyvsp[0].integer_value) < 0 ? INT64_MIN : - (yyvsp[0].integer_value); }
 #line 1626 "src/parser.c" /* yacc.c:1646  */
     break;
 
diff --git a/src/parser.y b/src/parser.y
index 3bba9bb..dd15a34 100644
--- a/src/parser.y
+++ b/src/parser.y
@@ -108,8 +108,8 @@ program             : expr                                  { *root = $1; }
 
 ident               : TIDENTIFIER                           { $$ = $1; }
 
-integer             : TINTEGER                              { $$ = $1; }
-                    | TMINUS TINTEGER                       { $$ = - $2; }
+integer             : TINTEGER                              { $$ = $1 < 0 ? INT64_MAX : $1; }
+                    | TMINUS TINTEGER                       { $$ = $2 < 0 ? INT64_MIN : - $2; }
 ;
 
 float               : TFLOAT                                { $$ = $1; }
-- 
2.43.0


From 66e6b31c6be17fab4a252e12c1213791af48869b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:42 +0000
Subject: [PATCH 48/48] fix: give prepared expressions their identities when
 they are inserted

A prepared expression kept the predicate ids it was given at preparation.
When the tree was emptied before it was inserted, the same ids were given
out again to other expressions, which then shared its remembered results.
---
 src/betree.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/betree.c b/src/betree.c
index 3f2695f..17e47b9 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -548,13 +548,14 @@ const struct betree_sub* betree_make_sub(struct betree* tree, betree_sub_t id, s
     assign_ienum_id(tree->config, node, true);
     sort_lists(node);
     change_boundaries(tree->config, node);
-    assign_pred_id(tree->config, node);
     struct betree_sub* sub = make_sub(tree->config, id, node);
     return sub;
 }
 
 bool betree_insert_sub(struct betree* tree, const struct betree_sub* sub)
 {
+    // Not before, the tree could be emptied in between and gives out the same ids again
+    assign_pred_id(tree->config, (struct ast_node*)sub->expr);
     return insert_be_tree(tree->config, sub, tree->cnode, NULL);
 }
 
-- 
2.43.0

