From 615addcc824d9d8a5afc5a82ba95a5275137eaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:16 +0000
Subject: [PATCH 01/11] fix: characteristic length must not depend on the
 position of the element

The bounding-box maxima started at zero, so an element lying entirely in
negative coordinates got a box extent measured from the origin.
---
 src/nimble_element.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_element.cc b/src/nimble_element.cc
index 009ec5d..0067344 100644
--- a/src/nimble_element.cc
+++ b/src/nimble_element.cc
@@ -227,7 +227,7 @@ HexElement::ComputeCharacteristicLength(const double* node_coords)
   double characteristic_length, distance_squared, min_distance_squared, nx, ny, nz, mx, my, mz;
   double x_min, x_max, y_min, y_max, z_min, z_max;
 
-  x_max = y_max = z_max = 0.0;
+  x_max = y_max = z_max = std::numeric_limits<double>::lowest();
   min_distance_squared = x_min = y_min = z_min = std::numeric_limits<double>::max();
 
   for (int n = 0; n < num_nodes_; n++) {
-- 
2.43.0


From 05c2cee4dd4bec2bcc6f95a418733cd05783adf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:41 +0000
Subject: [PATCH 02/11] fix: logical not in expressions reads past its operand

sub(const char*, unsigned) takes a length, so the operand of ! included the
character behind the expression and never parsed.
---
 src/nimble_expression_parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_expression_parser.h b/src/nimble_expression_parser.h
index 02b4274..b431b2d 100644
--- a/src/nimble_expression_parser.h
+++ b/src/nimble_expression_parser.h
@@ -654,7 +654,7 @@ class EquationContext
       return mem.New<GenericAnd<bool, bool, bool>>(
           ParseBooleanExpression(r.sub(r.first, r.pos)), ParseBooleanExpression(r.sub(r.pos + 1, r.length)));
 
-    if (r << '!') return mem.New<GenericNot<bool, bool>>(ParseBooleanExpression(r.sub(r.first + 1, r.length)));
+    if (r << '!') return mem.New<GenericNot<bool, bool>>(ParseBooleanExpression(r.sub(1, r.length)));
 
     if (r << '>') {
       if (r.first[r.pos + 1] == '=')
-- 
2.43.0


From 73054394cb970ebfec6fd04f2b477a4827b79b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:41 +0000
Subject: [PATCH 03/11] fix: blanks inside parentheses are rejected in
 expressions

---
 src/nimble_expression_parser.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/nimble_expression_parser.cc b/src/nimble_expression_parser.cc
index 14e65fb..57762c5 100644
--- a/src/nimble_expression_parser.cc
+++ b/src/nimble_expression_parser.cc
@@ -165,9 +165,14 @@ ExpressionParsing::RemoveRedundantParenthesis(ExpressionParsing::Reader& text)
 void
 ExpressionParsing::ApplyNecessaryFormatting(ExpressionParsing::Reader& text)
 {
-  if (text.IsEmpty()) return;
-  RemoveWhitespace(text);
-  RemoveRedundantParenthesis(text);
+  // Removing parentheses may expose whitespace, and removing whitespace may expose parentheses
+  unsigned int previous_length;
+  do {
+    if (text.IsEmpty()) return;
+    previous_length = text.length;
+    RemoveWhitespace(text);
+    RemoveRedundantParenthesis(text);
+  } while (text.length != previous_length);
 }
 
 ExpressionParsing::RealValuedExpression*
-- 
2.43.0


From 3adeda40c7e5c5b15d6208f0b6582664cf860688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:56 +0000
Subject: [PATCH 04/11] fix: sums with signs and exponents are split at the
 wrong place

Only the last minus sign was considered as the binary operator: when it was a
sign or belonged to an exponent (2-t*1e-3, 1-2*-3), the expression was split at
an operator of higher precedence instead and evaluated wrongly, and 1e+3*t was
rejected.
---
 src/nimble_expression_parser.h | 41 +++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/nimble_expression_parser.h b/src/nimble_expression_parser.h
index b431b2d..bcddad3 100644
--- a/src/nimble_expression_parser.h
+++ b/src/nimble_expression_parser.h
@@ -455,6 +455,30 @@ struct Reader
     return false;
   }
 
+  // Finds the last binary occurrence of c ('+' or '-') outside of parentheses, skipping
+  // signs ("2 * -x") and the exponents of numbers ("1e-3")
+  bool
+  FindLastBinary(char c)
+  {
+    const char* f = first;
+    pos           = length;
+    while (pos > 0) {
+      pos--;
+      if (f[pos] == ')') {
+        if (Prev('(', ')') != 0) return false;
+        continue;
+      }
+      if (f[pos] != c) continue;
+      unsigned int end = pos;  // one past the last character of the left operand
+      while (end > 0 && f[end - 1] == ' ') end--;
+      if (end == 0 || std::strchr("+-*/%^=<>~", f[end - 1])) continue;
+      bool is_exponent = end == pos && end > 1 && f[end - 1] == 'e' &&
+                         ((f[end - 2] >= '0' && f[end - 2] <= '9') || f[end - 2] == '.');
+      if (!is_exponent) return true;
+    }
+    return false;
+  }
+
   bool
   operator==(std::string& s)
   {
@@ -598,21 +622,12 @@ class EquationContext
     if (r << '%')
       return mem.New<DoubleMod>(ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
 
-    if (r << '+')
+    // We need to ensure that we found a binary operator and not a sign
+    if (r.FindLastBinary('+'))
       return mem.New<DoubleAdd>(ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
 
-    if (r << '-') {
-      // We need to ensure that we found a minus sign and not a value negation
-      while (r.pos > 0 && (r.first[r.pos] == '-' || r.first[r.pos] == ' ')) r.pos--;
-      if (r.pos > 0 || r.first[r.pos] != '-') {
-        char c = r.first[r.pos];
-        if (c != '*' && c != '/' && c != '^' && c != 'e' && c != '=' && c != '<' && c != '~' && c != '>') {
-          while (r.first[r.pos] != '-') r.pos++;  // Moves it back to the last minus sign
-          return mem.New<DoubleSubtract>(
-              ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
-        }
-      }
-    }
+    if (r.FindLastBinary('-'))
+      return mem.New<DoubleSubtract>(ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
 
     if (r << '*')
       return mem.New<DoubleMultiply>(ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
-- 
2.43.0


From 7fbcf535c648ab720f7224f90001e6fce03a56ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:11 +0000
Subject: [PATCH 05/11] fix: explicit integrator applies the initial kinematic
 conditions at the initial time

---
 src/integrators/explicit_time_integrator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/integrators/explicit_time_integrator.cc b/src/integrators/explicit_time_integrator.cc
index c3bfa32..496cbe2 100644
--- a/src/integrators/explicit_time_integrator.cc
+++ b/src/integrators/explicit_time_integrator.cc
@@ -144,7 +144,7 @@ ExplicitTimeIntegrator::Integrate()
 
   watch_simulation.push_region("BC enforcement");
   model_data.ApplyInitialConditions(data_manager);
-  model_data.ApplyKinematicConditions(data_manager, 0.0, 0.0);
+  model_data.ApplyKinematicConditions(data_manager, time_current, time_previous);
   watch_simulation.pop_region_and_report_time();
 
   data_manager.WriteOutput(time_current);
-- 
2.43.0


From e559b543e2a58c58e813f9b981f49f1d70a14310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:39 +0000
Subject: [PATCH 06/11] fix: vector node data are viewed with the dimension
 they are stored with

---
 src/nimble_model_data.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nimble_model_data.cc b/src/nimble_model_data.cc
index 24a8210..7d7ab68 100644
--- a/src/nimble_model_data.cc
+++ b/src/nimble_model_data.cc
@@ -541,8 +541,8 @@ nimble::Viewify<2>
 ModelData::GetVectorNodeData(int field_id)
 {
   auto& field_vector = node_data_.at(field_id);
-  auto  isize        = static_cast<int>(field_vector.size()) / 3;
-  return {field_vector.data(), {isize, 3}, {3, 1}};
+  auto  isize        = static_cast<int>(field_vector.size()) / dim_;
+  return {field_vector.data(), {isize, dim_}, {dim_, 1}};
 }
 
 void
-- 
2.43.0


From 5ac40b682c5a08c78a57a2cff8fd58b02483e6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:39 +0000
Subject: [PATCH 07/11] fix: component labels of a full tensor in two
 dimensions are distinct

---
 src/nimble_data_utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_data_utils.cc b/src/nimble_data_utils.cc
index 79fa156..f19fa04 100644
--- a/src/nimble_data_utils.cc
+++ b/src/nimble_data_utils.cc
@@ -183,7 +183,7 @@ GetComponentLabels(std::string label, Length length, int dim)
       labels.push_back(label + "_xx");
       labels.push_back(label + "_yy");
       labels.push_back(label + "_xy");
-      labels.push_back(label + "_xy");
+      labels.push_back(label + "_yx");
     } else if (dim == 3) {
       labels.push_back(label + "_xx");
       labels.push_back(label + "_yy");
-- 
2.43.0


From 95dc9b8c3fb1afe816495d9ce9227cbbc1ef2e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:39 +0000
Subject: [PATCH 08/11] fix: state variables start from the material's initial
 value

---
 src/nimble_block.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_block.cc b/src/nimble_block.cc
index 3b2dff4..69ee7b2 100644
--- a/src/nimble_block.cc
+++ b/src/nimble_block.cc
@@ -179,7 +179,7 @@ Block::InitializeElementData(
     std::string ipt_label = RemoveIntegrationPointPrefix(label);
 
     double initial_value = 0.0;
-    auto   it            = state_variable_initial_values.find(label);
+    auto   it            = state_variable_initial_values.find(ipt_label);
     if (it != state_variable_initial_values.end()) { initial_value = it->second; }
 
     for (int i_elem = 0; i_elem < num_elem_in_block; ++i_elem) {
-- 
2.43.0


From 2a76e8dcd528ed61e9d5f7d17abfd3ab5ac40580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:12 +0000
Subject: [PATCH 09/11] fix: the quasistatic residual norm covers every unknown

---
 src/integrators/quasistatic_time_integrator.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/integrators/quasistatic_time_integrator.cc b/src/integrators/quasistatic_time_integrator.cc
index 2435a45..b59fb70 100644
--- a/src/integrators/quasistatic_time_integrator.cc
+++ b/src/integrators/quasistatic_time_integrator.cc
@@ -95,11 +95,13 @@ ComputeQuasistaticResidual(
   }
   bc.ModifyRHSForKinematicBC(linear_system_global_node_ids.data(), residual_vector);
 
-  double l2_norm = InnerProduct(num_nodes, residual_vector, residual_vector);
+  double l2_norm = InnerProduct(linear_system_num_unknowns, residual_vector, residual_vector);
   l2_norm        = sqrt(l2_norm);
 
   double infinity_norm(0.0);
-  for (int i = 0; i < num_nodes; i++) { infinity_norm = std::max(infinity_norm, std::abs(residual_vector[i])); }
+  for (int i = 0; i < linear_system_num_unknowns; i++) {
+    infinity_norm = std::max(infinity_norm, std::abs(residual_vector[i]));
+  }
 #ifdef NIMBLE_HAVE_MPI
   double restmp = infinity_norm;
   MPI_Allreduce(&restmp, &infinity_norm, 1, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
-- 
2.43.0


From 11d7fcb168eeee3b48f23ed45ad195c3eb79b9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:06 +0000
Subject: [PATCH 10/11] fix: the element data of a quasistatic step belong to
 the accepted displacement

---
 src/integrators/quasistatic_time_integrator.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/integrators/quasistatic_time_integrator.cc b/src/integrators/quasistatic_time_integrator.cc
index b59fb70..0f15287 100644
--- a/src/integrators/quasistatic_time_integrator.cc
+++ b/src/integrators/quasistatic_time_integrator.cc
@@ -383,10 +383,20 @@ QuasistaticTimeIntegrator::Integrate()
 
       // if the alpha = 1.0 result was better, use alpha = 1.0
       if (trial_residual < residual) {
-        residual = trial_residual;
         displacement.copy(trial_displacement);
-        internal_force.copy(trial_internal_force);
-        for (int i = 0; i < linear_system_num_unknowns; i++) { residual_vector[i] = trial_residual_vector[i]; }
+        // evaluate this displacement again so that the element data belong to it
+        residual = ComputeQuasistaticResidual(
+            mesh,
+            data_manager,
+            bc,
+            linear_system_num_unknowns,
+            linear_system_global_node_ids,
+            time_previous,
+            time_current,
+            displacement,
+            internal_force,
+            residual_vector.data(),
+            is_output_step);
       }
 
       iteration += 1;
-- 
2.43.0


From 949b1acd3d2eb330026f89935971fd61e5124082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:06 +0000
Subject: [PATCH 11/11] fix: a quasistatic step fails exactly if it has not
 converged

---
 src/integrators/quasistatic_time_integrator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/integrators/quasistatic_time_integrator.cc b/src/integrators/quasistatic_time_integrator.cc
index 0f15287..373ab99 100644
--- a/src/integrators/quasistatic_time_integrator.cc
+++ b/src/integrators/quasistatic_time_integrator.cc
@@ -408,7 +408,7 @@ QuasistaticTimeIntegrator::Integrate()
 
     }  // while (residual > convergence_tolerance ... )
 
-    if (iteration == max_nonlinear_iterations) {
+    if (!(residual <= convergence_tolerance)) {
       if (my_rank == 0) {
         std::cout << "\n**** Nonlinear solver failed to converge!\n" << std::endl;
         std::cout << "**** Relevant input deck parameters for the nonlinear solver:" << std::endl;
-- 
2.43.0

