From c6c50d98b252040af697dfee9c7d0f85d578bd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:14 +0000
Subject: [PATCH 01/42] fix: make generated code and warnings independent of
 memory layout

Declarations that share a source location (implicit constructors, template
instantiations) were ordered by pointer-keyed hash tables, so repeated runs on
the same header emitted different code.
---
 src/decl_context_graph_processing.cpp | 23 +++++++++++++++++++++--
 src/expose.cpp                        |  5 ++++-
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/decl_context_graph_processing.cpp b/src/decl_context_graph_processing.cpp
index fb48b58..43e3312 100644
--- a/src/decl_context_graph_processing.cpp
+++ b/src/decl_context_graph_processing.cpp
@@ -369,7 +369,14 @@ void genpybind::reportUnreachableVisibleDeclContexts(
     unreachable_decls.push_back(decl);
   }
 
-  llvm::sort(unreachable_decls, IsBeforeInTranslationUnit(source_manager));
+  IsBeforeInTranslationUnit is_before(source_manager);
+  llvm::sort(unreachable_decls,
+             [&](const clang::Decl *lhs, const clang::Decl *rhs) {
+               if (is_before(lhs, rhs) || is_before(rhs, lhs))
+                 return is_before(lhs, rhs);
+               // Different instantiations of a template share the same location.
+               return getNameForDisplay(lhs) < getNameForDisplay(rhs);
+             });
   for (const auto *decl : unreachable_decls)
     Diagnostics::report(decl, Diagnostics::Kind::UnreachableDeclContextWarning)
         << getNameForDisplay(decl);
@@ -472,12 +479,24 @@ genpybind::declContextsSortedByDependencies(
 
   IsBeforeInTranslationUnit is_before(source_manager);
 
+  // Several nodes can share the same source location (e.g., instantiations of
+  // the same template).  Fall back to the order in which the nodes are reached
+  // from the root in this case, since the order of `llvm::nodes(&graph)` is not
+  // deterministic.
+  llvm::DenseMap<const DeclContextNode *, unsigned> visited_order(graph.size());
+  for (const DeclContextNode *node : llvm::depth_first(&graph))
+    visited_order.try_emplace(node, visited_order.size());
+
   auto nodes = lexicographicalTopologicalSort(
       &graph, find_predecessors,
       [&](const DeclContextNode *lhs, const DeclContextNode *rhs) {
         // Note: Larger elements are sorted earlier, thus the arguments are
         // swapped here.
-        return is_before(rhs->getDecl(), lhs->getDecl());
+        if (is_before(rhs->getDecl(), lhs->getDecl()))
+          return true;
+        if (is_before(lhs->getDecl(), rhs->getDecl()))
+          return false;
+        return visited_order.lookup(rhs) < visited_order.lookup(lhs);
       });
 
   bool cycle_detected = nodes.size() != graph.size();
diff --git a/src/expose.cpp b/src/expose.cpp
index 022342f..91ed616 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -809,7 +809,10 @@ void TranslationUnitExposer::emitModule(
     std::vector<const clang::NamedDecl *> decls =
         collectVisibleDeclsFromDeclContext(sema, item.decl_context,
                                            item.exposer->inliningPolicy());
-    llvm::sort(decls, IsBeforeInTranslationUnit(sema.getSourceManager()));
+    // Preserve the lookup order of decls that share a location, e.g., implicit
+    // constructors.
+    llvm::stable_sort(decls,
+                      IsBeforeInTranslationUnit(sema.getSourceManager()));
 
     // Inject operators from a record's associated namespace (found via ADL),
     // as these need to be exposed as methods of the record.  Only user-defined
-- 
2.43.0


From e3cc957279702ef62b5c3b4f16c08ab17d73e473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:37 +0000
Subject: [PATCH 02/42] fix: ensure discriminated context identifiers are
 unique

`ns::X`, `ns_X` and `ns_X_2` were mapped to colliding identifiers.
---
 src/expose.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index 91ed616..bc434ad 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -44,6 +44,7 @@
 #include <llvm/ADT/SmallVector.h>
 #include <llvm/ADT/StringExtras.h>
 #include <llvm/ADT/StringMap.h>
+#include <llvm/ADT/StringSet.h>
 #include <llvm/ADT/iterator.h>
 #include <llvm/Support/Casting.h>
 #include <llvm/Support/ErrorHandling.h>
@@ -63,14 +64,19 @@ namespace {
 
 class DiscriminateIdentifiers {
   llvm::StringMap<unsigned> discriminators;
+  llvm::StringSet<> used_identifiers;
 
 public:
   std::string discriminate(llvm::StringRef name) {
     auto it = discriminators.try_emplace(name, 0).first;
-    const unsigned discriminator = ++it->getValue();
-    std::string result{name};
-    if (discriminator != 1)
-      result += "_" + llvm::utostr(discriminator);
+    std::string result;
+    // The discriminated name could already be in use by an unrelated entity.
+    do {
+      const unsigned discriminator = ++it->getValue();
+      result = name.str();
+      if (discriminator != 1)
+        result += "_" + llvm::utostr(discriminator);
+    } while (!used_identifiers.insert(result).second);
     return result;
   }
 };
-- 
2.43.0


From f6205739eea2ad084650720a566e59650df4ff76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:37 +0000
Subject: [PATCH 03/42] fix: do not crash on shift operators of unnamed records

---
 src/expose.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index bc434ad..f85f36e 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -625,7 +625,9 @@ static bool isOstreamOperator(const clang::FunctionDecl *function) {
   assert(function->getNumParams() >= 1);
   if (const clang::CXXRecordDecl *record =
           function->getParamDecl(0)->getType()->getPointeeCXXRecordDecl()) {
-    if (!record->getIdentifier()->isStr("basic_ostream"))
+    // Unnamed records have no identifier.
+    const clang::IdentifierInfo *identifier = record->getIdentifier();
+    if (identifier == nullptr || !identifier->isStr("basic_ostream"))
       return false;
     clang::ast_matchers::internal::HasNameMatcher matcher(
         {"::std::basic_ostream"});
-- 
2.43.0


From 29a9776b93090839e7f98012768f4eba12ac5523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:37 +0000
Subject: [PATCH 04/42] fix: compute keep_alive indices of static member
 functions without `this`

---
 src/annotated_decl.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/annotated_decl.cpp b/src/annotated_decl.cpp
index 66583bd..fec2b43 100644
--- a/src/annotated_decl.cpp
+++ b/src/annotated_decl.cpp
@@ -627,8 +627,10 @@ bool genpybind::processAnnotation(const clang::NamedDecl *decl,
     return dispatch
         .binary(LiteralValue::Kind::String,
                 [&](const LiteralValue &first, const LiteralValue &second) {
+                  const auto *method =
+                      llvm::dyn_cast<clang::CXXMethodDecl>(function_decl);
                   auto lookup = make_parameter_indices_lookup(
-                      true, llvm::isa<clang::CXXMethodDecl>(function_decl));
+                      true, method != nullptr && !method->isStatic());
                   auto first_idx = lookup(first.getString());
                   auto second_idx = lookup(second.getString());
                   if (!first_idx.has_value()) {
-- 
2.43.0


From ee3d0b041b1d4f53e07a7f2feddd5f182f0607b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:37 +0000
Subject: [PATCH 05/42] fix: apply noconvert/required to parameters that follow
 pybind11::args

---
 src/expose.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/expose.cpp b/src/expose.cpp
index f85f36e..963001d 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -345,8 +345,10 @@ static void emitParameters(llvm::raw_ostream &os,
     if (llvm::StringRef kind = getPybind11ArgsType(param->getType());
         kind == "kwargs") {
       last_kwargs_param = param;
+      ++index;
       continue;
     } else if (!kind.empty()) {
+      ++index;
       continue;
     }
     if (last_kwargs_param != nullptr) {
-- 
2.43.0


From f67f1bfe0b8e095974d717ddb307d74f4b0e0d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:37 +0000
Subject: [PATCH 06/42] fix: do not expose operators without Python equivalent
 under an empty name

---
 src/expose.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index 963001d..2917b4b 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -1185,10 +1185,15 @@ void RecordExposer::emitOperator(llvm::raw_ostream &os,
       lhs_param_type = lhs_param_type->getPointeeType();
     return !ast_context.hasSameUnqualifiedType(lhs_param_type, record_type);
   }();
+  llvm::StringRef name =
+      unary ? pythonUnaryOperatorName(kind)
+            : pythonBinaryOperatorName(kind, reverse_parameters);
+  // There is no corresponding special method, e.g., for `!` or in-place
+  // operators that do not modify the record itself.
+  if (name.empty())
+    return;
   os << "context.def(";
-  emitStringLiteral(os,
-                    unary ? pythonUnaryOperatorName(kind)
-                          : pythonBinaryOperatorName(kind, reverse_parameters));
+  emitStringLiteral(os, name);
   os << ", ";
   emitOperatorDefinition(os, ast_context, kind, parameter_types,
                          function->getReturnType(), reverse_parameters);
-- 
2.43.0


From a82becf23c6cfff9a6a55667da82496ce4d8ae3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:37 +0000
Subject: [PATCH 07/42] fix: derive a valid C++ standard if a C standard was
 requested

---
 src/tool.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tool.cpp b/src/tool.cpp
index 9967562..843517e 100644
--- a/src/tool.cpp
+++ b/src/tool.cpp
@@ -407,7 +407,8 @@ clang::tooling::ArgumentsAdjuster getCpp17OrLaterAdjuster() {
       if (arg.consume_front("-std=")) {
         // HACK: Simplistic check to also allow, e.g., gnu++2a.
         auto parts = arg.split("++");
-        language_standard_prefix = parts.first;
+        // Also used for C standards, e.g., "c11" or "gnu11".
+        language_standard_prefix = arg.starts_with("gnu") ? "gnu" : "c";
         uses_later_standard = parts.second.starts_with("2");
         if (!uses_later_standard)
           continue;
-- 
2.43.0


From 2ebdfceb2ca58ac3a4854a0b4d163f620b1a9c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:37 +0000
Subject: [PATCH 08/42] fix: leave moved-from literal values in a valid state

---
 src/annotations/literal_value.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/annotations/literal_value.cpp b/src/annotations/literal_value.cpp
index dbb8a98..3f1ee09 100644
--- a/src/annotations/literal_value.cpp
+++ b/src/annotations/literal_value.cpp
@@ -88,6 +88,8 @@ LiteralValue &LiteralValue::operator=(LiteralValue &&other) noexcept {
       string = nullptr;
     }
     std::swap(string, other.string);
+    if (other.string == nullptr)
+      other.kind = Kind::Nothing;
   } else {
     *this = other;
   }
-- 
2.43.0


From 167ce1fe183e47f99d939951b69df258a6c0591b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:59 +0000
Subject: [PATCH 09/42] fix: also take --std=<standard> into account when
 enforcing C++17

---
 src/tool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool.cpp b/src/tool.cpp
index 843517e..dd00ebe 100644
--- a/src/tool.cpp
+++ b/src/tool.cpp
@@ -404,7 +404,7 @@ clang::tooling::ArgumentsAdjuster getCpp17OrLaterAdjuster() {
 
       // Skip language standard argument, if less than 2x.
       // TODO: Take into account future changes to compiler's default values.
-      if (arg.consume_front("-std=")) {
+      if (arg.consume_front("-std=") || arg.consume_front("--std=")) {
         // HACK: Simplistic check to also allow, e.g., gnu++2a.
         auto parts = arg.split("++");
         // Also used for C standards, e.g., "c11" or "gnu11".
-- 
2.43.0


From 1fc0d258981d12d910b64bf20b2404d2d12d4cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:59 +0000
Subject: [PATCH 10/42] fix: do not expose unnamed types, as generated code
 cannot refer to them

---
 include/genpybind/lookup_context_collector.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/genpybind/lookup_context_collector.h b/include/genpybind/lookup_context_collector.h
index 468620a..9ff51b2 100644
--- a/include/genpybind/lookup_context_collector.h
+++ b/include/genpybind/lookup_context_collector.h
@@ -122,7 +122,9 @@ public:
   }
 
   bool VisitTagDecl(const clang::TagDecl *decl) {
-    if (shouldSkip(decl))
+    // Unnamed types (e.g., anonymous unions) cannot be referred to in the
+    // generated code.
+    if (shouldSkip(decl) || !decl->hasNameForLinkage())
       return true;
     lookup_contexts.push_back(decl);
     return true;
-- 
2.43.0


From 6d8b807573f5ef68175ea0e9da9719e7d7990c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:59 +0000
Subject: [PATCH 11/42] fix: honor default arguments of property accessors

---
 include/genpybind/expose.h |  2 ++
 src/expose.cpp             | 31 +++++++++++++++++++++++++++++--
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/include/genpybind/expose.h b/include/genpybind/expose.h
index 5bc93cf..54e681c 100644
--- a/include/genpybind/expose.h
+++ b/include/genpybind/expose.h
@@ -133,6 +133,8 @@ public:
 
 private:
   void emitProperties(llvm::raw_ostream &os);
+  void emitAccessor(llvm::raw_ostream &os, const clang::CXXMethodDecl *method,
+                    unsigned num_arguments);
   void emitOperator(llvm::raw_ostream &os, const clang::FunctionDecl *function);
   static void emitOperatorDefinition(
       llvm::raw_ostream &os, const clang::ASTContext &ast_context,
diff --git a/src/expose.cpp b/src/expose.cpp
index 2917b4b..d71fd27 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -1109,15 +1109,42 @@ void RecordExposer::emitProperties(llvm::raw_ostream &os) {
                     : "context.def_property_readonly(");
     emitStringLiteral(os, name);
     os << ", ";
-    emitFunctionPointer(os, property.getter);
+    emitAccessor(os, property.getter, /*num_arguments=*/0);
     if (writable) {
       os << ", ";
-      emitFunctionPointer(os, property.setter);
+      emitAccessor(os, property.setter, /*num_arguments=*/1);
     }
     os << ");\n";
   }
 }
 
+void RecordExposer::emitAccessor(llvm::raw_ostream &os,
+                                 const clang::CXXMethodDecl *method,
+                                 unsigned num_arguments) {
+  if (method->getNumParams() == num_arguments) {
+    emitFunctionPointer(os, method);
+    return;
+  }
+
+  // pybind11 does not take default arguments into account when it calls an
+  // accessor, so the trailing parameters have to be omitted via a wrapper.
+  const clang::ASTContext &context = method->getASTContext();
+  auto policy = getPrintingPolicyForExposedNames(context);
+  os << "[](" << (method->isConst() ? "const " : "")
+     << getFullyQualifiedName(record_decl) << " &self";
+  if (num_arguments != 0) {
+    os << ", "
+       << clang::TypeName::getFullyQualifiedName(
+              method->getParamDecl(0)->getOriginalType(), context, policy,
+              /*WithGlobalNsPrefix=*/true)
+       << " value";
+  }
+  os << ") -> decltype(auto) { return self.::";
+  method->printQualifiedName(os, policy);
+  os << (num_arguments != 0 ? "(static_cast<decltype(value) &&>(value))" : "()")
+     << "; }";
+}
+
 void RecordExposer::emitOperator(llvm::raw_ostream &os,
                                  const clang::FunctionDecl *function) {
   const clang::ASTContext &ast_context = record_decl->getASTContext();
-- 
2.43.0


From b590ebc948cec23fb14bb750b6c935ca08001c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:14 +0000
Subject: [PATCH 12/42] fix: allow literal values to be set from their own
 content

---
 src/annotations/literal_value.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/annotations/literal_value.cpp b/src/annotations/literal_value.cpp
index 3f1ee09..61c8152 100644
--- a/src/annotations/literal_value.cpp
+++ b/src/annotations/literal_value.cpp
@@ -104,9 +104,11 @@ void LiteralValue::setNothing() {
 }
 
 void LiteralValue::setString(llvm::StringRef value) {
+  // `value` could refer to the current content, so copy it first.
+  auto *copy = new std::string(value);
   setNothing();
   kind = Kind::String;
-  string = new std::string(value);
+  string = copy;
 }
 
 void LiteralValue::setUnsigned(unsigned value) {
-- 
2.43.0


From fc7449d72898a6f4baba4ec7211eba956bc2ecc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:17 +0000
Subject: [PATCH 13/42] fix: export values of unscoped enums that inherit their
 visibility

---
 src/expose.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index d71fd27..5d9edbf 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -1029,11 +1029,10 @@ void EnumExposer::emitIntroducer(llvm::raw_ostream &os,
 }
 
 void EnumExposer::finalizeDefinition(llvm::raw_ostream &os) {
-  if (const auto attrs = annotations.get<EnumDeclAttrs>(enum_decl);
-      attrs.has_value() &&
-      attrs->export_values.value_or(!enum_decl->isScoped())) {
+  // There are no attributes if the enum only inherits its visibility.
+  const auto attrs = annotations.lookup<EnumDeclAttrs>(enum_decl);
+  if (attrs.export_values.value_or(!enum_decl->isScoped()))
     os << "context.export_values();\n";
-  }
 }
 
 void EnumExposer::emitType(llvm::raw_ostream &os) {
-- 
2.43.0


From 708613f89bdb94afcf90ee39724376e1c4d34779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:35 +0000
Subject: [PATCH 14/42] fix: register bases of inlined base classes before the
 derived class

---
 .../genpybind/decl_context_graph_processing.h |  1 +
 src/decl_context_graph_processing.cpp         | 30 ++++++++++++-------
 src/expose.cpp                                |  2 +-
 3 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/include/genpybind/decl_context_graph_processing.h b/include/genpybind/decl_context_graph_processing.h
index 2296bf1..4b170f3 100644
--- a/include/genpybind/decl_context_graph_processing.h
+++ b/include/genpybind/decl_context_graph_processing.h
@@ -112,6 +112,7 @@ void reportUnreachableVisibleDeclContexts(
 /// `cycle` is set to one declaration context on this cycle.
 llvm::SmallVector<const clang::DeclContext *, 0>
 declContextsSortedByDependencies(const DeclContextGraph &graph,
+                                 const AnnotationStorage &annotations,
                                  const EnclosingScopeMap &parents,
                                  const clang::SourceManager &source_manager,
                                  const clang::DeclContext **cycle);
diff --git a/src/decl_context_graph_processing.cpp b/src/decl_context_graph_processing.cpp
index 43e3312..d430f5a 100644
--- a/src/decl_context_graph_processing.cpp
+++ b/src/decl_context_graph_processing.cpp
@@ -449,7 +449,8 @@ lexicographicalTopologicalSort(const GraphType &graph,
 
 llvm::SmallVector<const clang::DeclContext *, 0>
 genpybind::declContextsSortedByDependencies(
-    const DeclContextGraph &graph, const EnclosingScopeMap &parents,
+    const DeclContextGraph &graph, const AnnotationStorage &annotations,
+    const EnclosingScopeMap &parents,
     const clang::SourceManager &source_manager,
     const clang::DeclContext **cycle) {
   auto find_predecessors = [&](const DeclContextNode *node,
@@ -464,16 +465,25 @@ genpybind::declContextsSortedByDependencies(
     }
     // Add all exposed (i.e. part of graph) public bases as dependencies.
     if (const auto *decl = llvm::dyn_cast<clang::CXXRecordDecl>(decl_context)) {
-      for (const clang::CXXBaseSpecifier &base : decl->bases()) {
-        if (base.getAccessSpecifier() != clang::AS_public)
-          continue;
-        const clang::TagDecl *base_decl = base.getType()->getAsTagDecl();
-        if (const DeclContextNode *base_node =
-                graph.getNode(base_decl->getDefinition())) {
-          assert(base_node != nullptr && "base should be in graph");
-          add_predecessor(base_node);
+      const auto inlining_policy =
+          RecordInliningPolicy::createFromAnnotations(annotations, decl);
+      auto add_bases = [&](const clang::CXXRecordDecl *decl,
+                           auto &&recurse) -> void {
+        for (const clang::CXXBaseSpecifier &base : decl->bases()) {
+          if (base.getAccessSpecifier() != clang::AS_public)
+            continue;
+          const clang::TagDecl *base_decl =
+              base.getType()->getAsTagDecl()->getDefinition();
+          if (const DeclContextNode *base_node = graph.getNode(base_decl)) {
+            add_predecessor(base_node);
+          } else if (inlining_policy.shouldInline(base_decl)) {
+            // The bases of inlined bases take their place.
+            if (const auto *rd = llvm::dyn_cast<clang::CXXRecordDecl>(base_decl))
+              recurse(rd, recurse);
+          }
         }
-      }
+      };
+      add_bases(decl, add_bases);
     }
   };
 
diff --git a/src/expose.cpp b/src/expose.cpp
index 5d9edbf..720cc2a 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -660,7 +660,7 @@ void TranslationUnitExposer::emitModule(
 
   const clang::DeclContext *cycle = nullptr;
   const auto sorted_contexts = declContextsSortedByDependencies(
-      graph, parents, sema.getSourceManager(), &cycle);
+      graph, annotations, parents, sema.getSourceManager(), &cycle);
   if (cycle != nullptr) {
     // TODO: Report this before any other output, ideally pointing to the
     // typedef name decl for `expose_here` cycles.
-- 
2.43.0


From 10dfff480a174efdd84fa47033fca909405988e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:01 +0000
Subject: [PATCH 15/42] fix: do not let global types named root break the
 module definition

---
 src/expose.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index 720cc2a..18805fb 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -674,7 +674,9 @@ void TranslationUnitExposer::emitModule(
   // `nullptr` is used in the enclosing scope map to indicate the absence of an
   // enclosing scope (which should only happen for the TU / root node).
   // Consequently, treat `nullptr` as the module root.
-  context_identifiers[nullptr] = "root";
+  // A type of the same name in the global namespace would change the meaning of
+  // the module definition (`module_ &(<identifier>)`), so use a unique prefix.
+  context_identifiers[nullptr] = "genpybind_root";
 
   struct WorklistItem {
     const clang::DeclContext *decl_context;
@@ -747,7 +749,8 @@ void TranslationUnitExposer::emitModule(
   main_stream << '\n';
 
   // Emit module definition
-  main_stream << "PYBIND11_MODULE(" << module_name << ", root) {\n";
+  main_stream << "PYBIND11_MODULE(" << module_name << ", "
+              << context_identifiers[nullptr] << ") {\n";
 
   // Emit context introducers
   for (const auto &item : worklist) {
-- 
2.43.0


From a9cae15072c7c7cd388a6617796c33cc9e4c7312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:54 +0000
Subject: [PATCH 16/42] fix: keep namespaces whose only visible declarations
 are function templates

---
 src/decl_context_graph_processing.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/decl_context_graph_processing.cpp b/src/decl_context_graph_processing.cpp
index d430f5a..23b1763 100644
--- a/src/decl_context_graph_processing.cpp
+++ b/src/decl_context_graph_processing.cpp
@@ -11,6 +11,7 @@
 
 #include <clang/AST/Decl.h>
 #include <clang/AST/DeclCXX.h>
+#include <clang/AST/DeclTemplate.h>
 #include <clang/AST/Type.h>
 #include <clang/Basic/Diagnostic.h>
 #include <clang/Basic/Specifiers.h>
@@ -236,6 +237,12 @@ ConstDeclContextSet genpybind::declContextsWithVisibleNamedDecls(
       if (decl->isImplicit())
         return false;
 
+      // Annotations of function templates are stored for each specialization.
+      if (const auto *tpl = llvm::dyn_cast<clang::FunctionTemplateDecl>(decl);
+          tpl != nullptr && llvm::any_of(tpl->specializations(),
+                                         is_visible_given_default_visibility))
+        return true;
+
       return is_visible_given_default_visibility(decl);
     });
   };
-- 
2.43.0


From a8fa9b2e863f1d35cf7c273c53dcf936fce518b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:25 +0000
Subject: [PATCH 17/42] fix: print the type of braced default arguments only
 once

---
 src/expose.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/expose.cpp b/src/expose.cpp
index 18805fb..d57efad 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -48,6 +48,7 @@
 #include <llvm/ADT/iterator.h>
 #include <llvm/Support/Casting.h>
 #include <llvm/Support/ErrorHandling.h>
+#include <llvm/Support/SaveAndRestore.h>
 #include <llvm/Support/raw_ostream.h>
 
 #include <cassert>
@@ -179,6 +180,10 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
 
     if (const auto *cast = llvm::dyn_cast<clang::CXXFunctionalCastExpr>(expr)) {
       print_fully_qualified_name(cast->getType());
+      // The type of `Type{...}` has just been printed.
+      llvm::SaveAndRestore guard(within_braced_initializer,
+                                 within_braced_initializer ||
+                                     cast->isListInitialization());
       if (cast->getLParenLoc().isValid())
         os << '(';
       print_recursively(cast->getSubExpr());
@@ -190,6 +195,9 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
     if (const auto *temporary =
             llvm::dyn_cast<clang::CXXTemporaryObjectExpr>(expr)) {
       print_fully_qualified_name(temporary->getType());
+      llvm::SaveAndRestore guard(within_braced_initializer,
+                                 within_braced_initializer ||
+                                     temporary->isListInitialization());
 
       if (temporary->isStdInitListInitialization())
         /* do nothing; braces are printed by containing expression */;
-- 
2.43.0


From f80f79fabf9fbf7215485cd3165fe294e7d4490e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:11 +0000
Subject: [PATCH 18/42] fix: apply implicit conversions to default arguments

---
 src/expose.cpp | 48 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/src/expose.cpp b/src/expose.cpp
index d57efad..c89ca22 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -339,6 +339,45 @@ static llvm::StringRef getPybind11ArgsType(clang::QualType parameter_type) {
   return record->getName();
 }
 
+/// Whether a default argument only gets the type of its parameter by an implicit
+/// conversion that is not replicated when it is converted to Python and back.
+static bool defaultArgumentNeedsConversion(const clang::Expr *expr) {
+  for (;;) {
+    if (const auto *full = llvm::dyn_cast<clang::FullExpr>(expr)) {
+      expr = full->getSubExpr();
+    } else if (const auto *temporary =
+                   llvm::dyn_cast<clang::MaterializeTemporaryExpr>(expr)) {
+      expr = temporary->getSubExpr();
+    } else if (const auto *bind =
+                   llvm::dyn_cast<clang::CXXBindTemporaryExpr>(expr)) {
+      expr = bind->getSubExpr();
+    } else if (const auto *construct =
+                   llvm::dyn_cast<clang::CXXConstructExpr>(expr)) {
+      return !llvm::isa<clang::CXXTemporaryObjectExpr>(construct) &&
+             !construct->isListInitialization() &&
+             !construct->getConstructor()->isCopyOrMoveConstructor();
+    } else if (const auto *cast =
+                   llvm::dyn_cast<clang::ImplicitCastExpr>(expr)) {
+      switch (cast->getCastKind()) {
+      case clang::CK_ConstructorConversion:
+      case clang::CK_UserDefinedConversion:
+      case clang::CK_IntegralCast:
+      case clang::CK_IntegralToFloating:
+      case clang::CK_IntegralToBoolean:
+      case clang::CK_FloatingToIntegral:
+      case clang::CK_FloatingToBoolean:
+      case clang::CK_PointerToBoolean:
+      case clang::CK_NullToPointer:
+        return true;
+      default:
+        expr = cast->getSubExpr();
+      }
+    } else {
+      return false;
+    }
+  }
+}
+
 static void emitParameters(llvm::raw_ostream &os,
                            const clang::FunctionDecl *function,
                            const FunctionDeclAttrs &attrs) {
@@ -373,8 +412,17 @@ static void emitParameters(llvm::raw_ostream &os,
       os << ".none(false)";
     if (const clang::Expr *expr = param->getDefaultArg()) {
       os << " = ";
+      const bool needs_conversion = defaultArgumentNeedsConversion(expr);
+      if (needs_conversion)
+        os << "static_cast<"
+           << clang::TypeName::getFullyQualifiedName(
+                  param->getType(), context, printing_policy,
+                  /*WithGlobalNsPrefix=*/true)
+           << ">(";
       expr->printPretty(os, &printer_helper, printing_policy, /*Indentation=*/0,
                         /*NewlineSymbol=*/"\n", &context);
+      if (needs_conversion)
+        os << ")";
     }
     ++index;
   }
-- 
2.43.0


From bd3c7f016d1545d5d37aa4d72b354618e3f56108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:05 +0000
Subject: [PATCH 19/42] fix: qualify the types in sizeof and alignof in default
 arguments

---
 src/expose.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/expose.cpp b/src/expose.cpp
index c89ca22..26b66ce 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -33,6 +33,7 @@
 #include <clang/Basic/OperatorKinds.h>
 #include <clang/Basic/SourceLocation.h>
 #include <clang/Basic/Specifiers.h>
+#include <clang/Basic/TypeTraits.h>
 #include <clang/Sema/Lookup.h>
 #include <clang/Sema/Sema.h>
 #include <llvm/ADT/ArrayRef.h>
@@ -192,6 +193,15 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
       return true;
     }
 
+    if (const auto *trait =
+            llvm::dyn_cast<clang::UnaryExprOrTypeTraitExpr>(expr);
+        trait != nullptr && trait->isArgumentType()) {
+      os << clang::getTraitSpelling(trait->getKind()) << '(';
+      print_fully_qualified_name(trait->getArgumentType());
+      os << ')';
+      return true;
+    }
+
     if (const auto *temporary =
             llvm::dyn_cast<clang::CXXTemporaryObjectExpr>(expr)) {
       print_fully_qualified_name(temporary->getType());
-- 
2.43.0


From de7a2bacceee66171144a1c4cd5d302d8517440e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:25 +0000
Subject: [PATCH 20/42] fix: allow braced default arguments for references to
 const

---
 src/expose.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index 26b66ce..8a6201c 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -124,9 +124,9 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
     }();
 
     if (should_prepend_qualified_type_to_braced_initializer) {
-      os << clang::TypeName::getFullyQualifiedName(expr->getType(), context,
-                                                   printing_policy,
-                                                   /*WithGlobalNsPrefix=*/true);
+      os << clang::TypeName::getFullyQualifiedName(
+          expr->getType().getUnqualifiedType(), context, printing_policy,
+          /*WithGlobalNsPrefix=*/true);
       within_braced_initializer = true;
       print_recursively(expr);
       within_braced_initializer = false;
-- 
2.43.0


From 8cc3a1517990a794b44544c3e9a60485a0793711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:01 +0000
Subject: [PATCH 21/42] fix: expose functions that are overloaded with function
 templates

No template arguments can be deduced from overload sets that contain
function templates, so generated code using overload_cast did not compile.
---
 src/expose.cpp | 47 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index 8a6201c..c3befef 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -448,20 +448,59 @@ static void emitPolicies(llvm::raw_ostream &os,
   }
 }
 
+/// Whether the overload set of a function contains function templates other
+/// than the one it was instantiated from.
+static bool isOverloadedWithTemplate(const clang::FunctionDecl *function) {
+  const clang::FunctionTemplateDecl *primary_template =
+      function->getPrimaryTemplate();
+  if (primary_template != nullptr)
+    primary_template = primary_template->getCanonicalDecl();
+  const clang::DeclContext *decl_context =
+      function->getDeclContext()->getRedeclContext();
+  return llvm::any_of(
+      decl_context->lookup(function->getDeclName()),
+      [&](const clang::NamedDecl *decl) {
+        const auto *tpl = llvm::dyn_cast<clang::FunctionTemplateDecl>(
+            decl->getUnderlyingDecl());
+        return tpl != nullptr && tpl->getCanonicalDecl() != primary_template;
+      });
+}
+
 static void emitFunctionPointer(llvm::raw_ostream &os,
                                 const clang::FunctionDecl *function) {
   // TODO: All names need to be printed in a fully-qualified way (also nested
   // template arguments)
-  auto policy = getPrintingPolicyForExposedNames(function->getASTContext());
-  os << "::pybind11::overload_cast<";
-  emitParameterTypes(os, function);
+  const clang::ASTContext &context = function->getASTContext();
+  auto policy = getPrintingPolicyForExposedNames(context);
+  const auto *method = llvm::dyn_cast<clang::CXXMethodDecl>(function);
+  bool is_const = function->getType()->castAs<clang::FunctionType>()->isConst();
+  // No template arguments can be deduced from overload sets that contain
+  // function templates, so `overload_cast` cannot be used for those.
+  bool use_overload_cast = !isOverloadedWithTemplate(function);
+  if (use_overload_cast) {
+    os << "::pybind11::overload_cast<";
+    emitParameterTypes(os, function);
+  } else {
+    clang::QualType return_type = function->getReturnType();
+    if (return_type->getContainedAutoType() != nullptr)
+      return_type = return_type.getCanonicalType();
+    os << "static_cast<"
+       << clang::TypeName::getFullyQualifiedName(return_type, context, policy,
+                                                 /*WithGlobalNsPrefix=*/true)
+       << " (";
+    if (method != nullptr && !method->isStatic())
+      os << getFullyQualifiedName(method->getParent()) << "::";
+    os << "*)(";
+    emitParameterTypes(os, function);
+    os << (is_const ? ") const" : ")");
+  }
   os << ">(&::";
   function->printQualifiedName(os, policy);
   if (const clang::TemplateArgumentList *args =
           function->getTemplateSpecializationArgs()) {
     clang::printTemplateArgumentList(os, args->asArray(), policy);
   }
-  if (function->getType()->castAs<clang::FunctionType>()->isConst())
+  if (use_overload_cast && is_const)
     os << ", ::pybind11::const_";
   os << ")";
 }
-- 
2.43.0


From 6d0548fa9eb3f8648300786abea2392ec65471b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:55 +0000
Subject: [PATCH 22/42] fix: tell pybind11 about bases that are not at offset
 zero

If only one of several bases is exposed, or if a base is virtual or not
polymorphic while the derived class is, instances were passed to functions
expecting the base without adjusting the pointer, reading unrelated memory.
---
 include/genpybind/expose.h |  2 ++
 src/expose.cpp             | 43 ++++++++++++++++++++++++++++++--------
 2 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/include/genpybind/expose.h b/include/genpybind/expose.h
index 54e681c..31d3717 100644
--- a/include/genpybind/expose.h
+++ b/include/genpybind/expose.h
@@ -141,6 +141,8 @@ private:
       clang::OverloadedOperatorKind kind,
       const llvm::SmallVectorImpl<clang::QualType> &parameter_types,
       clang::QualType return_type, bool reverse_parameters);
+  std::vector<const clang::TagDecl *> exposedBases() const;
+  bool needsMultipleInheritance() const;
   void emitType(llvm::raw_ostream &os);
   void handleDeclImpl(llvm::raw_ostream &os,
                       const clang::NamedDecl *decl) override;
diff --git a/src/expose.cpp b/src/expose.cpp
index c3befef..47c8530 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -1192,6 +1192,8 @@ void RecordExposer::emitIntroducer(llvm::raw_ostream &os,
       attrs.has_value() && attrs->dynamic_attr) {
     os << ", ::pybind11::dynamic_attr()";
   }
+  if (needsMultipleInheritance())
+    os << ", ::pybind11::multiple_inheritance()";
   os << ")";
 }
 
@@ -1377,14 +1379,13 @@ void RecordExposer::emitOperatorDefinition(
   os << "; }";
 }
 
-void RecordExposer::emitType(llvm::raw_ostream &os) {
-  os << "::pybind11::class_<" << getFullyQualifiedName(record_decl);
-
-  // Add all exposed (i.e. part of graph) public bases as arguments.
+std::vector<const clang::TagDecl *> RecordExposer::exposedBases() const {
+  std::vector<const clang::TagDecl *> result;
+  // Collect all exposed (i.e. part of graph) public bases.
   // This is called recursively, since bases of inlined bases also need to
-  // be emitted.
-  auto maybe_emit_bases = [&](const clang::CXXRecordDecl *decl,
-                              auto &&recurse) -> void {
+  // be taken into account.
+  auto collect_bases = [&](const clang::CXXRecordDecl *decl,
+                           auto &&recurse) -> void {
     for (const clang::CXXBaseSpecifier &base : decl->bases()) {
       const clang::TagDecl *base_decl =
           base.getType()->getAsTagDecl()->getDefinition();
@@ -1395,11 +1396,35 @@ void RecordExposer::emitType(llvm::raw_ostream &os) {
         if (const auto *rd = llvm::dyn_cast<clang::CXXRecordDecl>(base_decl))
           recurse(rd, recurse);
       } else if (graph.getNode(base_decl) != nullptr) {
-        os << ", " << getFullyQualifiedName(base_decl);
+        result.push_back(base_decl);
       }
     }
   };
-  maybe_emit_bases(record_decl, maybe_emit_bases);
+  collect_bases(record_decl, collect_bases);
+  return result;
+}
+
+bool RecordExposer::needsMultipleInheritance() const {
+  // pybind11 detects multiple inheritance on its own, if more than one base
+  // is given.  But if there is only one exposed base, it assumes that
+  // instances can be used in place of their base without adjusting pointers.
+  // This does not hold in the presence of unexposed bases, virtual bases or if
+  // a virtual table pointer is introduced by the derived class.
+  if (exposedBases().size() != 1)
+    return false;
+  if (record_decl->getNumBases() != 1 || record_decl->getNumVBases() != 0)
+    return true;
+  const clang::CXXRecordDecl *base_decl =
+      record_decl->bases_begin()->getType()->getAsCXXRecordDecl();
+  return base_decl->getDefinition() != exposedBases().front() ||
+         base_decl->isDynamicClass() != record_decl->isDynamicClass();
+}
+
+void RecordExposer::emitType(llvm::raw_ostream &os) {
+  os << "::pybind11::class_<" << getFullyQualifiedName(record_decl);
+
+  for (const clang::TagDecl *base_decl : exposedBases())
+    os << ", " << getFullyQualifiedName(base_decl);
 
   if (const auto attrs = annotations.get<RecordDeclAttrs>(record_decl);
       attrs.has_value() && !attrs->holder_type.empty()) {
-- 
2.43.0


From ad806a1314e581f90f89337a80ec516a79a4a179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:33 +0000
Subject: [PATCH 23/42] fix: list bases reached via several inlined bases only
 once

The module could not be imported otherwise (duplicate base class).
---
 src/expose.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index 47c8530..fb9abc1 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -1395,7 +1395,9 @@ std::vector<const clang::TagDecl *> RecordExposer::exposedBases() const {
       if (inlining_policy.shouldInline(base_decl)) {
         if (const auto *rd = llvm::dyn_cast<clang::CXXRecordDecl>(base_decl))
           recurse(rd, recurse);
-      } else if (graph.getNode(base_decl) != nullptr) {
+      } else if (graph.getNode(base_decl) != nullptr &&
+                 !llvm::is_contained(result, base_decl)) {
+        // Virtual bases can be reached via several inlined bases.
         result.push_back(base_decl);
       }
     }
-- 
2.43.0


From 57f9ce0a9145d21723f840ca0da20b645c52794a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:27 +0000
Subject: [PATCH 24/42] fix: expose types with a typedef name for linkage under
 that name

---
 src/annotated_decl.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/annotated_decl.cpp b/src/annotated_decl.cpp
index fec2b43..bf65b19 100644
--- a/src/annotated_decl.cpp
+++ b/src/annotated_decl.cpp
@@ -321,6 +321,13 @@ std::string genpybind::getSpelling(const clang::NamedDecl *decl) {
   const clang::PrintingPolicy &policy =
       decl->getASTContext().getPrintingPolicy();
 
+  // Unnamed types can have a "typedef name for linkage purposes", e.g.
+  // `typedef struct { /* ... */ } Name;`.
+  if (const auto *tag_decl = llvm::dyn_cast<clang::TagDecl>(decl))
+    if (const clang::TypedefNameDecl *alias =
+            tag_decl->getTypedefNameForAnonDecl())
+      decl = alias;
+
   clang::DeclarationName name = decl->getDeclName();
   name.print(os, policy);
 
-- 
2.43.0


From 5a956746b2b534a43a7acb9ea4fd74bf91f025db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:16 +0000
Subject: [PATCH 25/42] fix: allow members of types that only have a typedef
 name for linkage

---
 src/expose.cpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index fb9abc1..cb31d62 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -296,6 +296,22 @@ static void emitSpelling(llvm::raw_ostream &os, const clang::NamedDecl *decl,
               : (!fallback.empty() ? fallback.str() : getSpelling(decl)));
 }
 
+/// Emits the qualified name of a declaration.  Types are referred to in the same
+/// way as in the remainder of the generated code, as e.g. types that only have a
+/// typedef name for linkage purposes are not named by `printQualifiedName`.
+static void emitQualifiedName(llvm::raw_ostream &os,
+                              const clang::NamedDecl *decl,
+                              const clang::PrintingPolicy &policy) {
+  if (const auto *parent =
+          llvm::dyn_cast<clang::CXXRecordDecl>(decl->getDeclContext())) {
+    os << getFullyQualifiedName(parent) << "::";
+    decl->printName(os, policy);
+    return;
+  }
+  os << "::";
+  decl->printQualifiedName(os, policy);
+}
+
 static llvm::StringRef getBriefText(const clang::Decl *decl) {
   const clang::ASTContext &context = decl->getASTContext();
   if (const clang::RawComment *raw = context.getRawCommentForAnyRedecl(decl)) {
@@ -494,8 +510,8 @@ static void emitFunctionPointer(llvm::raw_ostream &os,
     emitParameterTypes(os, function);
     os << (is_const ? ") const" : ")");
   }
-  os << ">(&::";
-  function->printQualifiedName(os, policy);
+  os << ">(&";
+  emitQualifiedName(os, function, policy);
   if (const clang::TemplateArgumentList *args =
           function->getTemplateSpecializationArgs()) {
     clang::printTemplateArgumentList(os, args->asArray(), policy);
@@ -1248,8 +1264,8 @@ void RecordExposer::emitAccessor(llvm::raw_ostream &os,
               /*WithGlobalNsPrefix=*/true)
        << " value";
   }
-  os << ") -> decltype(auto) { return self.::";
-  method->printQualifiedName(os, policy);
+  os << ") -> decltype(auto) { return self.";
+  emitQualifiedName(os, method, policy);
   os << (num_arguments != 0 ? "(static_cast<decltype(value) &&>(value))" : "()")
      << "; }";
 }
@@ -1547,8 +1563,8 @@ void RecordExposer::handleDeclImpl(llvm::raw_ostream &os,
     os << (readonly ? "context.def_readonly" : "context.def_readwrite");
     os << (llvm::isa<clang::VarDecl>(decl) ? "_static(" : "(");
     emitSpelling(os, decl, annotations.lookup<NamedDeclAttrs>(decl));
-    os << ", &::";
-    decl->printQualifiedName(os, printing_policy);
+    os << ", &";
+    emitQualifiedName(os, decl, printing_policy);
     os << ");\n";
     return;
   }
-- 
2.43.0


From 04c6991ef5fe95e730743d3e46343a19644b7169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:02 +0000
Subject: [PATCH 26/42] fix: do not attach documentation to subsequent
 enumerators

---
 src/expose.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index cb31d62..2d3de19 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -32,6 +32,7 @@
 #include <clang/Basic/LangOptions.h>
 #include <clang/Basic/OperatorKinds.h>
 #include <clang/Basic/SourceLocation.h>
+#include <clang/Basic/SourceManager.h>
 #include <clang/Basic/Specifiers.h>
 #include <clang/Basic/TypeTraits.h>
 #include <clang/Sema/Lookup.h>
@@ -314,10 +315,23 @@ static void emitQualifiedName(llvm::raw_ostream &os,
 
 static llvm::StringRef getBriefText(const clang::Decl *decl) {
   const clang::ASTContext &context = decl->getASTContext();
-  if (const clang::RawComment *raw = context.getRawCommentForAnyRedecl(decl)) {
-    return raw->getBriefText(context);
+  const clang::RawComment *raw = context.getRawCommentForAnyRedecl(decl);
+  if (raw == nullptr)
+    return {};
+  // The comment of an enumerator is also attached to subsequent enumerators
+  // without documentation.
+  if (llvm::isa<clang::EnumConstantDecl>(decl) && !raw->isTrailingComment()) {
+    const clang::SourceManager &source_manager = context.getSourceManager();
+    for (const clang::EnumConstantDecl *other :
+         llvm::cast<clang::EnumDecl>(decl->getDeclContext())->enumerators()) {
+      if (other == decl)
+        break;
+      if (source_manager.isBeforeInTranslationUnit(raw->getEndLoc(),
+                                                   other->getLocation()))
+        return {};
+    }
   }
-  return {};
+  return raw->getBriefText(context);
 }
 
 static llvm::StringRef getDocstring(const clang::FunctionDecl *function) {
-- 
2.43.0


From f62e5f0ebccc6ce06998c76d0afc8cfeb6602a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:53 +0000
Subject: [PATCH 27/42] fix: do not crash if an annotated template cannot be
 instantiated

Aliases of specializations of undefined templates triggered an assertion,
instead of only reporting an error.
---
 src/instantiate_annotated_templates.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/instantiate_annotated_templates.cpp b/src/instantiate_annotated_templates.cpp
index 8acb0c2..c32aaff 100644
--- a/src/instantiate_annotated_templates.cpp
+++ b/src/instantiate_annotated_templates.cpp
@@ -88,7 +88,11 @@ void InstantiateAnnotatedTemplatesASTConsumer::instantiateSpecialization(
 
   auto *definition = llvm::cast_or_null<clang::ClassTemplateSpecializationDecl>(
       specialization->getDefinition());
-  assert(definition != nullptr && definition == specialization);
+  // The template could be undefined, or not be instantiable due to an error
+  // that already has been reported.
+  if (definition == nullptr)
+    return;
+  assert(definition == specialization);
 
   definition->setSpecializationKind(tsk);
   sema->runWithSufficientStackSpace(loc, [&] {
-- 
2.43.0


From 4ac059a14c6039adac727092ee5d61f556ff5b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:03 +0000
Subject: [PATCH 28/42] fix: also take -ansi and --language into account when
 enforcing C++17

Both are alternative spellings of -std= and -x and changed the language mode
the header was analysed with.
---
 src/tool.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/tool.cpp b/src/tool.cpp
index dd00ebe..3de3164 100644
--- a/src/tool.cpp
+++ b/src/tool.cpp
@@ -396,11 +396,20 @@ clang::tooling::ArgumentsAdjuster getCpp17OrLaterAdjuster() {
       }
 
       // Skip further -x<language> arguments.
-      if (arg.consume_front("-x")) {
-        if (arg.empty())
+      if (arg.consume_front("-x") || arg == "--language") {
+        if (arg.empty() || arg == "--language")
           ++idx; // skip next argument too
         continue;
       }
+      if (arg.starts_with("--language="))
+        continue;
+
+      // Skip alternative spelling for the strict variant of C++98.
+      if (arg == "-ansi" || arg == "--ansi") {
+        language_standard_prefix = "c";
+        uses_later_standard = false;
+        continue;
+      }
 
       // Skip language standard argument, if less than 2x.
       // TODO: Take into account future changes to compiler's default values.
-- 
2.43.0


From 0bb0ac88293c81715bf295758c6c7fa65e929b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:03 +0000
Subject: [PATCH 29/42] fix: report output files that are specified more than
 once

The generated code is spread over all output files, so all but the last part
of it was lost with a successful exit status.
---
 src/tool.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tool.cpp b/src/tool.cpp
index 3de3164..06ce6a4 100644
--- a/src/tool.cpp
+++ b/src/tool.cpp
@@ -477,6 +477,14 @@ int main(int argc, const char **argv) {
   if (g_output_files.empty())
     g_output_files.push_back("-");
 
+  // Only the last part of the generated code would be retained otherwise.
+  for (auto it = g_output_files.begin(); it != g_output_files.end(); ++it) {
+    if (*it != "-" && std::find(g_output_files.begin(), it, *it) != it) {
+      llvm::errs() << "output file specified more than once: " << *it << "\n";
+      return 1;
+    }
+  }
+
   const CompilationDatabase &compilations = options_parser.getCompilations();
   const std::vector<std::string> &source_paths =
       options_parser.getSourcePathList();
-- 
2.43.0


From 66b2320ff3b580f5d4251f88c929698da1fa0664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:31 +0000
Subject: [PATCH 30/42] fix: expose members of inline and nominated namespaces
 only once

---
 src/visible_decls.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/visible_decls.cpp b/src/visible_decls.cpp
index ad80a10..0ab9abf 100644
--- a/src/visible_decls.cpp
+++ b/src/visible_decls.cpp
@@ -30,6 +30,7 @@ using namespace genpybind;
 namespace {
 
 class ExposableDeclConsumer : public clang::VisibleDeclConsumer {
+  const clang::DeclContext *lookup_context;
   std::optional<RecordInliningPolicy> inlining_policy;
   std::vector<const clang::NamedDecl *> &decls;
 
@@ -40,9 +41,11 @@ class ExposableDeclConsumer : public clang::VisibleDeclConsumer {
   }
 
 public:
-  ExposableDeclConsumer(std::optional<RecordInliningPolicy> inlining_policy,
+  ExposableDeclConsumer(const clang::DeclContext *lookup_context,
+                        std::optional<RecordInliningPolicy> inlining_policy,
                         std::vector<const clang::NamedDecl *> &decls)
-      : inlining_policy(std::move(inlining_policy)), decls(decls) {}
+      : lookup_context(lookup_context),
+        inlining_policy(std::move(inlining_policy)), decls(decls) {}
 
   bool shouldInlineDecl(clang::NamedDecl *proposed_decl) {
     // TODO: What about using declarations? Where should they be resolved?
@@ -70,6 +73,13 @@ public:
     if (in_base_class && !shouldInlineDecl(proposed_decl))
       return;
 
+    // Lookup in a namespace also finds the members of inline namespaces and
+    // namespaces nominated by using-directives, which are exposed separately.
+    if (lookup_context->isFileContext() &&
+        !proposed_decl->getDeclContext()->getRedeclContext()->Equals(
+            lookup_context))
+      return;
+
     if (const auto *using_decl =
             llvm::dyn_cast<clang::UsingShadowDecl>(proposed_decl)) {
       proposed_decl = using_decl->getTargetDecl();
@@ -163,7 +173,8 @@ genpybind::collectVisibleDeclsFromDeclContext(
     clang::Sema &sema, const clang::DeclContext *decl_context,
     std::optional<RecordInliningPolicy> inlining_policy) {
   std::vector<const clang::NamedDecl *> decls;
-  ExposableDeclConsumer consumer(std::move(inlining_policy), decls);
+  ExposableDeclConsumer consumer(decl_context, std::move(inlining_policy),
+                                 decls);
   // Include global scope *iff* looking up decls in the TU decl context.
   bool include_global_scope = llvm::dyn_cast<clang::Decl>(decl_context) ==
                               sema.getASTContext().getTranslationUnitDecl();
-- 
2.43.0


From d35748a4cba77273e3c52b17885dac628ea34bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:23 +0000
Subject: [PATCH 31/42] fix: take _Pragma("genpybind include ...") operators
 into account

---
 src/pragmas.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pragmas.cpp b/src/pragmas.cpp
index 4af78e2..cf1a5f2 100644
--- a/src/pragmas.cpp
+++ b/src/pragmas.cpp
@@ -44,7 +44,7 @@ void PragmaGenpybindHandler::HandlePragma(clang::Preprocessor &preproc,
   // Now go back and try to figure out what the directive was.
   const clang::SourceManager &source_manager = preproc.getSourceManager();
   std::pair<clang::FileID, unsigned> begin_loc =
-      source_manager.getDecomposedLoc(handler_name_token.getLocation());
+      source_manager.getDecomposedSpellingLoc(handler_name_token.getLocation());
   bool buffer_invalid = false;
   llvm::StringRef buffer =
       source_manager.getBufferData(begin_loc.first, &buffer_invalid);
-- 
2.43.0


From 187804d6cb64b377131e916cb0444d7d284f7f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:56 +0000
Subject: [PATCH 32/42] fix: do not report an unsupported alias target while
 composing another diagnostic

---
 src/annotated_decl.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/annotated_decl.cpp b/src/annotated_decl.cpp
index bf65b19..fcea806 100644
--- a/src/annotated_decl.cpp
+++ b/src/annotated_decl.cpp
@@ -94,7 +94,9 @@ static llvm::StringRef friendlyName(const clang::NamedDecl *decl) {
     return "enum";
   if (RecordDeclAttrs::supports(decl))
     return "class";
-  if (TypedefNameDeclAttrs::supports(decl))
+  // Do not use `TypedefNameDeclAttrs::supports` here, as it might report an
+  // error while another one is being composed.
+  if (llvm::isa<clang::TypedefNameDecl>(decl))
     return "type alias";
   if (FieldOrVarDeclAttrs::supports(decl))
     return "variable";
-- 
2.43.0


From 0b0965c884245b0ac949eb0e818f1288c5381821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:56 +0000
Subject: [PATCH 33/42] fix: accept annotations on other declarations than the
 definition of a specialization

---
 src/instantiate_annotated_templates.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/instantiate_annotated_templates.cpp b/src/instantiate_annotated_templates.cpp
index c32aaff..6b53cac 100644
--- a/src/instantiate_annotated_templates.cpp
+++ b/src/instantiate_annotated_templates.cpp
@@ -42,8 +42,8 @@ void InstantiateAnnotatedTemplatesASTConsumer::instantiateSpecialization(
   if (auto *definition =
           llvm::cast_or_null<clang::ClassTemplateSpecializationDecl>(
               specialization->getDefinition())) {
-    // TODO: Should this one be returned?
-    assert(definition == specialization);
+    // The annotation can be part of another declaration, e.g. a forward
+    // declaration of an explicit specialization.
     specialization = definition;
   }
 
-- 
2.43.0


From d5e9116e1f1869d8f0b19d6ddcbe6405be59a112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:11 +0000
Subject: [PATCH 34/42] fix: do not process queued template specializations
 twice

---
 src/instantiate_annotated_templates.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/instantiate_annotated_templates.cpp b/src/instantiate_annotated_templates.cpp
index 6b53cac..15c1e05 100644
--- a/src/instantiate_annotated_templates.cpp
+++ b/src/instantiate_annotated_templates.cpp
@@ -29,7 +29,10 @@ void InstantiateAnnotatedTemplatesASTConsumer::HandleTranslationUnit(
     assert(specialization != nullptr);
     pending.pop();
 
-    done.insert(specialization);
+    // The same specialization can be queued several times.
+    if (!done.insert(specialization).second)
+      continue;
+
     instantiateSpecialization(specialization);
 
     TraverseDecl(specialization->getDefinition());
-- 
2.43.0


From 31ce567e68aaa5d0b3c00cbc96e4b60eb8eeb6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:55 +0000
Subject: [PATCH 35/42] fix: do not expose operators with an invalid signature

---
 src/expose.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index 2d3de19..d70b7cb 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -1507,7 +1507,8 @@ void RecordExposer::handleDeclImpl(llvm::raw_ostream &os,
   if (OperatorDeclAttrs::supports(decl)) {
     const auto *function = llvm::cast<clang::FunctionDecl>(decl);
 
-    if (function->isDeleted())
+    // Operators with an invalid signature already have been reported.
+    if (function->isDeleted() || function->isInvalidDecl())
       return;
 
     switch (function->getOverloadedOperator()) {
-- 
2.43.0


From 52a3c98f753a7554b5ebed78184b9da0d523c8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:41 +0000
Subject: [PATCH 36/42] fix: qualify explicit template arguments in default
 arguments

---
 src/expose.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index d70b7cb..0c8d372 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -163,6 +163,26 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
                                                    /*WithGlobalNsPrefix=*/true);
     };
 
+    auto print_template_arguments =
+        [&](llvm::ArrayRef<clang::TemplateArgumentLoc> arguments) {
+          os << '<';
+          bool comma = false;
+          for (const clang::TemplateArgumentLoc &argument : arguments) {
+            if (comma)
+              os << ", ";
+            if (argument.getArgument().getKind() == clang::TemplateArgument::Type)
+              print_fully_qualified_name(argument.getArgument().getAsType());
+            else if (argument.getArgument().getKind() ==
+                     clang::TemplateArgument::Expression)
+              print_recursively(argument.getSourceExpression());
+            else
+              argument.getArgument().print(printing_policy, os,
+                                           /*IncludeType=*/true);
+            comma = true;
+          }
+          os << '>';
+        };
+
     if (const auto *cast = llvm::dyn_cast<clang::CStyleCastExpr>(expr)) {
       os << '(';
       print_fully_qualified_name(cast->getType());
@@ -243,8 +263,7 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
         os << "template ";
       os << decl_ref->getNameInfo();
       if (decl_ref->hasExplicitTemplateArgs())
-        clang::printTemplateArgumentList(os, decl_ref->template_arguments(),
-                                         printing_policy);
+        print_template_arguments(decl_ref->template_arguments());
       return true;
     }
 
@@ -271,8 +290,7 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
         os << "template ";
       os << member->getMemberNameInfo();
       if (member->hasExplicitTemplateArgs())
-        clang::printTemplateArgumentList(os, member->template_arguments(),
-                                         printing_policy);
+        print_template_arguments(member->template_arguments());
       return true;
     }
 
-- 
2.43.0


From 492b509ca42a0a76cfadb7f76c51e6d82f3fd4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:41 +0000
Subject: [PATCH 37/42] fix: call literal operators by their qualified name in
 default arguments

---
 src/expose.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/expose.cpp b/src/expose.cpp
index 0c8d372..7664523 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -253,6 +253,27 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
       return true;
     }
 
+    // Literal operators might not be in scope, so call them by name.
+    if (const auto *literal = llvm::dyn_cast<clang::UserDefinedLiteral>(expr)) {
+      const clang::FunctionDecl *callee = literal->getDirectCallee();
+      os << "::";
+      callee->printNestedNameSpecifier(os, printing_policy);
+      os << callee->getDeclName();
+      if (const clang::TemplateArgumentList *args =
+              callee->getTemplateSpecializationArgs())
+        clang::printTemplateArgumentList(os, args->asArray(), printing_policy);
+      os << '(';
+      bool comma = false;
+      for (const clang::Expr *argument : literal->arguments()) {
+        if (comma)
+          os << ", ";
+        print_recursively(argument);
+        comma = true;
+      }
+      os << ')';
+      return true;
+    }
+
     // Fully qualify nested name specifiers.  This corresponds to calls to
     // `getQualifier()` in `StmtPrinter`, which have to be re-defined.
 
-- 
2.43.0


From 5fd75285d8ebc778b6196c37ed3767da1ba7d989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:41 +0000
Subject: [PATCH 38/42] fix: do not print unwritten scopes of anonymous
 namespaces

---
 src/expose.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/expose.cpp b/src/expose.cpp
index 7664523..100fa24 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -387,6 +387,7 @@ getPrintingPolicyForExposedNames(const clang::ASTContext &context) {
   auto policy = context.getPrintingPolicy();
   policy.SuppressScope = false;
   policy.AnonymousTagLocations = false;
+  policy.SuppressUnwrittenScope = true;
   policy.PolishForDeclaration = true;
   return policy;
 }
-- 
2.43.0


From 8b213c54022ff1ec575a49fa4b3f0219797d5713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:41 +0000
Subject: [PATCH 39/42] fix: do not expose copy constructors of bases as
 inherited constructors

---
 src/expose.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/expose.cpp b/src/expose.cpp
index 100fa24..92a978d 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -1517,6 +1517,12 @@ void RecordExposer::handleDeclImpl(llvm::raw_ostream &os,
         record_decl->isAbstract())
       return;
 
+    // The copy constructors of base classes are not inherited.
+    if (constructor->isCopyConstructor() && constructor->getNumParams() == 1 &&
+        constructor->getParent()->getCanonicalDecl() !=
+            record_decl->getCanonicalDecl())
+      return;
+
     if (attrs->implicit_conversion) {
       clang::QualType from_qual_type = constructor->getParamDecl(0)->getType();
       clang::QualType to_qual_type = ast_context.getTypeDeclType(record_decl);
-- 
2.43.0


From 1fad0b2dca48ac754afd39de2a3e108e76740bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:18 +0000
Subject: [PATCH 40/42] fix: do not expose inaccessible inherited constructors

---
 src/visible_decls.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/visible_decls.cpp b/src/visible_decls.cpp
index 0ab9abf..afbb1b7 100644
--- a/src/visible_decls.cpp
+++ b/src/visible_decls.cpp
@@ -83,6 +83,10 @@ public:
     if (const auto *using_decl =
             llvm::dyn_cast<clang::UsingShadowDecl>(proposed_decl)) {
       proposed_decl = using_decl->getTargetDecl();
+      // Inherited constructors keep their accessibility.
+      if (isConstructor(proposed_decl) &&
+          proposed_decl->getAccess() != clang::AS_public)
+        return;
     }
 
     if (DeclContextGraph::accepts(proposed_decl))
-- 
2.43.0


From 9bb1c10a0509fb063868c76f327ee40e952b3987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:31 +0000
Subject: [PATCH 41/42] fix: keep casts to references in default arguments

---
 src/expose.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index 92a978d..9265757 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -183,9 +183,16 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
           os << '>';
         };
 
+    // The type of an expression does not tell whether it was cast to a
+    // reference.
+    auto print_cast_type = [&](const clang::ExplicitCastExpr *cast) {
+      print_fully_qualified_name(cast->isGLValue() ? cast->getTypeAsWritten()
+                                                   : cast->getType());
+    };
+
     if (const auto *cast = llvm::dyn_cast<clang::CStyleCastExpr>(expr)) {
       os << '(';
-      print_fully_qualified_name(cast->getType());
+      print_cast_type(cast);
       os << ')';
       print_recursively(cast->getSubExpr());
       return true;
@@ -193,7 +200,7 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
 
     if (const auto *cast = llvm::dyn_cast<clang::CXXNamedCastExpr>(expr)) {
       os << cast->getCastName() << '<';
-      print_fully_qualified_name(cast->getType());
+      print_cast_type(cast);
       os << ">(";
       print_recursively(cast->getSubExpr());
       os << ')';
@@ -201,7 +208,7 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
     }
 
     if (const auto *cast = llvm::dyn_cast<clang::CXXFunctionalCastExpr>(expr)) {
-      print_fully_qualified_name(cast->getType());
+      print_cast_type(cast);
       // The type of `Type{...}` has just been printed.
       llvm::SaveAndRestore guard(within_braced_initializer,
                                  within_braced_initializer ||
-- 
2.43.0


From 789fe76ee1bb9326aa4c304f923c68582762887b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:31 +0000
Subject: [PATCH 42/42] fix: keep virtual dispatch in default arguments

---
 src/expose.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index 9265757..5069252 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -312,8 +312,14 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
       if (!suppress_member_access_operator)
         os << (member->isArrow() ? "->" : ".");
 
-      os << "::";
-      member->getFoundDecl()->printNestedNameSpecifier(os, printing_policy);
+      // Naming a virtual function by its qualified name would suppress the
+      // virtual dispatch.
+      const auto *method =
+          llvm::dyn_cast<clang::CXXMethodDecl>(member->getMemberDecl());
+      if (member->hasQualifier() || method == nullptr || !method->isVirtual()) {
+        os << "::";
+        member->getFoundDecl()->printNestedNameSpecifier(os, printing_policy);
+      }
       if (member->hasTemplateKeyword())
         os << "template ";
       os << member->getMemberNameInfo();
-- 
2.43.0

