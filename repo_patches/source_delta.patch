From 30960a9138b32ca81e3c6d3ae3e7543b6c3ed0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:13 +0000
Subject: [PATCH 01/43] fix: recognize 'not in' only as whole words and index
 newlines between them

'not inside' was tokenized as 'not in' followed by 'side', and newlines
between the two words were not recorded in the line index, shifting all
later reported line numbers.
---
 bant/frontend/scanner.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bant/frontend/scanner.cc b/bant/frontend/scanner.cc
index aa42273..5092df9 100644
--- a/bant/frontend/scanner.cc
+++ b/bant/frontend/scanner.cc
@@ -116,7 +116,15 @@ bool Scanner::ConsumeOptionalIn() {
   while (run < end_ && absl::ascii_isspace(*run)) {
     ++run;
   }
-  if (end_ - run >= 2 && run[0] == 'i' && run[1] == 'n') {
+  // Needs to be the whole word, not the beginning of some other identifier.
+  if (end_ - run >= 2 && run[0] == 'i' && run[1] == 'n' &&
+      (end_ - run == 2 || !IsIdentifierChar(run[2]))) {
+    for (/**/; pos_ < run; ++pos_) {
+      if (*pos_ == '\n') {
+        source_.mutable_line_index()->PushNewline(pos_ + 1);
+        ++newline_count_;
+      }
+    }
     pos_ = run + 2;
     return true;
   }
-- 
2.43.0


From e3ca3e57cba518c40dbdae5bcc365718b67d296f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:11 +0000
Subject: [PATCH 02/43] fix: report all malformed content and never build nodes
 with absent children

Lists, operators and assignments could contain null nodes after a parse error,
which later stages dereference. Non-identifiers in variable tuples and a missing
operand of a unary operator inside parentheses or brackets were not reported at
all.
---
 bant/frontend/parser.cc | 84 +++++++++++++++++++++++++----------------
 1 file changed, 51 insertions(+), 33 deletions(-)

diff --git a/bant/frontend/parser.cc b/bant/frontend/parser.cc
index e6464d8..7bc4621 100644
--- a/bant/frontend/parser.cc
+++ b/bant/frontend/parser.cc
@@ -95,29 +95,25 @@ class Parser::Impl {
       }
 
       if (tok.type == '[') {
-        statement_list->Append(
-          node_arena_, ParseListOrListComprehension(List::Type::kList, [&]() {
-            return ParseExpression();
-          }));
+        AppendNonNull(statement_list,
+                      ParseListOrListComprehension(List::Type::kList, [&]() {
+                        return ParseExpression();
+                      }));
         continue;
       }
 
       if (tok.type == '(') {  // tuple assignment. Rarely seen in the wild.
         List *lhs = ParseList(
-          Make<List>(List::Type::kTuple),
-          [&]() { return ParseOptionalIdentifier(); }, TokenType::kCloseParen);
-        if (lhs == nullptr) {
-          ErrAt(tok) << "expected LHS of a tuple assignment\n";
-          return statement_list;
-        }
+          Make<List>(List::Type::kTuple), [&]() { return ParseIdentifier(); },
+          TokenType::kCloseParen);
         const Token assign = scanner_->Next();
         if (assign.type != TokenType::kAssign) {
           ErrAt(assign) << "Assignment operator = expected, got " << assign
                         << "\n";
           return statement_list;
         }
-        statement_list->Append(node_arena_,
-                               ParseNodeAssignRhs(lhs, tok.text, assign.text));
+        AppendNonNull(statement_list,
+                      ParseNodeAssignRhs(lhs, tok.text, assign.text));
         continue;
       }
 
@@ -131,18 +127,17 @@ class Parser::Impl {
       const Token after_id = scanner_->Next();
       switch (after_id.type) {
       case TokenType::kAssign:
-        statement_list->Append(
-          node_arena_,
+        AppendNonNull(
+          statement_list,
           ParseIdAssignRhs(Make<Identifier>(tok.text), after_id.text));
         break;
       case TokenType::kOpenParen:
         statement_list->Append(node_arena_, ParseFunCall(tok));
         break;
       case TokenType::kDot:
-        statement_list->Append(
-          node_arena_,
-          Make<BinOpNode>(Make<Identifier>(tok.text), ParseExpression(),
-                          TokenType::kDot, after_id.text));
+        AppendNonNull(statement_list,
+                      MakeBinOpOrLeft(Make<Identifier>(tok.text),
+                                      ParseExpression(), after_id));
         break;
       default:
         ErrAt(after_id) << "expected `(` or `=`\n";
@@ -157,6 +152,7 @@ class Parser::Impl {
     LOG_ENTER();
     // '=' already consumed
     Node *rhs = ParseExpression();
+    if (rhs == nullptr) return nullptr;
     // TODO: ideally, we have a range up to the end of the rhs, but we would
     // get the whitespace until the next token if we just looked at
     // scanner_->Peek().text.begin(). So for now, just cover range up to =.
@@ -189,7 +185,7 @@ class Parser::Impl {
     // Opening list-token (e.g. '[', '(', '{') already consumed.
     Token upcoming = scanner_->Peek();
     while (upcoming.type != end_tok) {
-      result->Append(node_arena_, element_parse());
+      AppendNonNull(result, element_parse());
       upcoming = scanner_->Peek();
       if (upcoming.type == ',') {
         scanner_->Next();
@@ -219,6 +215,7 @@ class Parser::Impl {
     Token tok = scanner_->Next();
     assert(tok.type == TokenType::kIf);  // expected this at this point.
     Node *condition = ParseExpression();
+    if (condition == nullptr) return if_branch;
     Node *else_branch = nullptr;
     tok = scanner_->Peek();
     if (tok.type == TokenType::kElse) {
@@ -298,7 +295,9 @@ class Parser::Impl {
     case '-':
     case TokenType::kNot: {
       const Token tok = scanner_->Next();
-      n = Make<UnaryExpr>(tok.type, ParseExpression(can_be_optional));
+      Node *const operand = ParseExpression();
+      if (operand == nullptr) return nullptr;
+      n = Make<UnaryExpr>(tok.type, operand);
       break;
     }
     case '(': n = ParseParenExpressionOrTuple(); break;
@@ -333,14 +332,14 @@ class Parser::Impl {
       case '.':    // scoped invocation
       case '%': {  // format expr.
         const Token op = scanner_->Next();
-        return Make<BinOpNode>(n, ParseExpression(), op.type, op.text);
+        return MakeBinOpOrLeft(n, ParseExpression(), op);
       }
       case '[': {
         if (upcoming.newline_since_last_token) {  // new toplevel construct.
           return n;
         }
         const Token op = scanner_->Next();  // '[' operation.
-        n = Make<BinOpNode>(n, ParseArrayOrSliceAccess(), op.type, op.text);
+        n = MakeBinOpOrLeft(n, ParseArrayOrSliceAccess(), op);
         // Suffix expression, maybe there is more. Don't return, continue.
         break;
       }
@@ -385,7 +384,7 @@ class Parser::Impl {
         scanner_->Next();  // closing comma at end.
         break;
       }
-      tuple->Append(node_arena_, ParseExpression());
+      AppendNonNull(tuple, ParseExpression());
     }
     return tuple;
   }
@@ -402,14 +401,16 @@ class Parser::Impl {
   BinOpNode *ParseMapTuple() {
     LOG_ENTER();
     Node *lhs = ParseExpression();
+    if (lhs == nullptr) return nullptr;
 
     const Token separator = scanner_->Next();
     if (separator.type != ':') {
       ErrAt(separator) << "expected `:` in map-tuple\n";
       return nullptr;
     }
-    return Make<BinOpNode>(lhs, ParseExpression(), TokenType::kColon,
-                           separator.text);
+    Node *rhs = ParseExpression();
+    if (rhs == nullptr) return nullptr;
+    return Make<BinOpNode>(lhs, rhs, TokenType::kColon, separator.text);
   }
 
   // Parse list, use ListElementParse function to parse elements.
@@ -456,13 +457,15 @@ class Parser::Impl {
     return ParseList(result, element_parser, expected_close_token);
   }
 
-  // Parse next thing but only if it is an identifier.
-  Identifier *ParseOptionalIdentifier() {
+  // Parse next thing which needs to be an identifier.
+  Identifier *ParseIdentifier() {
     LOG_ENTER();
-    if (scanner_->Peek().type == TokenType::kIdentifier) {
-      const Token tok = scanner_->Next();
+    const Token tok = scanner_->Peek();
+    if (tok.type == TokenType::kIdentifier) {
+      scanner_->Next();
       return Make<Identifier>(tok.text);
     }
+    ErrAt(tok) << "expected identifier, got " << tok << "\n";
     return nullptr;
   }
 
@@ -487,7 +490,7 @@ class Parser::Impl {
         scanner_->Next();                  // Consume open tuple '('
         variable_tuple = ParseList(        // .. parse until we see close ')'
           Make<List>(List::Type::kTuple),
-          [&]() { return ParseOptionalIdentifier(); }, TokenType::kCloseParen);
+          [&]() { return ParseIdentifier(); }, TokenType::kCloseParen);
         const Token expected_in = scanner_->Next();
         if (expected_in.type != TokenType::kIn) {
           ErrAt(expected_in) << "expected 'in' after variable tuple\n";
@@ -495,10 +498,11 @@ class Parser::Impl {
       } else {  // i, j, k case. Here the expected list end token is 'in'
         variable_tuple = ParseList(
           Make<List>(List::Type::kTuple),
-          [&]() { return ParseOptionalIdentifier(); }, TokenType::kIn);
+          [&]() { return ParseIdentifier(); }, TokenType::kIn);
       }
 
       Node *values_to_iterate_over = ParseExpression();
+      if (values_to_iterate_over == nullptr) return nullptr;
       const Token after_pos = scanner_->Peek();
       const std::string_view text_range{start_of_for.text.end(),
                                         after_pos.text.begin()};
@@ -532,8 +536,22 @@ class Parser::Impl {
     // start_expression already parsed, 'for' seen, but not consumed.
     //
     // 'for' identifier (,identifier)* ,? 'in' expression.
-    return Make<ListComprehension>(
-      type, ParseComprehensionFor(start_expression, EndTokenFor(type)));
+    BinOpNode *const for_tree =
+      ParseComprehensionFor(start_expression, EndTokenFor(type));
+    if (for_tree == nullptr) return nullptr;
+    return Make<ListComprehension>(type, for_tree);
+  }
+
+  // Trees never contain absent nodes, even if they could only be parsed
+  // partially: whoever walks them should not have to worry.
+  void AppendNonNull(List *list, Node *value) {
+    if (value) list->Append(node_arena_, value);
+  }
+
+  // Operation on two nodes; just the left if right couldn't be parsed.
+  Node *MakeBinOpOrLeft(Node *left, Node *right, const Token &op) {
+    if (right == nullptr) return left;
+    return Make<BinOpNode>(left, right, op.type, op.text);
   }
 
   std::ostream &ErrAt(Token t) {
-- 
2.43.0


From bbb59365a7f7645ba9ba910778039fa4e698354b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:40 +0000
Subject: [PATCH 03/43] fix: don't accept number literals with digits that
 don't match the base

0o18 was silently accepted as octal 1.
---
 bant/frontend/ast.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bant/frontend/ast.cc b/bant/frontend/ast.cc
index 8982c38..7384887 100644
--- a/bant/frontend/ast.cc
+++ b/bant/frontend/ast.cc
@@ -46,6 +46,10 @@ IntScalar *IntScalar::FromLiteral(Arena *arena, std::string_view literal) {
   if (result.ec != std::errc{}) {
     return nullptr;
   }
+  // Only decimal numbers can have something following: a fractional part.
+  if (result.ptr != literal.end() && (base != 10 || *result.ptr != '.')) {
+    return nullptr;
+  }
   return arena->New<IntScalar>(string_rep, val);
 }
 
-- 
2.43.0


From 63fb86cab9b605598548e9e2bb4e582c6cd82a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:40 +0000
Subject: [PATCH 04/43] fix: remove all delimiters of strings in triple single
 quotes

'''foo''' was seen as a string with the content ''foo''.
---
 bant/frontend/ast.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bant/frontend/ast.cc b/bant/frontend/ast.cc
index 7384887..72b4787 100644
--- a/bant/frontend/ast.cc
+++ b/bant/frontend/ast.cc
@@ -61,7 +61,8 @@ StringScalar *StringScalar::FromLiteral(Arena *arena,
     is_raw = true;
     literal.remove_prefix(1);
   }
-  if (literal.length() >= 6 && literal.substr(0, 3) == R"(""")") {
+  if (literal.length() >= 6 && (literal.substr(0, 3) == R"(""")" ||
+                                literal.substr(0, 3) == "'''")) {
     is_triple_quoted = true;
     literal = literal.substr(3);
     literal.remove_suffix(3);
-- 
2.43.0


From 90b662b9295b9f6e62ea7c1758b271a480bcc704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:36 +0000
Subject: [PATCH 05/43] fix: print strings and expressions such that they parse
 to the same tree again

---
 bant/frontend/print-visitor.cc | 121 ++++++++++++++++++++++++++++++---
 bant/frontend/print-visitor.h  |   1 +
 2 files changed, 113 insertions(+), 9 deletions(-)

diff --git a/bant/frontend/print-visitor.cc b/bant/frontend/print-visitor.cc
index 91bc682..129ddee 100644
--- a/bant/frontend/print-visitor.cc
+++ b/bant/frontend/print-visitor.cc
@@ -17,6 +17,7 @@
 
 #include "bant/frontend/print-visitor.h"
 
+#include <cstddef>
 #include <ostream>
 #include <string>
 #include <string_view>
@@ -45,6 +46,98 @@ static constexpr Colors kColor = {
 };
 
 namespace bant {
+namespace {
+// While parsing, operators take everything to their right as operand, and only
+// have one value (and its array accesses) to their left. Determine if "node"
+// needs parenthesis to be the left operand of operator "op".
+// TODO: arithmetic chains stay flat until the parser knows about precedence.
+class LeftOperandNeedsParens : public BaseVoidVisitor {
+ public:
+  static bool Check(Node *node, TokenType op) {
+    LeftOperandNeedsParens visitor(op);
+    visitor.WalkNonNull(node);
+    return visitor.result_;
+  }
+
+  void VisitBinOpNode(BinOpNode *b) final {
+    if (IsArithmetic(b->op()) && IsArithmetic(op_)) {
+      WalkNonNull(b->right());  // What is next to our operator matters.
+    } else {
+      result_ = (b->op() != '[');
+    }
+  }
+  void VisitUnaryExpr(UnaryExpr *e) final { result_ = true; }
+  void VisitTernary(Ternary *t) final { result_ = true; }
+  void VisitScalar(Scalar *s) final {
+    // A dot following a number would be seen as part of the number.
+    result_ = (op_ == '.' && s->type() == Scalar::ScalarType::kInt);
+  }
+  void VisitFunCall(FunCall *f) final {}
+  void VisitList(List *l) final {}
+  void VisitListComprehension(ListComprehension *lh) final {}
+
+ private:
+  explicit LeftOperandNeedsParens(TokenType op) : op_(op) {}
+  static bool IsArithmetic(TokenType op) {
+    return op == '+' || op == '-' || op == '*' || op == '/';
+  }
+
+  const TokenType op_;
+  bool result_ = false;
+};
+
+// Determine if an 'else' following the "node" would be regarded part of it.
+class EndsInIfWithoutElse : public BaseVoidVisitor {
+ public:
+  static bool Check(Node *node) {
+    EndsInIfWithoutElse visitor;
+    visitor.WalkNonNull(node);
+    return visitor.result_;
+  }
+
+  void VisitBinOpNode(BinOpNode *b) final {
+    if (b->op() != '[') WalkNonNull(b->right());
+  }
+  void VisitUnaryExpr(UnaryExpr *e) final { WalkNonNull(e->node()); }
+  void VisitTernary(Ternary *t) final {
+    if (!WalkNonNull(t->negative())) result_ = true;
+  }
+  void VisitFunCall(FunCall *f) final {}
+  void VisitList(List *l) final {}
+  void VisitListComprehension(ListComprehension *lh) final {}
+
+ private:
+  bool result_ = false;
+};
+
+// Choose a quote character that "content" of a string can be wrapped in.
+// Sets "triple" if a simple quote would not do.
+char ChooseQuote(std::string_view content, bool *triple) {
+  bool has_single = false;
+  bool has_double = false;
+  for (size_t i = 0; i < content.size(); ++i) {
+    if (content[i] == '\\') {
+      ++i;  // Whatever comes next is escaped.
+    } else {
+      has_single |= (content[i] == '\'');
+      has_double |= (content[i] == '"');
+    }
+  }
+  if (!has_double) return '"';
+  if (!has_single) return '\'';
+
+  // Only triple quotes possible, and then only ones that don't show up.
+  *triple = true;
+  int run_length = 0;
+  for (size_t i = 0; i < content.size(); ++i) {
+    run_length = (content[i] == '"') ? run_length + 1 : 0;
+    if (run_length == 3) return '\'';
+    if (content[i] == '\\') ++i;
+  }
+  return run_length > 0 ? '\'' : '"';
+}
+}  // namespace
+
 void PrintVisitor::PrintMaybeHighlight(std::string_view print_str) {
   const char *last_end = print_str.data();
   std::string_view highlight;
@@ -125,8 +218,18 @@ void PrintVisitor::VisitAssignment(Assignment *a) {
   WalkNonNull(a->right());
 }
 
+void PrintVisitor::PrintInParens(Node *node, bool needs_parens) {
+  if (needs_parens) out_ << "(";
+  WalkNonNull(node);
+  if (needs_parens) out_ << ")";
+}
+
 void PrintVisitor::VisitBinOpNode(BinOpNode *b) {
-  WalkNonNull(b->left());
+  // Everything allowed to the left of key:value and ... for x in y
+  const bool is_operator =
+    (b->op() != TokenType::kColon && b->op() != TokenType::kFor);
+  PrintInParens(b->left(), is_operator && LeftOperandNeedsParens::Check(
+                                            b->left(), b->op()));
   if (b->op() == '.' || b->op() == '[') {
     out_ << b->op();  // No spacing around some operators.
   } else {
@@ -145,9 +248,11 @@ void PrintVisitor::VisitListComprehension(ListComprehension *lh) {
 }
 
 void PrintVisitor::VisitTernary(Ternary *t) {
-  WalkNonNull(t->positive());
+  PrintInParens(t->positive(), LeftOperandNeedsParens::Check(
+                                 t->positive(), TokenType::kIf));
   out_ << " if ";
-  WalkNonNull(t->condition());
+  PrintInParens(t->condition(), t->negative() && EndsInIfWithoutElse::Check(
+                                                   t->condition()));
   if (t->negative()) {
     out_ << " else ";
     t->negative()->Accept(this);
@@ -164,16 +269,14 @@ void PrintVisitor::VisitScalar(Scalar *s) {
   } else {
     const StringScalar *str = static_cast<StringScalar *>(s);
     if (str->is_raw()) out_ << "r";
-    // Minimal-effort quote char choosing. TODO: look if escaped
-    const bool has_any_double_quote =
-      str->AsString().find_first_of('"') != std::string_view::npos;
-    const char quote_char = has_any_double_quote ? '\'' : '"';
-    if (str->is_triple_quoted()) out_ << quote_char << quote_char;
+    bool is_triple_quoted = str->is_triple_quoted();
+    const char quote_char = ChooseQuote(str->AsString(), &is_triple_quoted);
+    if (is_triple_quoted) out_ << quote_char << quote_char;
 
     out_ << quote_char;
     PrintMaybeHighlight(str->AsString());
     out_ << quote_char;
-    if (str->is_triple_quoted()) out_ << quote_char << quote_char;
+    if (is_triple_quoted) out_ << quote_char << quote_char;
   }
 }
 
diff --git a/bant/frontend/print-visitor.h b/bant/frontend/print-visitor.h
index 403b4ab..fff8bce 100644
--- a/bant/frontend/print-visitor.h
+++ b/bant/frontend/print-visitor.h
@@ -48,6 +48,7 @@ class PrintVisitor : public BaseVoidVisitor {
 
  private:
   void PrintMaybeHighlight(std::string_view print_str);
+  void PrintInParens(Node *node, bool needs_parens);
 
   std::ostream &out_;
   const RE2 *const highlight_re_;
-- 
2.43.0


From d20b22fd84b8dcf64092355c6e6edcf6c6997218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:59 +0000
Subject: [PATCH 06/43] fix: match text after the last * in a target pattern
 literally

---
 bant/types-bazel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bant/types-bazel.cc b/bant/types-bazel.cc
index 6ff6d93..3a785a9 100644
--- a/bant/types-bazel.cc
+++ b/bant/types-bazel.cc
@@ -212,7 +212,7 @@ static std::unique_ptr<RE2> GlobbingToRE2(std::string_view glob) {
     glob = glob.substr(pos + 1);
     is_first = false;
   }
-  absl::StrAppend(&assembled, glob);
+  absl::StrAppend(&assembled, RE2::QuoteMeta(glob));
   return std::make_unique<RE2>(assembled);
 }
 
-- 
2.43.0


From fec58a07bd39db5e0c40ec1aea3d48be26e37fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:59 +0000
Subject: [PATCH 07/43] fix: don't accept package names that can't be printed
 and parsed again

---
 bant/types-bazel.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bant/types-bazel.cc b/bant/types-bazel.cc
index 3a785a9..96c4151 100644
--- a/bant/types-bazel.cc
+++ b/bant/types-bazel.cc
@@ -73,6 +73,9 @@ std::string BazelPackage::FullyQualifiedFile(
 
   using absl::StrSplit;
   if (str.size() < 2) return std::nullopt;
+  if (absl::StrContains(str, ':')) {
+    return std::nullopt;  // More than one colon.
+  }
   std::string_view project;
   std::string_view path;
   if (str[0] == '@') {
@@ -94,6 +97,7 @@ std::string BazelPackage::FullyQualifiedFile(
   if (tilde_pos != std::string_view::npos) {  // bzlmod puts version after ~
     // version = project.substr(tilde_pos + 1);
     project = project.substr(0, tilde_pos);
+    if (project == "@") return std::nullopt;  // Version, but no name.
   }
   return BazelPackage(project, path);
 }
-- 
2.43.0


From 12d48e1a632fa13f6c75e9287b4f6622cf0ef0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:23 +0000
Subject: [PATCH 08/43] fix: keyword arguments of nested calls are not
 attributes of the outer rule

---
 bant/explore/query-utils.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bant/explore/query-utils.cc b/bant/explore/query-utils.cc
index bb91240..1d8e059 100644
--- a/bant/explore/query-utils.cc
+++ b/bant/explore/query-utils.cc
@@ -38,8 +38,7 @@ class TargetFinder : public BaseVoidVisitor {
 
   void VisitFunCall(FunCall *f) final {
     if (in_relevant_call_ != Relevancy::kNotRelevant) {
-      BaseVoidVisitor::VisitFunCall(f);  // Nesting.
-      return;
+      return;  // Nested call: its keyword arguments are not ours.
     }
     in_relevant_call_ = IsRelevant(f->identifier()->id());
     if (in_relevant_call_ == Relevancy::kNotRelevant) return;
-- 
2.43.0


From 27e3cfe1c7def540b96aaf5206373b44b196d0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:23 +0000
Subject: [PATCH 09/43] fix: don't override an explicit visibility with the
 default visibility

---
 bant/explore/query-utils.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bant/explore/query-utils.cc b/bant/explore/query-utils.cc
index 1d8e059..d800d94 100644
--- a/bant/explore/query-utils.cc
+++ b/bant/explore/query-utils.cc
@@ -44,6 +44,7 @@ class TargetFinder : public BaseVoidVisitor {
     if (in_relevant_call_ == Relevancy::kNotRelevant) return;
 
     current_ = {};
+    has_own_visibility_ = false;
     current_.node = f;
     current_.rule = f->identifier()->id();
     for (Node *element : *f->argument()) {
@@ -86,6 +87,7 @@ class TargetFinder : public BaseVoidVisitor {
   void ExtractQueryInfo(Assignment *a) {
     if (!a->maybe_identifier() || !a->value()) return;
     const std::string_view lhs = a->maybe_identifier()->id();
+    if (lhs == "visibility") has_own_visibility_ = true;
     if (Scalar *scalar = a->value()->CastAsScalar()) {
       if (lhs == "name") {
         current_.name = scalar->AsString();
@@ -146,7 +148,7 @@ class TargetFinder : public BaseVoidVisitor {
         (!current_.hdrs_list || current_.hdrs_list->empty())) {
       current_.alwayslink = true;
     }
-    if (current_.visibility == nullptr) {
+    if (!has_own_visibility_) {
       current_.visibility = package_default_visibility_;
     }
     found_cb_(current_);
@@ -167,6 +169,7 @@ class TargetFinder : public BaseVoidVisitor {
   // stack here if nested (though we might just deal with that in a separate
   // transformation expanding list comprehensions).
   Result current_;
+  bool has_own_visibility_ = false;  // Even if not a list we understand.
 
   Relevancy in_relevant_call_ = Relevancy::kNotRelevant;
   const absl::flat_hash_set<std::string_view> of_interest_;
-- 
2.43.0


From 4e0766f1ea4722acef0fe1e97e123dfaa35c88d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:26 +0000
Subject: [PATCH 10/43] fix: no separator if the directory is empty; file name
 is after the last slash

---
 bant/util/file-utils.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bant/util/file-utils.cc b/bant/util/file-utils.cc
index 03b3261..684dd54 100644
--- a/bant/util/file-utils.cc
+++ b/bant/util/file-utils.cc
@@ -40,10 +40,12 @@
 namespace bant {
 FilesystemPath::FilesystemPath(std::string_view path_up_to,
                                std::string_view filename) {
+  const bool has_dir = !path_up_to.empty();  // Only '/' also is a directory.
   while (path_up_to.ends_with('/')) path_up_to.remove_suffix(1);
   path_.reserve(path_up_to.length() + 1 + filename.length());
-  path_.append(path_up_to).append("/").append(filename);
-  filename_offset_ = path_up_to.size() + 1;
+  if (has_dir) path_.append(path_up_to).append("/");
+  filename_offset_ = path_.length() + (filename.find_last_of('/') + 1);
+  path_.append(filename);
 }
 
 FilesystemPath::FilesystemPath(std::string_view path_up_to,
-- 
2.43.0


From 2f32c60ca696b9910e4e82db31f551cee479bc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:33 +0000
Subject: [PATCH 11/43] fix: don't skip directories that have been rejected
 with another name before

---
 bant/util/file-utils.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bant/util/file-utils.cc b/bant/util/file-utils.cc
index 684dd54..a5dd2db 100644
--- a/bant/util/file-utils.cc
+++ b/bant/util/file-utils.cc
@@ -202,12 +202,15 @@ std::vector<FilesystemPath> CollectFilesRecursive(
           FollowLinkTestIsDir(file_or_dir, &inode)));
 
       if (is_directory) {
+        // Only directories we enter are seen: the same directory might be
+        // rejected with one name (e.g. a symlink), but wanted with another.
+        if (!want_dir_p(file_or_dir)) {
+          continue;
+        }
         if (LooksLikeValidInode(inode) && !seen_inode.insert(inode).second) {
           continue;  // Avoid getting caught in symbolic-link loops.
         }
-        if (want_dir_p(file_or_dir)) {
-          directory_worklist.emplace_back(file_or_dir.path());
-        }
+        directory_worklist.emplace_back(file_or_dir.path());
       } else if (want_file_p(file_or_dir)) {
         result_paths.emplace_back(std::move(file_or_dir));
       }
-- 
2.43.0


From eb559cc5a87133e7e8cabda8c3a50c7560febab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:03 +0000
Subject: [PATCH 12/43] fix: an alias without actual target is no alias of a
 nameless target

---
 bant/explore/aliased-by.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bant/explore/aliased-by.cc b/bant/explore/aliased-by.cc
index 2424166..1dbdc61 100644
--- a/bant/explore/aliased-by.cc
+++ b/bant/explore/aliased-by.cc
@@ -28,6 +28,7 @@ OneToN<BazelTarget, BazelTarget> ExtractAliasedBy(const ParsedProject &p) {
   for (const auto &[_, build_file] : p.ParsedFiles()) {
     query::FindTargets(
       build_file->ast, {"alias"}, [&](const query::Result &details) {
+        if (details.actual.empty()) return;  // e.g. not a constant string.
         auto alias = build_file->package.QualifiedTarget(details.name);
         auto actual =
           BazelTarget::ParseFrom(details.actual, build_file->package);
-- 
2.43.0


From 26a3e9db8430739eab252053f40b0c2febbdbd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:13 +0000
Subject: [PATCH 13/43] fix: don't elaborate BUILD files that could not be read

---
 bant/explore/dependency-graph.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bant/explore/dependency-graph.cc b/bant/explore/dependency-graph.cc
index cadd23c..bfcfad0 100644
--- a/bant/explore/dependency-graph.cc
+++ b/bant/explore/dependency-graph.cc
@@ -85,6 +85,10 @@ void FindAndParseMissingPackages(Session &session,
     // building, as it might expand more dpendencies.
     // TODO: but do we need expensive glob() enabled ?
     ParsedBuildFile *file = project->AddBuildFile(session, *path, package);
+    if (!file) {  // Exists, but could not be read.
+      error_packages->insert(package);
+      continue;
+    }
     bant::Elaborate(session, project, file);
   }
 }
-- 
2.43.0


From cdabed5747215173baa06834ea2c13c7406edb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:26 +0000
Subject: [PATCH 14/43] fix: escape JSON and CSV output as these formats
 require

---
 bant/util/table-printer.cc | 49 +++++++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/bant/util/table-printer.cc b/bant/util/table-printer.cc
index bca57b8..6190b15 100644
--- a/bant/util/table-printer.cc
+++ b/bant/util/table-printer.cc
@@ -23,6 +23,7 @@
 #include <memory>
 #include <ostream>
 #include <string>
+#include <string_view>
 #include <vector>
 
 #include "absl/log/check.h"
@@ -32,6 +33,38 @@
 
 namespace bant {
 namespace {
+// Quoted string, as expected in JSON: C-style escapes such as octal character
+// values or \' are not valid there.
+std::string JSonQuote(std::string_view s) {
+  std::string result = "\"";
+  for (const char c : s) {
+    switch (c) {
+    case '"': result.append("\\\""); break;
+    case '\\': result.append("\\\\"); break;
+    case '\n': result.append("\\n"); break;
+    case '\r': result.append("\\r"); break;
+    case '\t': result.append("\\t"); break;
+    default:
+      if (c >= 0 && c < ' ') {
+        result.append(absl::StrFormat("\\u%04x", (int)c));
+      } else {
+        result.push_back(c);
+      }
+    }
+  }
+  return result.append("\"");
+}
+
+// Quoted CSV cell (RFC 4180): quotes are doubled, nothing else is special.
+std::string CSVQuote(std::string_view s) {
+  std::string result = "\"";
+  for (const char c : s) {
+    if (c == '"') result.push_back(c);
+    result.push_back(c);
+  }
+  return result.append("\"");
+}
+
 // The AlignedTextColumnPrinter needs to collect all the rows first to know
 // how wide columns are.
 class AlignedTextColumnPrinter : public TablePrinter {
@@ -152,8 +185,8 @@ class JSonTablePrinter : public TablePrinter {
     out_ << "{";
     for (size_t c = 0; c < row.size(); ++c) {
       if (c != 0) out_ << ", ";
-      out_ << "\"" << absl::CEscape(headers_[c]) << "\": ";
-      out_ << "\"" << absl::CEscape(row[c]) << "\"";
+      out_ << JSonQuote(headers_[c]) << ": ";
+      out_ << JSonQuote(row[c]);
     }
     out_ << "}\n";
   }
@@ -165,15 +198,15 @@ class JSonTablePrinter : public TablePrinter {
     size_t c = 0;
     for (c = 0; c < row_prefix.size(); ++c) {
       if (c != 0) out_ << ", ";
-      out_ << "\"" << absl::CEscape(headers_[c]) << "\": ";
-      out_ << "\"" << absl::CEscape(row_prefix[c]) << "\"";
+      out_ << JSonQuote(headers_[c]) << ": ";
+      out_ << JSonQuote(row_prefix[c]);
     }
     if (c != 0) out_ << ", ";
-    out_ << "\"" << absl::CEscape(headers_[c]) << "\": ";
+    out_ << JSonQuote(headers_[c]) << ": ";
     out_ << "[";
     for (size_t rc = 0; rc < repeat_col.size(); ++rc) {
       if (rc != 0) out_ << ", ";
-      out_ << "\"" << absl::CEscape(repeat_col[rc]) << "\"";
+      out_ << JSonQuote(repeat_col[rc]);
     }
     out_ << "]}\n";
   }
@@ -191,7 +224,7 @@ class CSVTablePrinter : public TablePrinter {
       : out_(out) {
     for (size_t c = 0; c < headers.size(); ++c) {
       if (c != 0) out_ << ",";
-      out_ << "\"" << absl::CEscape(headers[c]) << "\"";
+      out_ << CSVQuote(headers[c]);
     }
     out_ << "\n";
   }
@@ -199,7 +232,7 @@ class CSVTablePrinter : public TablePrinter {
   void AddRow(const std::vector<std::string> &row) final {
     for (size_t c = 0; c < row.size(); ++c) {
       if (c != 0) out_ << ",";
-      out_ << "\"" << absl::CEscape(row[c]) << "\"";
+      out_ << CSVQuote(row[c]);
     }
     out_ << "\n";
   }
-- 
2.43.0


From b40a7443cc175924fc062024fa9869c10efdc4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:29 +0000
Subject: [PATCH 15/43] fix: glob ** matches whole path components, also at the
 end of a pattern

---
 bant/util/glob-match-builder.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bant/util/glob-match-builder.cc b/bant/util/glob-match-builder.cc
index 83b4a12..5414264 100644
--- a/bant/util/glob-match-builder.cc
+++ b/bant/util/glob-match-builder.cc
@@ -59,7 +59,8 @@ static std::shared_ptr<PathMatcher> MakeFilenameMatcher(
     if (p.contains('*')) {
       const std::string escape_special = RE2::QuoteMeta(p);  // quote everything
       re_or_patterns.emplace_back(  // ... then unquote the pattern back
-        absl::StrReplaceAll(escape_special, {{R"(\*\*\/)", ".*/?"},  //
+        absl::StrReplaceAll(escape_special, {{R"(\*\*\/)", "(.*/)?"},  //
+                                             {R"(\*\*)", ".*"},        //
                                              {R"(\*)", "[^/]*"}}));
     } else {
       verbatim_match.insert(p);  // Simple and fast.
@@ -75,11 +76,14 @@ static std::shared_ptr<PathMatcher> MakeDirectoryMatcher(
   absl::flat_hash_set<std::string> verbatim_match;
   for (std::string_view p : patterns) {
     const size_t last_slash = p.find_last_of('/');
-    if (last_slash == std::string_view::npos) {
+    if (p == "**" || p.ends_with("/**")) {
+      // Matches files in all directories below.
+    } else if (last_slash == std::string_view::npos) {
       verbatim_match.insert("");
       continue;
+    } else {
+      p = p.substr(0, last_slash);  // Only directories for patterns
     }
-    p = p.substr(0, last_slash);  // Only directories for patterns
     // TODO: is it allowed to have patterns like '**.txt' with the '**' not
     // in directory ? Because then we just snipped it off and it won't work...
     if (p.contains('*')) {
-- 
2.43.0


From 4f5a5f80f712fe00ee748fe2ff0c3c8a01e3fb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:19 +0000
Subject: [PATCH 16/43] fix: keep leading dots of directories in package names

A build file below a directory that starts with a dot, such as .github/BUILD,
was attributed to the package without the dot.
---
 bant/frontend/parsed-project.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bant/frontend/parsed-project.cc b/bant/frontend/parsed-project.cc
index f349c44..591fd29 100644
--- a/bant/frontend/parsed-project.cc
+++ b/bant/frontend/parsed-project.cc
@@ -17,6 +17,7 @@
 
 #include "bant/frontend/parsed-project.h"
 
+#include <cstddef>
 #include <cstdlib>
 #include <iostream>
 #include <memory>
@@ -48,10 +49,13 @@ namespace {
 // no prefix or suffix.
 // ./foo/bar/baz/BUILD.bazel turns into foo/bar/baz
 std::string_view TargetPathFromBuildFile(std::string_view file) {
-  file = file.substr(0, file.find_last_of('/'));  // Remove BUILD-file
-  while (!file.empty() && (file[0] == '.' || file[0] == '/')) {
-    file.remove_prefix(1);
+  const size_t last_slash = file.find_last_of('/');
+  if (last_slash == std::string_view::npos) return "";
+  file = file.substr(0, last_slash + 1);  // Remove BUILD-file
+  while (file.starts_with('/') || file.starts_with("./")) {
+    file.remove_prefix(file[0] == '/' ? 1 : 2);
   }
+  while (file.ends_with('/')) file.remove_suffix(1);
   return file;
 }
 
-- 
2.43.0


From f81e3a438f3145b045e7c0f746107a6226c56cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 17/43] fix: find all quoted includes at the beginning of a
 line

#include"foo.h" without space, and header names with other characters, e.g.
digits in suffixes such as foo.v1.pb.h, were not seen, so that dependencies
they need were suggested to be removed. Directives only count at the beginning
of a line, also after a string.
---
 bant/tool/dwyu.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index 46ef440..e68e84b 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -530,7 +530,7 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
 
 std::vector<std::string_view> ExtractCCIncludes(NamedLineIndexedContent *src) {
   static const LazyRE2 kIncRe{
-    R"/((?m)("|^\s*#\s*include\s+"((\.\./)*[0-9a-zA-Z_/+-]+(\.[a-zA-Z]+)*)"))/"};
+    R"/((?m)("|^[ \t]*#[ \t]*include[ \t]*"([^"\n]+)"))/"};
 
   // We don't actually understand strings in c++, so we just pretend by
   // toggle ignore whenever we see one.
@@ -542,7 +542,12 @@ std::vector<std::string_view> ExtractCCIncludes(NamedLineIndexedContent *src) {
   while (RE2::FindAndConsume(&run, *kIncRe, &outer, &header_path)) {
     if (outer == "\"") {
       best_effort_in_nested_quote_toggle = !best_effort_in_nested_quote_toggle;
-    } else if (!best_effort_in_nested_quote_toggle) {
+      continue;
+    }
+    // After a quote, the regular expression continues in the middle of a line.
+    const bool at_line_start = outer.begin() == src->content().begin() ||
+                               *(outer.begin() - 1) == '\n';
+    if (at_line_start && !best_effort_in_nested_quote_toggle) {
       result.push_back(header_path);
     }
   }
-- 
2.43.0


From 012db6d779559ecb181a2c72aea36bd943e3ed5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 18/43] fix: dependency edits keep what is needed

- a header exported by the target itself with another path (e.g. with
  strip_include_prefix) made the target depend on itself.
- if none of the providers of a header is visible, or one of several has to be
  chosen by the user, dependencies currently providing it were suggested to be
  removed without replacement; likewise if the only provider left is testonly.
---
 bant/tool/dwyu-internal.h |  6 ++++-
 bant/tool/dwyu.cc         | 46 +++++++++++++++++++++++++++++----------
 2 files changed, 39 insertions(+), 13 deletions(-)

diff --git a/bant/tool/dwyu-internal.h b/bant/tool/dwyu-internal.h
index da24ecb..98fa92b 100644
--- a/bant/tool/dwyu-internal.h
+++ b/bant/tool/dwyu-internal.h
@@ -76,10 +76,14 @@ class DWYUGenerator {
   // a library for each of the headers we have seen.
   // This is important as only then we can confidently suggest removals in that
   // target.
+  // All libraries providing any of the headers are added to "header_providers".
+  // If there are headers for which we can't depend on any of their providers,
+  // "all_providers_decided" is set to false.
   std::vector<absl::btree_set<BazelTarget>> DependenciesNeededBySources(
     const BazelTarget &target, const ParsedBuildFile &build_file,
     const std::vector<std::string_view> &sources,
-    bool *all_headers_accounted_for);
+    bool *all_headers_accounted_for, bool *all_providers_decided,
+    absl::btree_set<BazelTarget> *header_providers);
 
   void CreateEditsForTarget(const BazelTarget &target,
                             const query::Result &details,
diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index e68e84b..728ea78 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -240,17 +240,14 @@ std::vector<absl::btree_set<BazelTarget>>
 DWYUGenerator::DependenciesNeededBySources(
   const BazelTarget &target, const ParsedBuildFile &build_file,
   const std::vector<std::string_view> &sources,
-  bool *all_headers_accounted_for) {
+  bool *all_headers_accounted_for, bool *all_providers_decided,
+  absl::btree_set<BazelTarget> *header_providers) {
   Stat &source_read_stats = session_.GetStatsFor("read(C++ source)", "sources");
   Stat &source_grep_stats = session_.GetStatsFor("Grep'ed for #inc", "sources");
 
   std::ostream &info_out = session_.info();
   size_t total_size = 0;
 
-  // Already provided targets we don't need to emit anymore.
-  std::set<BazelTarget> already_provided;
-  already_provided.insert(target);
-
   // Log providers if super verbose -vvv
   auto maybe_log = [&](const NamedLineIndexedContent &source,
                        std::string_view inc_file,
@@ -270,18 +267,24 @@ DWYUGenerator::DependenciesNeededBySources(
   };
 
   // Add alternatives to the result we return, but filtering to only
-  // include visible targets.
+  // include targets we could depend on.
   std::vector<absl::btree_set<BazelTarget>> result;
   auto add_to_result = [&](const absl::btree_set<BazelTarget> &alternatives) {
+    // Exported by ourselves, possibly with a different path.
+    if (alternatives.contains(target)) return;
+
+    header_providers->insert(alternatives.begin(), alternatives.end());
+
     // Add all visible targets.
     auto &result_set = result.emplace_back();
     for (const BazelTarget &t : alternatives) {
-      if (CanSee(target, t)) {
+      if (CanSee(target, t) && IsTestonlyCompatible(target, t)) {
         result_set.insert(t);
       }
     }
 
-    if (result_set.empty()) {  // Didn't need to add anything: nothing visible
+    if (result_set.empty()) {  // Nothing visible we could add.
+      *all_providers_decided = false;
       result.pop_back();
     }
   };
@@ -430,8 +433,11 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
   query::AppendStringList(details.hdrs_list, sources);
 
   // Grep for all includes they use to determine which deps we need
-  auto deps_needed = DependenciesNeededBySources(target, build_file, sources,
-                                                 &all_header_deps_known);
+  bool all_providers_decided = true;
+  absl::btree_set<BazelTarget> header_providers;
+  auto deps_needed = DependenciesNeededBySources(
+    target, build_file, sources, &all_header_deps_known, &all_providers_decided,
+    &header_providers);
   deps_needed = MinimizeDependencySet(deps_needed);
   OneToOne<BazelTarget, BazelTarget> checked_off_by;
   auto IsNeededInSourcesAndCheckOff = [&](const BazelTarget &target) -> bool {
@@ -452,6 +458,7 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
   // Everything deps_needed
   // verify we actually need them. If not: remove.
   const auto deps = query::ExtractStringList(details.deps_list);
+  std::vector<std::pair<std::string_view, BazelTarget>> remove_candidates;
   for (const std::string_view dependency_target : deps) {
     const auto requested_target = BazelTarget::ParseFrom(dependency_target,  //
                                                          target.package);
@@ -483,9 +490,24 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
       continue;
     }
 
+    remove_candidates.emplace_back(dependency_target, *requested_target);
+  }
+
+  // Needed headers with multiple choices left can not be added automatically.
+  for (const auto &need_add_alternatives : deps_needed) {
+    if (need_add_alternatives.size() > 1) all_providers_decided = false;
+  }
+
+  for (const auto &[dependency_target, requested_target] : remove_candidates) {
+    // If it is not certain that everything needed will be provided otherwise,
+    // keep what currently provides some of the headers.
+    if (!all_providers_decided && header_providers.contains(requested_target)) {
+      continue;
+    }
+
     // Looks like we don't need this dependency. But maybe we don't quite know:
     const bool potential_remove_suggestion_safe =
-      all_header_deps_known && !IsAlwayslink(*requested_target);
+      all_header_deps_known && !IsAlwayslink(requested_target);
 
     // Emit the edits.
     if (potential_remove_suggestion_safe) {
@@ -497,7 +519,7 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
       }
     } else if (!all_header_deps_known && session_.flags().verbose > 1) {
       project_.Loc(session_.info(), dependency_target)
-        << ": Unsure what " << requested_target->ToString()
+        << ": Unsure what " << requested_target.ToString()
         << " provides, but there are also unaccounted headers. Won't remove.\n";
     }
   }
-- 
2.43.0


From bdc441652a6c9afa99a2d56b1da9deddc3a974ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:05 +0000
Subject: [PATCH 19/43] fix: aliases of aliases and of proto libraries provide
 their headers

Otherwise dependencies on these are suggested to be removed.
---
 bant/explore/header-providers.cc | 33 +++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/bant/explore/header-providers.cc b/bant/explore/header-providers.cc
index a2f36b8..a67230c 100644
--- a/bant/explore/header-providers.cc
+++ b/bant/explore/header-providers.cc
@@ -176,6 +176,19 @@ static void IterateCCLibraryHeaders(const ParsedBuildFile &build_file,
     });
 }
 
+// Add library and all its aliases (and aliases of these) to the set.
+static void InsertWithAliases(
+  const BazelTarget &library,
+  const OneToN<BazelTarget, BazelTarget> &alias_index,
+  absl::btree_set<BazelTarget> &result) {
+  if (!result.insert(library).second) return;
+  const auto aliases_found = alias_index.find(library);
+  if (aliases_found == alias_index.end()) return;
+  for (const BazelTarget &alias : aliases_found->second) {
+    InsertWithAliases(alias, alias_index, result);
+  }
+}
+
 static void AppendCCLibraryHeaders(
   const ParsedBuildFile &build_file,
   const OneToN<BazelTarget, BazelTarget> &alias_index, std::ostream &info_out,
@@ -185,14 +198,9 @@ static void AppendCCLibraryHeaders(
                     const std::string &header_fqn) {
       const std::string_view canonicalized = LightCanonicalizePath(header_fqn);
       const std::string key = KeyTransform(canonicalized, suffix_index);
-      result[key].insert(cc_library);
       // Also, if there are any aliases in the project for this library,
       // these would also be considered providers of this lib.
-      if (const auto aliases_found = alias_index.find(cc_library);
-          aliases_found != alias_index.end()) {
-        result[key].insert(aliases_found->second.begin(),
-                           aliases_found->second.end());
-      }
+      InsertWithAliases(cc_library, alias_index, result[key]);
     });
 }
 
@@ -208,9 +216,10 @@ static void AppendCCLibraryHeaders(
 //  2. find all used proto_library()s that are mentioned in cc_proto_library()s,
 //     derive the header file from the *.proto file and store the mapping
 //     header->cc_library that we're after.
-static void AppendProtoLibraryHeaders(const ParsedBuildFile &build_file,
-                                      bool reverse,
-                                      ProvidedFromTargetSet &result) {
+static void AppendProtoLibraryHeaders(
+  const ParsedBuildFile &build_file,
+  const OneToN<BazelTarget, BazelTarget> &alias_index, bool reverse,
+  ProvidedFromTargetSet &result) {
   // TODO: once we wire the DependencyGraph through, we can make the look-up
   // in one go. Also we wouldn't be limited to proto_library() and
   // cc_proto_library() having to reside in one package.
@@ -286,7 +295,8 @@ static void AppendProtoLibraryHeaders(const ParsedBuildFile &build_file,
           for (const std::string_view suffix : {".pb.h", ".proto.h"}) {
             std::string proto_header = absl::StrCat(stem, middle_name, suffix);
             proto_header = build_file.package.QualifiedFile(proto_header);
-            result[KeyTransform(proto_header, reverse)].insert(cc_proto_lib);
+            InsertWithAliases(cc_proto_lib, alias_index,
+                              result[KeyTransform(proto_header, reverse)]);
           }
         }
       }
@@ -308,7 +318,8 @@ ProvidedFromTargetSet ExtractHeaderToLibMapping(const ParsedProject &project,
     // provide header files.
     AppendCCLibraryHeaders(*build_file, aliased_by_index,  //
                            info_out, suffix_index, result);
-    AppendProtoLibraryHeaders(*build_file, suffix_index, result);
+    AppendProtoLibraryHeaders(*build_file, aliased_by_index, suffix_index,
+                              result);
   }
 
   return result;
-- 
2.43.0


From 173f76794eb46b071107f9f44d86a4df80d92824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:09 +0000
Subject: [PATCH 20/43] fix: do not add testonly libraries to a cc_binary that
 is not

---
 bant/tool/dwyu.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index 728ea78..730785c 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -147,7 +147,8 @@ void DWYUGenerator::InitKnownLibraries() {
     query::FindTargets(parsed_package->ast,
                        {"cc_library", "alias",  // The common ones
                         "cc_proto_library", "grpc_cc_library",  // specialized
-                        "cc_test"},  // also indexing test for testonly check.
+                        // also indexing test and binary for testonly check.
+                        "cc_test", "cc_binary"},
                        [&](const query::Result &target) {
                          auto self =
                            current_package.QualifiedTarget(target.name);
-- 
2.43.0


From 1ea4fd773a74cc389fddaf7374b5b7b86433e831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 21/43] fix: concatenating raw and regular strings must not
 change what escapes mean

---
 bant/frontend/elaboration.cc | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/bant/frontend/elaboration.cc b/bant/frontend/elaboration.cc
index e37432f..83a396f 100644
--- a/bant/frontend/elaboration.cc
+++ b/bant/frontend/elaboration.cc
@@ -116,8 +116,13 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
         Scalar *right = bin_op->right()->CastAsScalar();
         if (left && right && left->type() == right->type() &&
             left->type() == Scalar::ScalarType::kString) {
-          return ConcatStrings(project_->GetLocation(bin_op->source_range()),
-                               left->AsString(), right->AsString());
+          const bool left_raw = static_cast<StringScalar *>(left)->is_raw();
+          const bool right_raw = static_cast<StringScalar *>(right)->is_raw();
+          if (left_raw == right_raw || (!HasEscape(left) && !HasEscape(right))) {
+            return ConcatStrings(project_->GetLocation(bin_op->source_range()),
+                                 left->AsString(), right->AsString(),
+                                 left_raw && right_raw);
+          }
         }
       }
       return bin_op;  // Unimplemented op. Return as-is.
@@ -138,8 +143,14 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
     return result;
   }
 
+  // Backslashes mean something different in raw and regular strings.
+  static bool HasEscape(Scalar *s) {
+    return s->AsString().find('\\') != std::string_view::npos;
+  }
+
   StringScalar *ConcatStrings(const FileLocation &op_location,
-                              std::string_view left, std::string_view right) {
+                              std::string_view left, std::string_view right,
+                              bool is_raw) {
     const size_t new_length = left.size() + right.size();
     char *new_str = static_cast<char *>(project_->arena()->Alloc(new_length));
     memcpy(new_str, left.data(), left.size());
@@ -151,7 +162,7 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
     project_->RegisterLocationRange(assembled,
                                     Make<FixedSourceLocator>(op_location));
 
-    return Make<StringScalar>(assembled, false, false);
+    return Make<StringScalar>(assembled, false, is_raw);
   }
 
   Node *HandleSelect(FunCall *fun) {
-- 
2.43.0


From 345af4af3e81ece6de8aa5554ff916a29543a9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 22/43] fix: only substitute identifiers that refer to a global
 variable

---
 bant/frontend/ast.h          |  9 +++++++-
 bant/frontend/elaboration.cc | 40 ++++++++++++++++++++++++++++++++++--
 2 files changed, 46 insertions(+), 3 deletions(-)

diff --git a/bant/frontend/ast.h b/bant/frontend/ast.h
index ac6dff3..73c9d42 100644
--- a/bant/frontend/ast.h
+++ b/bant/frontend/ast.h
@@ -35,6 +35,7 @@ class Assignment;
 class Scalar;
 class List;
 class BinOpNode;
+class FunCall;
 
 // Constructors are not public, only accessible via Arena. Use Arena::New()
 // for all nodes.
@@ -55,6 +56,7 @@ class Node {
   virtual Scalar *CastAsScalar() { return nullptr; }
   virtual List *CastAsList() { return nullptr; }
   virtual BinOpNode *CastAsBinOp() { return nullptr; }
+  virtual FunCall *CastAsFunCall() { return nullptr; }
 
   virtual void Accept(VoidVisitor *v) = 0;
   virtual Node *Accept(NodeVisitor *v) = 0;
@@ -302,6 +304,8 @@ class FunCall : public BinNode {
   Identifier *identifier() { return static_cast<Identifier *>(left_); }
   List *argument() { return static_cast<List *>(right_); }
 
+  FunCall *CastAsFunCall() final { return this; }
+
   void Accept(VoidVisitor *v) final;
   Node *Accept(NodeVisitor *v) final;
 
@@ -393,7 +397,10 @@ class BaseNodeReplacementVisitor : public NodeVisitor {
   }
 
   Node *VisitFunCall(FunCall *f) override {
-    ReplaceWalk(&f->left_);
+    // Has to stay an identifier.
+    if (Node *walk_result = WalkNonNull(f->left_)) {
+      if (walk_result->CastAsIdentifier()) f->left_ = walk_result;
+    }
     ReplaceWalk(&f->right_);
     return f;
   }
diff --git a/bant/frontend/elaboration.cc b/bant/frontend/elaboration.cc
index 83a396f..c8d9442 100644
--- a/bant/frontend/elaboration.cc
+++ b/bant/frontend/elaboration.cc
@@ -79,20 +79,46 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
 
   Node *VisitAssignment(Assignment *a) final {
     Node *result = BaseNodeReplacementVisitor::VisitAssignment(a);
-    if (nest_level_ == 0 && a->maybe_identifier()) {
-      global_variables_[a->maybe_identifier()->id()] = a->value();
+    if (nest_level_ == 0) {
+      if (a->maybe_identifier()) {
+        global_variables_[a->maybe_identifier()->id()] = a->value();
+      } else {
+        ForgetVariables(a->left()->CastAsList());  // Tuple: values not known.
+      }
+    }
+    return result;
+  }
+
+  Node *VisitListComprehension(ListComprehension *lh) final {
+    // Variables bound by the comprehension hide global variables within.
+    const auto saved_variables = global_variables_;
+    for (BinOpNode *for_node = lh->for_node();
+         for_node && for_node->op() == TokenType::kFor;
+         for_node = for_node->left()->CastAsBinOp()) {
+      BinOpNode *const in_node = for_node->right()->CastAsBinOp();
+      if (in_node) ForgetVariables(in_node->left()->CastAsList());
     }
+    Node *result = BaseNodeReplacementVisitor::VisitListComprehension(lh);
+    global_variables_ = saved_variables;
     return result;
   }
 
   // Variable substituion with value if known.
   Node *VisitIdentifier(Identifier *i) final {
+    if (member_names_.contains(i)) return i;
     auto found = global_variables_.find(i->id());
     return found != global_variables_.end() ? found->second : i;
   }
 
   // Very narrow of operations actually supported. Only what we typically need.
   Node *VisitBinOpNode(BinOpNode *b) final {
+    if (b->op() == '.') {
+      // What directly follows is the name of a member, not a variable.
+      Node *member = b->right();
+      while (BinOpNode *op = member->CastAsBinOp()) member = op->left();
+      if (FunCall *fun = member->CastAsFunCall()) member = fun->identifier();
+      if (Identifier *id = member->CastAsIdentifier()) member_names_.insert(id);
+    }
     Node *post_visit = BaseNodeReplacementVisitor::VisitBinOpNode(b);
     BinOpNode *bin_op = post_visit->CastAsBinOp();  // still binop ?
     if (!bin_op) return post_visit;
@@ -132,6 +158,15 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
   }
 
  private:
+  void ForgetVariables(List *variables) {
+    if (!variables) return;
+    for (Node *n : *variables) {
+      if (Identifier *id = n->CastAsIdentifier()) {
+        global_variables_.erase(id->id());
+      }
+    }
+  }
+
   List *ConcatLists(List *left, List *right) {
     List *result = Make<List>(left->type());
     for (Node *n : *left) {
@@ -293,6 +328,7 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
   const BazelPackage &package_;
   int nest_level_ = 0;
   absl::flat_hash_map<std::string_view, Node *> global_variables_;
+  absl::flat_hash_set<const Identifier *> member_names_;
   absl::flat_hash_set<std::string> conditions_;
 };
 
-- 
2.43.0


From e59c2012b7f918add07301c6572a57ee77ea0e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:23 +0000
Subject: [PATCH 23/43] fix: glob keeps positional exclude patterns and unknown
 include patterns

---
 bant/frontend/elaboration.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bant/frontend/elaboration.cc b/bant/frontend/elaboration.cc
index c8d9442..bee9010 100644
--- a/bant/frontend/elaboration.cc
+++ b/bant/frontend/elaboration.cc
@@ -217,12 +217,16 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
   }
 
   Node *HandleGlob(FunCall *fun) {
-    // Extract arguments. include_list is allowed to be a positional parameter.
+    // Extract arguments. The include_list and exclude_list are allowed to be
+    // positional parameters.
     List *include_list = nullptr;
     List *exclude_list = nullptr;
+    int position = -1;
     for (Node *arg : *fun->argument()) {
+      ++position;
       if (List *as_list = arg->CastAsList()) {
-        include_list = as_list;  // include_list is positional parameter.
+        if (position == 0) include_list = as_list;
+        if (position == 1) exclude_list = as_list;
         continue;
       }
       if (Assignment *kwarg = arg->CastAsAssignment()) {
@@ -236,6 +240,8 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
       }
     }
 
+    if (!include_list) return fun;  // Not a list we understand; keep as-is.
+
     // Find directory to start the glob()-ing.
     const std::string root_dir =
       package_.FullyQualifiedFile(project_->workspace(), ".");
-- 
2.43.0


From 07205fad8390589cb7cace415b42458082ad44ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:26 +0000
Subject: [PATCH 24/43] fix: clang-tidy cache: header contents must not cancel
 out in the cache key

The hashes of the included headers were combined with xor, so including the
same header twice, two headers of same content or swapped contents of two
headers resulted in the key of a different state and a stale result.
---
 scripts/run-clang-tidy-cached.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index 9cedb14..fd17725 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -174,12 +174,19 @@ std::string GetCommandOutput(const std::string &prog) {
 }
 
 hash_t hashContent(const std::string &s) { return std::hash<std::string>()(s); }
+
 std::string ToHex(uint64_t value, int show_lower_nibbles = 16) {
   char out[16 + 1];
   snprintf(out, sizeof(out), "%016" PRIx64, value);
   return out + (16 - show_lower_nibbles);
 }
 
+// Combine hashes such that order and number of occurences matter: neither
+// seeing the same hash twice nor swapping two of them cancel out.
+hash_t CombineHash(hash_t a, hash_t b) {
+  return hashContent(ToHex(a) + ToHex(b));
+}
+
 // Mapping filepath_contenthash_t to an actual location in the file system.
 class ContentAddressedStore {
  public:
@@ -394,9 +401,11 @@ class FileGatherer {
           IsIncludeExtension(extension)) {
         // Since the files might be included sloppily without prefix path,
         // just keep track of the basename (but since there might be collisions,
-        // accomodate all of them by xor-ing the hashes).
+        // accomodate all of them by adding the hashes, which depend on the path
+        // so that it matters which one of the files has which content).
         const std::string just_basename = p.filename();
-        header_hashes[just_basename] ^= hashContent(GetContent(p));
+        header_hashes[just_basename] +=
+          CombineHash(hashContent(file), hashContent(GetContent(p)));
       }
     }
     std::cerr << files_of_interest_.size() << " files of interest.\n";
@@ -417,7 +426,7 @@ class FileGatherer {
           const std::string header_basename = fs::path(header_path).filename();
           const auto found = header_hashes.find(header_basename);
           if (found != header_hashes.end()) {
-            work_file.second ^= found->second;
+            work_file.second = CombineHash(work_file.second, found->second);
           }
         }
       }
-- 
2.43.0


From 469e7647064406688211d7d11dea082a84685e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 25/43] fix: clang-tidy cache: recognize all quoted includes

Includes such as "../foo.h", "foo.pb.h" or without a space before the
quote were not seen; so changes in these headers were not noticed.
---
 scripts/run-clang-tidy-cached.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index fd17725..df64bb2 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -414,7 +414,7 @@ class FileGatherer {
     // If we want to revisit if headers changed, make hash dependent on them.
     std::list<filepath_contenthash_t> work_queue;
     const std::regex inc_re(
-        R"""(#\s*include\s+"([0-9a-zA-Z_/-]+\.[a-zA-Z]+)")""");
+        R"""(#\s*include\s*"([^"\n]+)")""");
     for (filepath_contenthash_t &work_file : files_of_interest_) {
       const auto content = GetContent(work_file.first);
       work_file.second = hashContent(content);
-- 
2.43.0


From 99d11bd78403f91199526767302f7bf044bdb8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 26/43] fix: clang-tidy cache: never process the same output
 concurrently

Two files with same name and content in different directories share their
cache file. Processing both at the same time had two workers write and rename
the same temporary file, which can result in an empty stored result or an
uncaught exception.
---
 scripts/run-clang-tidy-cached.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index df64bb2..82d1bba 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -50,6 +50,7 @@ B=${0%%.cc}; [ "$B" -nt "$0" ] || c++ -std=c++17 -o"$B" "$0" && exec "$B" "$@";
 #include <map>
 #include <mutex>
 #include <regex>
+#include <set>
 #include <string>
 #include <string_view>
 #include <system_error>
@@ -413,6 +414,7 @@ class FileGatherer {
     // Create content hash address for the cache and build list of work items.
     // If we want to revisit if headers changed, make hash dependent on them.
     std::list<filepath_contenthash_t> work_queue;
+    std::set<std::string> scheduled_outputs;
     const std::regex inc_re(
         R"""(#\s*include\s*"([^"\n]+)")""");
     for (filepath_contenthash_t &work_file : files_of_interest_) {
@@ -432,7 +434,10 @@ class FileGatherer {
       }
       // Recreate if we don't have it yet or if it contains findings but is
       // older than build environment. Maybe something got fixed: revisit file.
-      if (store_.NeedsRefresh(work_file, min_freshness)) {
+      // Files with same name, content and includes share one result; make sure
+      // to not have multiple workers write it at the same time.
+      if (store_.NeedsRefresh(work_file, min_freshness) &&
+          scheduled_outputs.insert(store_.PathFor(work_file).string()).second) {
         work_queue.emplace_back(work_file);
       }
     }
-- 
2.43.0


From 5b1bd635a6bc9f9df17a900cc3126fe0909ee6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:17 +0000
Subject: [PATCH 27/43] fix: prewarm cache: remember a path accessed both as
 file and as directory

---
 bant/util/filesystem-prewarm-cache.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bant/util/filesystem-prewarm-cache.cc b/bant/util/filesystem-prewarm-cache.cc
index a0db78d..f438dbc 100644
--- a/bant/util/filesystem-prewarm-cache.cc
+++ b/bant/util/filesystem-prewarm-cache.cc
@@ -34,6 +34,7 @@
 #include <string_view>
 #include <system_error>
 #include <thread>
+#include <utility>
 #include <vector>
 
 #include "absl/container/flat_hash_set.h"
@@ -111,8 +112,11 @@ class FilesystemPrewarmCache {
  private:
   void WritePrefixed(char prefix, std::string_view f) {
     if (!writer_) return;
-    if (!already_seen_.insert(std::string{f}).second) return;
-    *writer_ << prefix << f << "\n";
+    // The same path can be seen as file and as directory: both matter.
+    std::string entry = absl::StrCat(std::string_view(&prefix, 1), f);
+    const auto inserted = already_seen_.insert(std::move(entry));
+    if (!inserted.second) return;
+    *writer_ << *inserted.first << "\n";
   }
 
   std::unique_ptr<std::fstream> writer_;
-- 
2.43.0


From 792462f49a631172f80261921a6e9b4668a240f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:39 +0000
Subject: [PATCH 28/43] fix: compile flags: extract options from the given
 bazelrc content

---
 bant/tool/compilation-db.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/bant/tool/compilation-db.cc b/bant/tool/compilation-db.cc
index 746359f..54d6ffe 100644
--- a/bant/tool/compilation-db.cc
+++ b/bant/tool/compilation-db.cc
@@ -72,10 +72,7 @@ std::vector<std::string> ExtractOptionsFromBazelrc(std::string_view content) {
   static const LazyRE2 kCxxExtract{
     R"/(--(?:host_)?cxxopt\s*=?\s*['"]?(-[^\s"']+))/"};
   std::vector<std::string> result;
-  const auto bazelrc = ReadFileToString(FilesystemPath(".bazelrc"));
-  if (!bazelrc.has_value()) return result;
-
-  std::string_view run(*bazelrc);
+  std::string_view run(content);
   std::string_view cxx_opt;
   absl::flat_hash_set<std::string_view> already_seen;
 
@@ -87,7 +84,7 @@ std::vector<std::string> ExtractOptionsFromBazelrc(std::string_view content) {
 
   // Hack: when this is defined, this implies -DGTEST_HAS_ABSL
   static const LazyRE2 kAbslGtest{"define.*absl=1"};
-  if (RE2::PartialMatch(*bazelrc, *kAbslGtest)) {
+  if (RE2::PartialMatch(content, *kAbslGtest)) {
     result.emplace_back("-DGTEST_HAS_ABSL=1");
   }
 
-- 
2.43.0


From cec2e338ee04d3805895edfebef1817a6b03f760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:39 +0000
Subject: [PATCH 29/43] fix: compile flags: do not crash on include_prefix in
 the main project or a nameless target

---
 bant/tool/compilation-db.cc | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/bant/tool/compilation-db.cc b/bant/tool/compilation-db.cc
index 54d6ffe..3da9271 100644
--- a/bant/tool/compilation-db.cc
+++ b/bant/tool/compilation-db.cc
@@ -175,15 +175,19 @@ static std::vector<std::string> CollectIncDirs(const ParsedProject &project) {
         }
 
         // bazel generates virtual include dirs when "include_prefix" is set.
-        if (!details.include_prefix.empty()) {
-          // TODO: this might be different for external and not. Right now
-          // we're focused on external projects, such as protobuf that seems
-          // to use this feature.
-          const std::string_view external_project = target->package.project;
-          const std::string_view target_path = target->package.path;
-          const std::string virt_incdir = absl::StrCat(
-            "bazel-bin/external/", external_project.substr(1), "/", target_path,
-            "/_virtual_includes/", target->target_name);
+        if (target.has_value() && !details.include_prefix.empty()) {
+          const std::string &external_project = target->package.project;
+          const std::string &target_path = target->package.path;
+          std::string virt_incdir = "bazel-bin/";
+          if (!external_project.empty()) {
+            absl::StrAppend(&virt_incdir, "external/",
+                            external_project.substr(1), "/");
+          }
+          if (!target_path.empty()) {
+            absl::StrAppend(&virt_incdir, target_path, "/");
+          }
+          absl::StrAppend(&virt_incdir, "_virtual_includes/",
+                          target->target_name);
           if (already_seen.insert(virt_incdir).second) {
             result.emplace_back(virt_incdir);
           }
@@ -191,7 +195,9 @@ static std::vector<std::string> CollectIncDirs(const ParsedProject &project) {
 
         // If we depend on anything that looks like protobuf, apply this hack.
         const bool is_proto_library = details.rule == "proto_library";
-        ProtobufHack(*target, is_proto_library, &already_seen, result);
+        if (target.has_value()) {
+          ProtobufHack(*target, is_proto_library, &already_seen, result);
+        }
 
         // Now, let's check out the dependencies and see that all of the
         // referenced external projects are covered.
-- 
2.43.0


From 8a27ae1d5eaf75993b79d0281dd026f7d72fa0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:39 +0000
Subject: [PATCH 30/43] fix: compile flags: emit each include directory only
 once

---
 bant/tool/compilation-db.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/bant/tool/compilation-db.cc b/bant/tool/compilation-db.cc
index 3da9271..ee5f115 100644
--- a/bant/tool/compilation-db.cc
+++ b/bant/tool/compilation-db.cc
@@ -154,7 +154,8 @@ static std::vector<std::string> CollectIncDirs(const ParsedProject &project) {
 
   // All the -I (or more precisely: -iquote) directories.
   const BazelWorkspace &workspace = project.workspace();
-  absl::flat_hash_set<std::string> already_seen;
+  absl::flat_hash_set<std::string> already_seen(result.begin(), result.end());
+  absl::flat_hash_set<std::string> projects_seen;
   for (const auto &[_, parsed_package] : project.ParsedFiles()) {
     const BazelPackage &current_package = parsed_package->package;
     query::FindTargets(
@@ -213,19 +214,23 @@ static std::vector<std::string> CollectIncDirs(const ParsedProject &project) {
           if (external_project.empty()) {
             continue;  // Include path of our project is implicit
           }
-          if (!already_seen.insert(external_project).second) {
+          if (!projects_seen.insert(external_project).second) {
             continue;
           }
           auto ext_dir = workspace.FindPathByProject(external_project);
           if (!ext_dir.has_value()) continue;  // ¯\_(ツ)_/¯
 
           // Direct path provided into the sources.
-          result.emplace_back(ext_dir->path());
+          if (already_seen.insert(ext_dir->path()).second) {
+            result.emplace_back(ext_dir->path());
+          }
 
           // Generated files
           const std::string gen_inc =
             absl::StrCat("bazel-bin/external/", external_project.substr(1));
-          result.emplace_back(gen_inc);
+          if (already_seen.insert(gen_inc).second) {
+            result.emplace_back(gen_inc);
+          }
         }
       });
   }
-- 
2.43.0


From 3043f8b8085d6365d0677f4cb13b73170ecb3b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:39 +0000
Subject: [PATCH 31/43] fix: compilation db: emit valid JSON

---
 bant/tool/compilation-db.cc | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/bant/tool/compilation-db.cc b/bant/tool/compilation-db.cc
index ee5f115..73e303c 100644
--- a/bant/tool/compilation-db.cc
+++ b/bant/tool/compilation-db.cc
@@ -40,12 +40,21 @@
 
 namespace bant {
 
-// Make quoted strings a little less painful to print to C++ streams
+// Make JSON quoted strings a little less painful to print to C++ streams
 struct q {
   std::string_view value;
 };
 std::ostream &operator<<(std::ostream &out, const q &quoted_str) {
-  out << "\"" << quoted_str.value << "\"";
+  out << "\"";
+  for (const char c : quoted_str.value) {
+    if (c >= 0 && c < 0x20) {
+      out << "\\u00" << (c < 0x10 ? '0' : '1') << "0123456789abcdef"[c & 0xf];
+      continue;
+    }
+    if (c == '"' || c == '\\') out << '\\';
+    out << c;
+  }
+  out << "\"";
   return out;
 }
 
@@ -270,6 +279,7 @@ static void WriteCompilationDBEntry(const ParsedProject &project,
     const std::string abs_src =
       package.FullyQualifiedFile(project.workspace(), src);
     if (!already_written->insert(abs_src).second) continue;
+    if (already_written->size() > 1) out << ",\n";
     out << "  {\n";
     out << "    " << q{"file"} << ": " << q{abs_src} << ",\n";
     out << "    " << q{"arguments"} << ": [\n";
@@ -278,10 +288,10 @@ static void WriteCompilationDBEntry(const ParsedProject &project,
       out << "      " << q{option} << ",\n";
     }
     out << external_inc_json;
-    out << "      " << q{"-c"} << ", " << q{abs_src} << ",\n";
+    out << "      " << q{"-c"} << ", " << q{abs_src} << "\n";
     out << "     ],\n";
     out << "     " << q{"directory"} << ": " << q{cwd} << "\n";
-    out << "  },\n";
+    out << "  }";
   }
 }
 
@@ -317,6 +327,7 @@ static void WriteCompilationDB(Session &session, const ParsedProject &project,
                                 cwd, external_inc_json, &already_written, out);
       });
   }
+  if (!already_written.empty()) out << "\n";
   out << "]\n";
 }
 
-- 
2.43.0


From e3e7c92ba092df12379b213e4f06ca347383b7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:25 +0000
Subject: [PATCH 32/43] fix: print: grep expressions that match the empty
 string don't hang

---
 bant/frontend/print-visitor.cc | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/bant/frontend/print-visitor.cc b/bant/frontend/print-visitor.cc
index 129ddee..cb8f439 100644
--- a/bant/frontend/print-visitor.cc
+++ b/bant/frontend/print-visitor.cc
@@ -139,19 +139,28 @@ char ChooseQuote(std::string_view content, bool *triple) {
 }  // namespace
 
 void PrintVisitor::PrintMaybeHighlight(std::string_view print_str) {
-  const char *last_end = print_str.data();
-  std::string_view highlight;
+  size_t printed = 0;  // Everything up to here has been printed already.
   if (highlight_re_) {
-    while (RE2::FindAndConsume(&print_str, *highlight_re_, &highlight)) {
-      out_ << std::string_view(last_end, highlight.data() - last_end);
+    size_t pos = 0;
+    std::string_view highlight;
+    while (pos <= print_str.size() &&
+           highlight_re_->Match(print_str, pos, print_str.size(),
+                                RE2::UNANCHORED, &highlight, 1)) {
+      any_highlight_ = true;
+      pos = highlight.data() - print_str.data() + highlight.size();
+      if (highlight.empty()) {
+        ++pos;  // Nothing to highlight, but make sure to get ahead.
+        continue;
+      }
+      const size_t start = pos - highlight.size();
+      out_ << print_str.substr(printed, start - printed);
       if (do_color_) out_ << kColor.highlight;
       out_ << highlight;
       if (do_color_) out_ << kColor.reset_hightlight;
-      any_highlight_ = true;
-      last_end = print_str.data();
+      printed = pos;
     }
   }
-  out_ << std::string_view(last_end, print_str.end() - last_end);
+  out_ << print_str.substr(printed);
 }
 
 void PrintVisitor::VisitFunCall(FunCall *f) {
-- 
2.43.0


From 47edc71c08f7391237f7c0b7fa2cb60269455493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:58 +0000
Subject: [PATCH 33/43] fix: lib-headers: don't list headers without any
 selected library

---
 bant/explore/header-providers.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bant/explore/header-providers.cc b/bant/explore/header-providers.cc
index a67230c..1cc4629 100644
--- a/bant/explore/header-providers.cc
+++ b/bant/explore/header-providers.cc
@@ -446,6 +446,7 @@ void PrintProvidedSources(Session &session, const std::string &table_header,
     for (const BazelTarget &target : libs) {
       if (pattern.Match(target)) list.push_back(target.ToString());
     }
+    if (list.empty()) continue;  // Only provided by libraries not asked for.
     printer->AddRowWithRepeatedLastColumn({provided}, list);
   }
   printer->Finish();
-- 
2.43.0


From 421d2fed1590130efe885b62983e2bb835c89083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 34/43] fix: accept the documented -E option of print

---
 bant/bant.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bant/bant.cc b/bant/bant.cc
index 5dd0c82..2d2500e 100644
--- a/bant/bant.cc
+++ b/bant/bant.cc
@@ -149,7 +149,7 @@ int main(int argc, char *argv[]) {
     {"json", OutputFormat::kJSON},     {"graphviz", OutputFormat::kGraphviz},
   };
   int opt;
-  while ((opt = getopt(argc, argv, "C:qo:vhpecbf:r::Vkg:i")) != -1) {
+  while ((opt = getopt(argc, argv, "C:qo:vhpecEbf:r::Vkg:i")) != -1) {
     switch (opt) {
     case 'C': {
       std::error_code err;
-- 
2.43.0


From 4478c53aa08870f88715c101e490a5900e347368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 35/43] fix: -f with an empty format name silently chose csv

---
 bant/bant.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bant/bant.cc b/bant/bant.cc
index 2d2500e..11aa65e 100644
--- a/bant/bant.cc
+++ b/bant/bant.cc
@@ -202,7 +202,8 @@ int main(int argc, char *argv[]) {
     case 'e': flags.elaborate = true; break;
     case 'f': {
       auto found = kFormatOutNames.lower_bound(optarg);
-      if (found == kFormatOutNames.end() || !found->first.starts_with(optarg)) {
+      if (*optarg == '\0' ||  // beginning of all names, so not unique.
+          found == kFormatOutNames.end() || !found->first.starts_with(optarg)) {
         return usage(argv[0], "invalid -f format", EXIT_FAILURE);
       }
       flags.output_format = found->second;
-- 
2.43.0


From a068af91167577fb066ab2c427f87f3d5d83282a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 36/43] fix: clang-tidy script did not count checks with e.g.
 digits in their name

---
 scripts/run-clang-tidy-cached.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index 82d1bba..5ad1097 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -456,7 +456,7 @@ class FileGatherer {
     const fs::path tidy_summary = cache_dir / ("tidy-summary.out-" + suffix);
 
     // Assemble the separate outputs into a single file. Tally up per-check
-    const std::regex check_re("(\\[[a-zA-Z.-]+\\])\n");
+    const std::regex check_re("(\\[[a-zA-Z0-9.,+#=-]+\\])\n");
     std::map<std::string, int> checks_seen;
     std::ofstream tidy_collect(tidy_outfile);
     for (const filepath_contenthash_t &f : files_of_interest_) {
-- 
2.43.0


From 9efd7ba36ea72225fcee2dbb14136c28ec4123f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 37/43] fix: clang-tidy script could not deal with special
 characters in project path

---
 scripts/run-clang-tidy-cached.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index 5ad1097..c44becf 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -336,6 +336,11 @@ class ClangTidyRunner {
                                 ToHex(cache_unique_id, 8));
   }
 
+  // Quote everything in "s" that could have a special meaning in a regex.
+  static std::string QuoteRegex(const std::string &s) {
+    return std::regex_replace(s, std::regex{"[^a-zA-Z0-9/_-]"}, "\\$&");
+  }
+
   // Fix filename paths found in logfiles that are not emitted relative to
   // project root in the log - remove that prefix.
   // (bazel has its own, so if this is bazel, also bazel-specific fix up that).
@@ -347,10 +352,11 @@ class ClangTidyRunner {
         auto bzroot = GetCommandOutput("bazel info execution_root 2>/dev/null");
         if (!bzroot.empty()) {
           bzroot.pop_back();  // remove newline.
-          canonicalize_expr += bzroot + "/|";
+          canonicalize_expr += QuoteRegex(bzroot) + "/|";
         }
       }
-      canonicalize_expr += fs::current_path().string() + "/";  // $(pwd)/
+      canonicalize_expr +=
+        QuoteRegex(fs::current_path().string()) + "/";  // $(pwd)/
       canonicalize_expr +=
         ")?(\\./)?";  // Some start with, or have a trailing ./
       return std::regex{canonicalize_expr};
-- 
2.43.0


From 333525562bb654fce120b20a1f0c418db547a02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 38/43] fix: dwyu suggested removing dependencies if it does
 not know all sources

If srcs or hdrs contain something that can not be evaluated, such as
variables, we don't know all the includes.
---
 bant/tool/dwyu.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index 730785c..a8421ce 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -421,13 +421,30 @@ DWYUGenerator::DependenciesNeededBySources(
   return result;
 }
 
+// Do we know all the files the rule is composed of ? This is not the case if
+// there is something left that we couldn't elaborate, such as a variable.
+static bool AllFilesKnown(FunCall *rule) {
+  for (Node *element : *rule->argument()) {
+    Assignment *attribute = element ? element->CastAsAssignment() : nullptr;
+    if (!attribute || !attribute->maybe_identifier()) continue;
+    const std::string_view name = attribute->maybe_identifier()->id();
+    if (name != "srcs" && name != "hdrs") continue;
+    List *files = attribute->value() ? attribute->value()->CastAsList() : nullptr;
+    if (!files) return false;
+    for (Node *file : *files) {
+      if (!file || !file->CastAsScalar()) return false;
+    }
+  }
+  return true;
+}
+
 void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
                                          const query::Result &details,
                                          const ParsedBuildFile &build_file) {
   // Looking at the include files the sources reference, map these back
   // to the dependencies that provide them: these are the deps we
   // needed.
-  bool all_header_deps_known = true;
+  bool all_header_deps_known = AllFilesKnown(details.node);
 
   // Collect sources and headers provided by this library.
   auto sources = query::ExtractStringList(details.srcs_list);
-- 
2.43.0


From c8abcc1cb5aefc5f1b0c92754fa786e502aa65dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 39/43] fix: dwyu did not look at includes of textual_hdrs and
 public_hdrs

---
 bant/tool/dwyu.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index a8421ce..e9a4b8d 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -428,8 +428,12 @@ static bool AllFilesKnown(FunCall *rule) {
     Assignment *attribute = element ? element->CastAsAssignment() : nullptr;
     if (!attribute || !attribute->maybe_identifier()) continue;
     const std::string_view name = attribute->maybe_identifier()->id();
-    if (name != "srcs" && name != "hdrs") continue;
-    List *files = attribute->value() ? attribute->value()->CastAsList() : nullptr;
+    if (name != "srcs" && name != "hdrs" && name != "textual_hdrs" &&
+        name != "public_hdrs") {
+      continue;
+    }
+    List *files =
+      attribute->value() ? attribute->value()->CastAsList() : nullptr;
     if (!files) return false;
     for (Node *file : *files) {
       if (!file || !file->CastAsScalar()) return false;
@@ -449,6 +453,8 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
   // Collect sources and headers provided by this library.
   auto sources = query::ExtractStringList(details.srcs_list);
   query::AppendStringList(details.hdrs_list, sources);
+  query::AppendStringList(details.textual_hdrs, sources);
+  query::AppendStringList(details.public_hdrs, sources);
 
   // Grep for all includes they use to determine which deps we need
   bool all_providers_decided = true;
-- 
2.43.0


From 071729a3ac412be26a26773a70555fa26b6a3a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:45 +0000
Subject: [PATCH 40/43] fix: header given as :label was listed with the colon
 if there is an include_prefix

---
 bant/explore/header-providers.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bant/explore/header-providers.cc b/bant/explore/header-providers.cc
index 1cc4629..680bb74 100644
--- a/bant/explore/header-providers.cc
+++ b/bant/explore/header-providers.cc
@@ -133,8 +133,10 @@ static void IterateCCLibraryHeaders(const ParsedBuildFile &build_file,
         if (absl_string_view_skip && header == "string_view.h") continue;
 
         if (!cc_lib.include_prefix.empty()) {  // cc_library() dictates path.
+          std::string_view local_header = header;
+          if (local_header.starts_with(':')) local_header.remove_prefix(1);
           callback(*cc_library, header,
-                   absl::StrCat(cc_lib.include_prefix, "/", header));
+                   absl::StrCat(cc_lib.include_prefix, "/", local_header));
           continue;
         }
 
-- 
2.43.0


From e1053e8f9135681388c7910049b5d17b6277f49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:09 +0000
Subject: [PATCH 41/43] fix: aliased-by did not follow dependencies with -r as
 documented

---
 bant/cli-commands.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bant/cli-commands.cc b/bant/cli-commands.cc
index 8e06b15..36f506a 100644
--- a/bant/cli-commands.cc
+++ b/bant/cli-commands.cc
@@ -147,6 +147,7 @@ CliStatus RunCommand(Session &session, Command cmd,
   switch (cmd) {
   case Command::kDWYU:
   case Command::kParse:
+  case Command::kAliasedBy:
   case Command::kLibraryHeaders:
   case Command::kGenruleOutputs:
   case Command::kListTargets:
-- 
2.43.0


From ffcadab66d4318d0c1813aa8bebc425818697f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:59 +0000
Subject: [PATCH 42/43] fix: with BUILD and BUILD.bazel in a directory, which
 one is used depended on the listing order

---
 bant/explore/dependency-graph.cc |  3 ++-
 bant/frontend/parsed-project.cc  | 19 ++++++++++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/bant/explore/dependency-graph.cc b/bant/explore/dependency-graph.cc
index bfcfad0..c07eab3 100644
--- a/bant/explore/dependency-graph.cc
+++ b/bant/explore/dependency-graph.cc
@@ -59,7 +59,8 @@ std::optional<FilesystemPath> PathForPackage(Session &session,
     start_path.append(package.path);
   }
   const ScopedTimer timer(&stat.duration);
-  for (const std::string_view build_file : {"BUILD", "BUILD.bazel"}) {
+  // Same precedence as in bazel.
+  for (const std::string_view build_file : {"BUILD.bazel", "BUILD"}) {
     FilesystemPath test_path(start_path, build_file);
     ++stat.count;
     if (test_path.can_read()) return test_path;
diff --git a/bant/frontend/parsed-project.cc b/bant/frontend/parsed-project.cc
index 591fd29..5d64896 100644
--- a/bant/frontend/parsed-project.cc
+++ b/bant/frontend/parsed-project.cc
@@ -17,6 +17,7 @@
 
 #include "bant/frontend/parsed-project.h"
 
+#include <algorithm>
 #include <cstddef>
 #include <cstdlib>
 #include <iostream>
@@ -110,7 +111,23 @@ std::vector<FilesystemPath> CollectBuildFiles(Session &session,
 
   auto dir_or = DetermineSearchDirFromPattern(workspace, pattern);
   if (!dir_or) return {};
-  return CollectFilesRecursive(*dir_or, dir_predicate, is_build_file_predicate);
+  auto build_files =
+    CollectFilesRecursive(*dir_or, dir_predicate, is_build_file_predicate);
+
+  // Don't depend on the sequence the filesystem lists files. If there are
+  // both, BUILD and BUILD.bazel in the same directory, bazel uses the latter,
+  // so it has to be first.
+  const auto dir_of = [](const FilesystemPath &file) {
+    const std::string_view path = file.path();
+    return path.substr(0, path.length() - file.filename().length());
+  };
+  std::sort(build_files.begin(), build_files.end(),
+            [&](const FilesystemPath &a, const FilesystemPath &b) {
+              const int dir_order = dir_of(a).compare(dir_of(b));
+              return dir_order != 0 ? dir_order < 0
+                                    : a.filename() > b.filename();
+            });
+  return build_files;
 }
 }  // namespace
 
-- 
2.43.0


From d1dd8bb8c06d430b127a118d35f967f0bfc095f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:59 +0000
Subject: [PATCH 43/43] fix: sequence of glob() results depended on the
 directory listing order

---
 bant/frontend/elaboration.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bant/frontend/elaboration.cc b/bant/frontend/elaboration.cc
index bee9010..48369b3 100644
--- a/bant/frontend/elaboration.cc
+++ b/bant/frontend/elaboration.cc
@@ -17,6 +17,7 @@
 
 #include "bant/frontend/elaboration.h"
 
+#include <algorithm>
 #include <cstddef>
 #include <cstring>
 #include <string>
@@ -320,6 +321,12 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
         return file_matcher(std::string_view(file.path()).substr(skip_prefix));
       });
     glob_stats.count += checked_files;
+
+    // Like bazel, and independent of the sequence the filesystem lists files.
+    std::sort(result.begin(), result.end(),
+              [](const FilesystemPath &a, const FilesystemPath &b) {
+                return a.path() < b.path();
+              });
     return result;
   }
 
-- 
2.43.0

