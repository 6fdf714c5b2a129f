From c4e2ada926e4b82b9790aa73014ef83c2d02bef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:10 +0000
Subject: [PATCH 001/106] fix: escape delimiters in ASCII strings written by
 the object formatter

---
 src/objectformatter.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/objectformatter.cpp b/src/objectformatter.cpp
index 6443a75..3f9d785 100644
--- a/src/objectformatter.cpp
+++ b/src/objectformatter.cpp
@@ -163,10 +163,7 @@ void ObjectFormatter::check_indent() {
 }
 
 void ObjectFormatter::add_pdfstring(const asciistring &str) {
-    // FIXME: add quoting for special characters.
-    check_indent();
-    std::format_to(app, "({})", str.c_str());
-    added_item();
+    add_token(pdfstring_quote(str.sv()));
 }
 
 void ObjectFormatter::add_bytestring(const std::string_view str) {
-- 
2.43.0


From 0692cdcdda9ae316b6dcfc546b2e1c32d439bdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:10 +0000
Subject: [PATCH 002/106] fix: count byte strings only once when formatting
 objects

---
 src/objectformatter.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/objectformatter.cpp b/src/objectformatter.cpp
index 3f9d785..3f57336 100644
--- a/src/objectformatter.cpp
+++ b/src/objectformatter.cpp
@@ -169,7 +169,6 @@ void ObjectFormatter::add_pdfstring(const asciistring &str) {
 void ObjectFormatter::add_bytestring(const std::string_view str) {
     auto quoted = pdfstring_quote(str);
     add_token(quoted);
-    added_item();
 }
 
 void ObjectFormatter::add_utf8_string(const u8string &ustr) {
-- 
2.43.0


From f27c5c884f1c41513b1536f76058fe871f425801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:10 +0000
Subject: [PATCH 003/106] fix: separate boolean tokens from what follows them

---
 src/objectformatter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/objectformatter.cpp b/src/objectformatter.cpp
index 3f57336..49277ee 100644
--- a/src/objectformatter.cpp
+++ b/src/objectformatter.cpp
@@ -98,6 +98,7 @@ void ObjectFormatter::add_token(uint64_t number) {
 void ObjectFormatter::add_token(bool value) {
     check_indent();
     buf += value ? "true" : "false";
+    added_item();
 }
 
 void ObjectFormatter::add_token_with_slash(const char *name) {
-- 
2.43.0


From 61e7afdfaddce90071a5c8f185438f0570062138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:10 +0000
Subject: [PATCH 004/106] fix: escape carriage returns in literal strings

---
 src/utils.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/utils.cpp b/src/utils.cpp
index 1c55548..dcc2d1d 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -276,6 +276,10 @@ std::string pdfstring_quote(std::string_view raw_string) {
         case '\\':
             result.push_back('\\');
             break;
+        case '\r':
+            // An unescaped carriage return would be read as a line feed.
+            result += "\\r";
+            continue;
         default:
             break;
         }
@@ -302,6 +306,10 @@ std::string u8str2u8textstring(std::string_view u8string) {
         case '\\':
             result.push_back('\\');
             break;
+        case '\r':
+            // An unescaped carriage return would be read as a line feed.
+            result += "\\r";
+            continue;
         default:
             break;
         }
@@ -326,6 +334,9 @@ std::string u8str2filespec(const u8string &str) {
         case '\\':
             result.push_back('\\');
             break;
+        case '\r':
+            result += "\\r";
+            continue;
         case '/':
             result += escaped_slash;
             break;
-- 
2.43.0


From 2e99f3ebb166c66244053443c869ea71e91c31ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:10 +0000
Subject: [PATCH 005/106] fix: do not duplicate slashes in file specification
 strings

---
 src/utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index dcc2d1d..6adba0a 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -321,7 +321,7 @@ std::string u8str2u8textstring(std::string_view u8string) {
 
 std::string u8str2filespec(const u8string &str) {
     std::string result;
-    const char escaped_slash[4] = {'\\', '\\', '/', 0};
+    const char escaping_backslash[3] = {'\\', '\\', 0};
     result.reserve(str.size() + 10);
     result.push_back('(');
     result.push_back(char(239));
@@ -338,7 +338,7 @@ std::string u8str2filespec(const u8string &str) {
             result += "\\r";
             continue;
         case '/':
-            result += escaped_slash;
+            result += escaping_backslash;
             break;
         default:
             break;
-- 
2.43.0


From 0ca69bd013c5ce038d614998ddc0e8e55fb9cf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:10 +0000
Subject: [PATCH 006/106] fix: escape all delimiter characters in names

---
 src/utils.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 6adba0a..8052c3e 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -77,10 +77,22 @@ bool needs_quoting(const unsigned char c) {
     if(c < '!' || c > '~') {
         return true;
     }
-    if(c == '#' || c == '(' || c == ')' || c == ' ' || c == '/') {
+    switch(c) {
+    case '#':
+    case '(':
+    case ')':
+    case '<':
+    case '>':
+    case '[':
+    case ']':
+    case '{':
+    case '}':
+    case '/':
+    case '%':
         return true;
+    default:
+        return false;
     }
-    return false;
 }
 
 template<typename T> rvoe<T> do_file_load(FILE *f) {
-- 
2.43.0


From ef922a0467a338470ad6e7e58006b8f91c0fbc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:10 +0000
Subject: [PATCH 007/106] fix: use the correct XML entity for ampersands

---
 src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 8052c3e..a69887a 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -475,7 +475,7 @@ void quote_xml_element_data_unchecked_into(const std::string_view &content, std:
             result += "&gt;";
             break;
         case '&':
-            result += "&quot;";
+            result += "&amp;";
             break;
         default:
             result += c;
-- 
2.43.0


From e118f6c08ef9be95539e7635b1caf03ba73c4c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:10 +0000
Subject: [PATCH 008/106] fix: reject overlong, surrogate and out of range
 UTF-8 sequences

---
 src/utils.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index a69887a..c7f2047 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -58,7 +58,14 @@ bool is_valid_uf8_character(std::string_view input, size_t cur, const UtfDecodeS
         unpacked |= subsequent & subsequent_data_mask;
     }
 
-    return true;
+    // Reject overlong encodings, surrogates and values outside Unicode.
+    if(par.num_subsequent_bytes == 1) {
+        return unpacked >= 0x80;
+    }
+    if(par.num_subsequent_bytes == 2) {
+        return unpacked >= 0x800 && (unpacked < 0xD800 || unpacked > 0xDFFF);
+    }
+    return unpacked >= 0x10000 && unpacked <= 0x10FFFF;
 }
 
 void append_glyph_to_utf16be(uint32_t glyph, std::vector<uint16_t> &u16buf) {
-- 
2.43.0


From 781686826b59fa548d4f9be7dd046b0f41732665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:19 +0000
Subject: [PATCH 009/106] fix: write a valid name as output intent type

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index d236ff2..ce7f0e9 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1154,7 +1154,7 @@ void PdfDocument::create_output_intent() {
     const char *gts =
         std::holds_alternative<CapyPDF_PDFX_Type>(docprops.subtype) ? "/GTS_PDFX" : "/GTS_PDFA1";
     fmt.begin_dict();
-    fmt.add_token_pair("/Type", "OutputIntent");
+    fmt.add_token_pair("/Type", "/OutputIntent");
     fmt.add_token_pair("/S", gts);
     fmt.add_token("/OutputConditionIdentifier");
     fmt.add_token(utf8_to_pdfutf16be(docprops.intent_condition_identifier));
-- 
2.43.0


From f6348d7500cd7aca33c7f8b5f8af5e9997f449bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:19 +0000
Subject: [PATCH 010/106] fix: write structure parent tree as an indirect
 reference

---
 src/document.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index ce7f0e9..1fb50fb 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1269,7 +1269,8 @@ void PdfDocument::create_structure_root_dict() {
     fmt.begin_array();
     fmt.add_object_ref(structure_items[rootobj->id].obj_id);
     fmt.end_array();
-    fmt.add_token_pair("/ParentTree", structure_parent_tree_object.value());
+    fmt.add_token("/ParentTree");
+    fmt.add_object_ref(structure_parent_tree_object.value());
     fmt.add_token_pair("/ParentTreeNextKey", structure_parent_tree_items.size());
     if(!rolemap.empty()) {
         fmt.add_token("/RoleMap");
-- 
2.43.0


From 6d3ca1b2ac3583bb3c631fe430c0214bb9a4e4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:19 +0000
Subject: [PATCH 011/106] fix: write role map targets as names

---
 src/document.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 1fb50fb..92c973a 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1276,7 +1276,8 @@ void PdfDocument::create_structure_root_dict() {
         fmt.add_token("/RoleMap");
         fmt.begin_dict();
         for(const auto &i : rolemap) {
-            fmt.add_token_pair(bytes2pdfstringliteral(i.name), structure_type_names.at(i.builtin));
+            fmt.add_token(bytes2pdfstringliteral(i.name));
+            fmt.add_token_with_slash(structure_type_names.at(i.builtin));
         }
         fmt.end_dict();
     }
-- 
2.43.0


From 890a89151a7f6a3bc36f60e65e8636edfc2959e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:19 +0000
Subject: [PATCH 012/106] fix: write page label styles as names

---
 src/document.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 92c973a..d813348 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -27,12 +27,12 @@ const std::array<const char *, 3> colorspace_names{
     "/DeviceCMYK",
 };
 
-const std::array<const char, 5> page_label_types{
-    'D', // Decimal
-    'R', // Roman Upper
-    'r', // Roman Lower
-    'A', // Letter Upper
-    'a', // Letter Lower
+const std::array<const char *, 5> page_label_types{
+    "/D", // Decimal
+    "/R", // Roman Upper
+    "/r", // Roman Lower
+    "/A", // Letter Upper
+    "/a", // Letter Lower
 };
 
 const std::array<const char *, 21> spot_function_names{
-- 
2.43.0


From 91d7dcb5e7335ba031b5d07147d1edc3a3728176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:19 +0000
Subject: [PATCH 013/106] fix: put NeedAppearances in the interactive form
 dictionary

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index d813348..a111b7b 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1080,8 +1080,8 @@ rvoe<NoReturnValue> PdfDocument::create_catalog() {
             }
         }
         fmt.end_array();
-        fmt.end_dict();
         fmt.add_token_pair("/NeedAppearances", "true");
+        fmt.end_dict();
     }
     if(!ocg_items.empty()) {
         fmt.add_token("/OCProperties");
-- 
2.43.0


From 6b26a7a60b768b5bb9a96387f7fb58ef36175cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:19 +0000
Subject: [PATCH 014/106] fix: use the correct key for viewport bounding boxes

---
 src/pdfwriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index a384b57..159b5c9 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -189,7 +189,7 @@ void serialize_viewports(ObjectFormatter &fmt, const std::vector<Viewport> &vps)
         fmt.begin_dict();
         fmt.add_token_pair("/Type", "/Viewport");
         if(vp.bbox) {
-            fmt.write_rectangle("bbox", vp.bbox.value());
+            fmt.write_rectangle("BBox", vp.bbox.value());
         }
         if(!vp.name.empty()) {
             fmt.add_token("/Name");
-- 
2.43.0


From 3fb47d82fb6b2da3eaded92bd74ae46e72aebf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:19 +0000
Subject: [PATCH 015/106] fix: use the correct graphics state dictionary keys

---
 src/document.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index a111b7b..973d1d4 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1685,13 +1685,14 @@ rvoe<CapyPDF_GraphicsStateId> PdfDocument::add_graphics_state(const GraphicsStat
         fmt.add_token_pair("/ML", *state.ML);
     }
     if(state.RI) {
-        fmt.add_token_pair("/RenderingIntent", rendering_intent_names.at(*state.RI));
+        fmt.add_token("/RI");
+        fmt.add_token_with_slash(rendering_intent_names.at(*state.RI));
     }
     if(state.OP) {
         fmt.add_token_pair("/OP", *state.OP ? "true" : "false");
     }
     if(state.op) {
-        fmt.add_token_pair("/op2", *state.op ? "true" : "false");
+        fmt.add_token_pair("/op", *state.op ? "true" : "false");
     }
     if(state.OPM) {
         fmt.add_token_pair("/OPM", *state.OPM);
@@ -1734,7 +1735,7 @@ rvoe<CapyPDF_GraphicsStateId> PdfDocument::add_graphics_state(const GraphicsStat
         fmt.add_token_pair("/ca", state.ca->v());
     }
     if(state.AIS) {
-        fmt.add_token_pair("/AIS {}", *state.AIS ? "true" : "false");
+        fmt.add_token_pair("/AIS", *state.AIS ? "true" : "false");
     }
     if(state.TK) {
         fmt.add_token_pair("/TK", *state.TK ? "true" : "false");
-- 
2.43.0


From 56dfef0c5420870c10b5837faa77fcc30aa8ac01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:19 +0000
Subject: [PATCH 016/106] fix: use the predefined names of inverted spot
 functions

---
 src/document.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 973d1d4..ff02991 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -37,22 +37,22 @@ const std::array<const char *, 5> page_label_types{
 
 const std::array<const char *, 21> spot_function_names{
     "/SimpleDot",
-    "/Inverted_SimpleDot",
+    "/InvertedSimpleDot",
     "/DoubleDot",
-    "/Inverted_DoubleDot",
+    "/InvertedDoubleDot",
     "/CosineDot",
     "/Double",
-    "/Inverted_Double",
+    "/InvertedDouble",
     "/Line",
     "/LineX",
     "/LineY",
     "/Round",
     "/Ellipse",
     "/EllipseA",
-    "/Inverted_EllipseA",
+    "/InvertedEllipseA",
     "/EllipseB",
     "/EllipseC",
-    "/Inverted_EllipseC",
+    "/InvertedEllipseC",
     "/Square",
     "/Cross",
     "/Rhomboid",
-- 
2.43.0


From f5b0c6f9e21830c94e7e3c970afc5f8af9b95d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:19 +0000
Subject: [PATCH 017/106] fix: use the predefined names of bold Times and
 Courier

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index ff02991..9266e70 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -95,7 +95,7 @@ const std::array<const char *, 14> font_names{
     "/Helvetica",
     "/Courier",
     "/Symbol",
-    "/Times-Roman-Bold",
+    "/Times-Bold",
     "/Helvetica-Bold",
     "/Courier-Bold",
     "/ZapfDingbats",
-- 
2.43.0


From 9a948f69ae0ac6bd6ec458e8d241fa5bfc863c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:19 +0000
Subject: [PATCH 018/106] fix: cover all collection field subtypes

---
 src/document.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 9266e70..f78f265 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -150,7 +150,10 @@ const std::array<const char *, 3> blackpt_names{
     "/DEFAULT",
 };
 
-const std::array<const char *, 6> collection_view_subtype_names{
+const std::array<const char *, 9> collection_view_subtype_names{
+    "/S",
+    "/D",
+    "/N",
     "/F",
     "/Desc",
     "/ModDate",
-- 
2.43.0


From 74b7063c6d3d176ea2601cadb5e756718c9ed56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:09 +0000
Subject: [PATCH 019/106] fix: do not write the length of mesh shading streams
 twice

---
 src/document.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index f78f265..893818c 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1953,7 +1953,6 @@ rvoe<int32_t> PdfDocument::serialize_shading(const ShadingType4 &shade) {
     fmt.add_token_pair("/BitsPerCoordinate", 32);
     fmt.add_token_pair("/BitsPerComponent", 16);
     fmt.add_token_pair("/BitsPerFlag", 8);
-    fmt.add_token_pair("/Length", serialized.length());
     fmt.add_token("/Decode");
     fmt.begin_array(2);
     fmt.add_token(shade.minx);
@@ -1989,7 +1988,6 @@ rvoe<int32_t> PdfDocument::serialize_shading(const ShadingType6 &shade) {
     fmt.add_token_pair("/BitsPerCoordinate", 32);
     fmt.add_token_pair("/BitsPerComponent", 16);
     fmt.add_token_pair("/BitsPerFlag", 8);
-    fmt.add_token_pair("/Length", serialized.length());
     fmt.add_token("/Decode");
     fmt.begin_array(2);
     fmt.add_token(shade.minx);
-- 
2.43.0


From 6046638d9380dd68b2c1e1dba582eb96ee877f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:09 +0000
Subject: [PATCH 020/106] fix: write embedded file subtype and file name
 correctly

---
 src/document.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 893818c..b2b001c 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -2089,8 +2089,8 @@ rvoe<CapyPDF_EmbeddedFileId> PdfDocument::embed_file(EmbeddedFile &ef) {
         fmt.begin_dict();
         fmt.add_token_pair("/Type", "/EmbeddedFile");
         if(!ef.subtype.empty()) {
-            auto quoted = pdfname_quote(ef.subtype.sv());
-            fmt.add_token_pair("/Subtype", quoted);
+            fmt.add_token("/Subtype");
+            fmt.add_token(bytes2pdfstringliteral(ef.subtype.sv()));
         }
         fileobj_id = add_object(DeflatePDFObject{std::move(fmt), RawData(std::move(ef.contents))});
     }
@@ -2099,7 +2099,10 @@ rvoe<CapyPDF_EmbeddedFileId> PdfDocument::embed_file(EmbeddedFile &ef) {
         ObjectFormatter fmt;
         fmt.begin_dict();
         fmt.add_token_pair("/Type", "/Filespec");
-        fmt.add_token_pair("/F", pdfstring_quote(ef.pdfname.sv()));
+        fmt.add_token("/F");
+        fmt.add_token(u8str2filespec(ef.pdfname));
+        fmt.add_token("/UF");
+        fmt.add_token(u8str2filespec(ef.pdfname));
         fmt.add_token("/EF");
         fmt.begin_dict();
         fmt.add_token("/F");
-- 
2.43.0


From 6be0170f9f400fdd02399bb86847f1da4794503e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:43 +0000
Subject: [PATCH 021/106] fix: write optional content group names as text
 strings

---
 src/capi.cpp      | 7 +++++--
 src/document.cpp  | 3 ++-
 src/pdfcommon.hpp | 2 +-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index cea91c4..6a80413 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -1938,9 +1938,12 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_transition_destroy(CapyPDF_Transition *transition
 CAPYPDF_PUBLIC CapyPDF_EC capy_optional_content_group_new(CapyPDF_OptionalContentGroup **out_ptr,
                                                           const char *name) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
-    // FIXME check for ASCIIness (or even more strict?)
+    auto rc = validate_utf8(name, -1);
+    if(!rc) {
+        return conv_err(rc);
+    }
     auto *ocg = new OptionalContentGroup();
-    ocg->name = name;
+    ocg->name = std::move(rc.value());
     *out_ptr = ocg;
     RETNOERR;
     API_BOUNDARY_END;
diff --git a/src/document.cpp b/src/document.cpp
index b2b001c..7dc943b 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -2158,7 +2158,8 @@ PdfDocument::add_optional_content_group(const OptionalContentGroup &g) {
     ObjectFormatter fmt;
     fmt.begin_dict();
     fmt.add_token_pair("/Type", "/OCG");
-    fmt.add_token_pair("/Name", pdfstring_quote(g.name));
+    fmt.add_token("/Name");
+    fmt.add_utf8_string(g.name);
     fmt.end_dict();
     auto id = add_object(FullPDFObject{fmt.steal(), {}});
     ocg_items.push_back(id);
diff --git a/src/pdfcommon.hpp b/src/pdfcommon.hpp
index 0e0473e..b8100b5 100644
--- a/src/pdfcommon.hpp
+++ b/src/pdfcommon.hpp
@@ -565,7 +565,7 @@ struct Transition : public _capyPDF_Transition {
 };
 
 struct OptionalContentGroup : public _capyPDF_OptionalContentGroup {
-    std::string name;
+    u8string name;
     // std::string intent;
     //  Usage usage;
 };
-- 
2.43.0


From abd7cbcbd921f8b094eda18622efe8dcaacaa50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:43 +0000
Subject: [PATCH 022/106] fix: escape special characters in names

---
 src/pdfcommon.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/pdfcommon.cpp b/src/pdfcommon.cpp
index f4d3360..949cbda 100644
--- a/src/pdfcommon.cpp
+++ b/src/pdfcommon.cpp
@@ -122,18 +122,16 @@ rvoe<asciistring> asciistring::from_view(std::string_view sv) {
 }
 
 rvoe<PdfName> PdfName::from_view(std::string_view sv) {
-    if(sv.size() < 2) {
+    if(sv.starts_with('/')) {
+        sv.remove_prefix(1);
+    }
+    if(sv.empty()) {
         RETERR(InvalidBufsize);
     }
     if(sv.find('\0') != std::string_view::npos) {
         RETERR(EmbeddedNullInString);
     }
-    if(sv[0] != '/') {
-        std::string slashed = "/";
-        slashed += sv;
-        return PdfName(std::move(slashed));
-    }
-    return PdfName(sv);
+    return PdfName(bytes2pdfstringliteral(sv));
 }
 
 rvoe<u8string> u8string::from_cstr(const char *cstr) {
-- 
2.43.0


From 6c68275abd8cb5c0b4237ee5792d324d3abf4898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:43 +0000
Subject: [PATCH 023/106] fix: do not read past the end of strings given with
 an explicit size

---
 src/capi.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index 6a80413..6229560 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -59,14 +59,18 @@ template<typename T> [[nodiscard]] CapyPDF_EC conv_err(const rvoe<T> &rc) {
 }
 
 rvoe<std::string> validate_cstring(const char *buf, int32_t strsize) {
+    if(!buf) {
+        RETERR(ArgIsNull);
+    }
     if(strsize < -1) {
         RETERR(InvalidBufsize);
     }
-    std::string converted = buf;
-    if(strsize != -1) {
-        if(converted.size() != (size_t)strsize) {
-            RETERR(EmbeddedNullInString);
-        }
+    if(strsize == -1) {
+        return std::string(buf);
+    }
+    std::string converted(buf, strsize);
+    if(converted.find('\0') != std::string::npos) {
+        RETERR(EmbeddedNullInString);
     }
     return converted;
 }
-- 
2.43.0


From ce3fb8e9f08f6a4d18823b5ccac28bb3b868766a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:43 +0000
Subject: [PATCH 024/106] fix: escape collection schema keys

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 7dc943b..807a012 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1123,7 +1123,7 @@ rvoe<NoReturnValue> PdfDocument::create_catalog() {
             fmt.begin_dict();
             const auto &schema = c.schema.value();
             for(const auto &[key, value] : schema.entries) {
-                fmt.add_token_with_slash(key.c_str());
+                fmt.add_token(bytes2pdfstringliteral(key.sv()));
                 fmt.begin_dict();
                 fmt.add_token("/Subtype");
                 fmt.add_token(collection_view_subtype_names.at(value.subtype));
-- 
2.43.0


From 5e93098c526dcafed1a461bcac581722fa48e226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:43 +0000
Subject: [PATCH 025/106] fix: escape marked content tags and property list
 entries

---
 src/capi.cpp                   |  6 +++++-
 src/commandstreamformatter.cpp | 10 ++++++----
 src/drawcontext.cpp            |  2 +-
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index 6229560..b957bc8 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -1021,7 +1021,11 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_BDC_testing(CapyPDF_DrawContext *ctx,
     if(!astr) {
         return conv_err(astr.error());
     }
-    return conv_err(dc->cmd_BDC(astr.value(), {}, tags ? &tags->tags : nullptr));
+    auto quoted = asciistring::from_cstr(bytes2pdfstringliteral(astr.value().sv(), false));
+    if(!quoted) {
+        return conv_err(quoted.error());
+    }
+    return conv_err(dc->cmd_BDC(quoted.value(), {}, tags ? &tags->tags : nullptr));
     API_BOUNDARY_END;
 }
 
diff --git a/src/commandstreamformatter.cpp b/src/commandstreamformatter.cpp
index 86462b1..47f4f88 100644
--- a/src/commandstreamformatter.cpp
+++ b/src/commandstreamformatter.cpp
@@ -2,6 +2,7 @@
 // Copyright 2025 Jussi Pakkanen
 
 #include <commandstreamformatter.hpp>
+#include <utils.hpp>
 #include <format>
 #include <cassert>
 
@@ -61,11 +62,12 @@ void CommandStreamFormatter::append_dict_entry(std::string_view key, int32_t val
 }
 
 void CommandStreamFormatter::append_dict_entry_string(const char *key, const char *value) {
-    if(key[0] == '/') {
-        std::format_to(appender, "{}{} ({})\n", lead, key, value);
-    } else {
-        std::format_to(appender, "{}/{} ({})\n", lead, key, value);
+    std::string_view keyname(key);
+    if(keyname.starts_with('/')) {
+        keyname.remove_prefix(1);
     }
+    std::format_to(
+        appender, "{}{} {}\n", lead, bytes2pdfstringliteral(keyname), pdfstring_quote(value));
 }
 
 rvoe<NoReturnValue> CommandStreamFormatter::BT() {
diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 1559156..c8e707a 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -333,7 +333,7 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_BMC(std::string_view tag) {
         RETERR(SlashStart);
     }
     ERCV(cmds.indent(DrawStateType::MarkedContent));
-    auto cmd = std::format("/{} BMC\n", tag);
+    auto cmd = std::format("{} BMC\n", bytes2pdfstringliteral(tag));
     cmds.append(cmd);
     RETOK;
 }
-- 
2.43.0


From a11c6e1848a4304335602e6bd66dbfd09b4a8a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:24 +0000
Subject: [PATCH 026/106] fix: forget all used resources when a draw context is
 reset

---
 src/drawcontext.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index c8e707a..4c1738c 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -127,7 +127,9 @@ void PdfDrawContext::clear() {
     used_gstates.clear();
     used_shadings.clear();
     used_patterns.clear();
+    used_form_xobjects.clear();
     used_annotations.clear();
+    used_structures.clear();
     used_ocgs.clear();
     used_trgroups.clear();
     sub_navigations.clear();
-- 
2.43.0


From 5d87eb0cf74bbabf810fed9d307de5f5efc0e87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:24 +0000
Subject: [PATCH 027/106] fix: leave the command stream unchanged when a
 drawing operation fails

---
 src/commandstreamformatter.cpp |  7 +++
 src/commandstreamformatter.hpp | 10 ++++
 src/drawcontext.cpp            | 95 ++++++++++++++++++----------------
 src/drawcontext.hpp            | 12 +++++
 4 files changed, 80 insertions(+), 44 deletions(-)

diff --git a/src/commandstreamformatter.cpp b/src/commandstreamformatter.cpp
index 47f4f88..6f2eac5 100644
--- a/src/commandstreamformatter.cpp
+++ b/src/commandstreamformatter.cpp
@@ -112,6 +112,13 @@ void CommandStreamFormatter::clear() {
     buf.clear();
 }
 
+void CommandStreamFormatter::rollback(CommandStreamCheckpoint cp) {
+    assert(cp.buf_size <= buf.size());
+    buf.resize(cp.buf_size);
+    lead = std::move(cp.lead);
+    stack = std::move(cp.stack);
+}
+
 rvoe<NoReturnValue> CommandStreamFormatter::indent(DrawStateType stype) {
     if(stype == DrawStateType::Text && has_state(stype)) {
         RETERR(DrawStateEndMismatch); // FIXME
diff --git a/src/commandstreamformatter.hpp b/src/commandstreamformatter.hpp
index c1879a0..166bb68 100644
--- a/src/commandstreamformatter.hpp
+++ b/src/commandstreamformatter.hpp
@@ -19,6 +19,12 @@ enum class DrawStateType : uint8_t {
     Dictionary,
 };
 
+struct CommandStreamCheckpoint {
+    size_t buf_size;
+    std::string lead;
+    std::vector<DrawStateType> stack;
+};
+
 class CommandStreamFormatter {
 
 public:
@@ -53,6 +59,10 @@ public:
 
     void clear();
 
+    // For undoing operations that fail after they have written something.
+    CommandStreamCheckpoint checkpoint() const { return {buf.size(), lead, stack}; }
+    void rollback(CommandStreamCheckpoint cp);
+
     rvoe<std::string> steal();
 
     rvoe<NoReturnValue> indent(DrawStateType stype);
diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 4c1738c..9171441 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -286,25 +286,27 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(const asciistring &name,
         fprintf(stderr, "%s", "Must specify sid or attributes. Otherwise use BMC.\n");
         std::abort();
     }
-    cmds.append_indent();
-    cmds.append_raw("/");
-    cmds.append_raw(name.sv());
-    cmds.append_raw(" <<\n");
-    ERCV(cmds.indent(DrawStateType::Dictionary));
-    if(sid) {
-        ERC(MCID_id, add_bcd_structure(sid.value()));
-        cmds.append_dict_entry("/MCID", MCID_id);
-    }
-    if(attributes) {
-        for(const auto &[key, value] : *attributes) {
-            cmds.append_dict_entry_string(key.c_str(), value.c_str());
+    return undo_on_failure([&]() -> rvoe<NoReturnValue> {
+        cmds.append_indent();
+        cmds.append_raw("/");
+        cmds.append_raw(name.sv());
+        cmds.append_raw(" <<\n");
+        ERCV(cmds.indent(DrawStateType::Dictionary));
+        if(sid) {
+            ERC(MCID_id, add_bcd_structure(sid.value()));
+            cmds.append_dict_entry("/MCID", MCID_id);
         }
-    }
-    cmds.append(">>");
-    ERCV(cmds.dedent(DrawStateType::Dictionary));
-    cmds.append("BDC");
-    ERCV(cmds.indent(DrawStateType::MarkedContent));
-    RETOK;
+        if(attributes) {
+            for(const auto &[key, value] : *attributes) {
+                cmds.append_dict_entry_string(key.c_str(), value.c_str());
+            }
+        }
+        cmds.append(">>");
+        ERCV(cmds.dedent(DrawStateType::Dictionary));
+        cmds.append("BDC");
+        ERCV(cmds.indent(DrawStateType::MarkedContent));
+        RETOK;
+    });
 }
 
 rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(CapyPDF_StructureItemId sid,
@@ -323,8 +325,9 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(CapyPDF_StructureItemId sid,
 }
 
 rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(CapyPDF_OptionalContentGroupId ocgid) {
-    used_ocgs.insert(ocgid);
+    CHECK_INDEXNESS(ocgid.id, doc->ocg_items);
     ERCV(cmds.indent(DrawStateType::MarkedContent));
+    used_ocgs.insert(ocgid);
     auto cmd = std::format("/OC /oc{} BDC\n", doc->ocg_object_number(ocgid));
     cmds.append(cmd);
     RETOK;
@@ -1096,12 +1099,14 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
             RETOK;
         },
     };
-    ERCV(cmds.BT());
-    for(const auto &e : textobj.get_events()) {
-        ERCV(std::visit(visitor, e));
-    }
-    ERCV(cmds.ET());
-    RETOK;
+    return undo_on_failure([&]() -> rvoe<NoReturnValue> {
+        ERCV(cmds.BT());
+        for(const auto &e : textobj.get_events()) {
+            ERCV(std::visit(visitor, e));
+        }
+        ERCV(cmds.ET());
+        RETOK;
+    });
 }
 
 rvoe<NoReturnValue> PdfDrawContext::validate_text_contents(const PdfText &text) {
@@ -1154,25 +1159,27 @@ rvoe<NoReturnValue> PdfDrawContext::render_glyphs(const std::vector<PdfGlyph> &g
     // const auto &bob =
     //    doc->font_objects.at(doc->get_subset_glyph(fid,
     //    glyphs.front().codepoint).ss.fid.id);
-    cmds.append("BT");
-    ERCV(cmds.indent(DrawStateType::Text));
-    auto cmd = std::format("/SFont{} {:f} Tf", font_data.font_obj, pointsize);
-    cmds.append(cmd);
-    for(const auto &g : glyphs) {
-        ERC(current_subset_glyph, doc->get_subset_glyph(fid, g.codepoint, {}));
-        // const auto &bob = doc->font_objects.at(current_subset_glyph.ss.fid.id);
-        used_external_fonts.insert(current_subset_glyph.ss);
-        cmds.append_command(g.x - prev_x, g.y - prev_y, "Td");
-        prev_x = g.x;
-        prev_y = g.y;
-        cmd.clear();
-        std::format_to(
-            std::back_inserter(cmd), "<{:04x}>", (unsigned char)current_subset_glyph.glyph_id);
-        cmds.append_command(cmd, "Tj");
-    }
-    ERCV(cmds.dedent(DrawStateType::Text));
-    cmds.append("ET");
-    RETOK;
+    return undo_on_failure([&]() -> rvoe<NoReturnValue> {
+        cmds.append("BT");
+        ERCV(cmds.indent(DrawStateType::Text));
+        auto cmd = std::format("/SFont{} {:f} Tf", font_data.font_obj, pointsize);
+        cmds.append(cmd);
+        for(const auto &g : glyphs) {
+            ERC(current_subset_glyph, doc->get_subset_glyph(fid, g.codepoint, {}));
+            // const auto &bob = doc->font_objects.at(current_subset_glyph.ss.fid.id);
+            used_external_fonts.insert(current_subset_glyph.ss);
+            cmds.append_command(g.x - prev_x, g.y - prev_y, "Td");
+            prev_x = g.x;
+            prev_y = g.y;
+            cmd.clear();
+            std::format_to(
+                std::back_inserter(cmd), "<{:04x}>", current_subset_glyph.glyph_id);
+            cmds.append_command(cmd, "Tj");
+        }
+        ERCV(cmds.dedent(DrawStateType::Text));
+        cmds.append("ET");
+        RETOK;
+    });
 }
 
 rvoe<NoReturnValue> PdfDrawContext::render_pdfdoc_text_builtin(const char *pdfdoc_encoded_text,
diff --git a/src/drawcontext.hpp b/src/drawcontext.hpp
index 247ed4e..7e4eb14 100644
--- a/src/drawcontext.hpp
+++ b/src/drawcontext.hpp
@@ -210,6 +210,18 @@ public:
     rvoe<NoReturnValue> set_group_matrix(const PdfMatrix &mat);
 
 private:
+    // Runs the given operation and restores the state before it in case of failure.
+    template<typename F> rvoe<NoReturnValue> undo_on_failure(F &&operation) {
+        auto checkpoint = cmds.checkpoint();
+        const auto num_structures = used_structures.size();
+        auto rc = operation();
+        if(!rc) {
+            cmds.rollback(std::move(checkpoint));
+            used_structures.resize(num_structures);
+        }
+        return rc;
+    }
+
     rvoe<NoReturnValue> serialize_charsequence(const TextEvents &charseq,
                                                CommandStreamFormatter &serialisation,
                                                CapyPDF_FontId &current_font);
-- 
2.43.0


From 3dd00457a3e6e5a0ccdff4d7ee6a889d04f3e057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:24 +0000
Subject: [PATCH 028/106] fix: write dash phases without an exponent

---
 src/drawcontext.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 9171441..2a97d9e 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -383,7 +383,7 @@ PdfDrawContext::cmd_d(const double *dash_array, size_t dash_array_length, double
     for(size_t i = 0; i < dash_array_length; ++i) {
         std::format_to(app, "{:f} ", dash_array[i]);
     }
-    std::format_to(app, "] {} d\n", phase);
+    std::format_to(app, "] {:f} d\n", phase);
     cmds.append(cmd);
     RETOK;
 }
@@ -1087,7 +1087,7 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
             for(auto val : dash.array) {
                 std::format_to(std::back_inserter(cmd), "{:f} ", val);
             }
-            std::format_to(std::back_inserter(cmd), " ] {} d\n", dash.phase);
+            std::format_to(std::back_inserter(cmd), " ] {:f} d\n", dash.phase);
             cmds.append(cmd);
             RETOK;
         },
-- 
2.43.0


From 88f6f5f16f64505d8a9f5a9e0a3f94f9db6e2d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:24 +0000
Subject: [PATCH 029/106] fix: write well formed text arrays regardless of
 their contents

---
 src/drawcontext.cpp | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 2a97d9e..dec6d7e 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -799,23 +799,16 @@ rvoe<NoReturnValue> PdfDrawContext::serialize_charsequence(const TextEvents &cha
                                                            CommandStreamFormatter &serialisation,
                                                            CapyPDF_FontId &current_font) {
     CHECK_INDEXNESS(current_font.id, doc->font_objects);
-    bool is_first = true;
     auto glyph_appender_lambda =
-        [this, &serialisation, &is_first](const SubsetGlyph &current_subset_glyph) {
+        [this, &serialisation](const SubsetGlyph &current_subset_glyph) {
             used_external_fonts.insert(current_subset_glyph.ss);
-            if(is_first) {
-                serialisation.append_indent();
-                serialisation.append_raw("[ ");
-            }
             auto glyphid = std::format("<{:04x}> ", current_subset_glyph.glyph_id);
             serialisation.append_raw(glyphid);
         };
+    serialisation.append_indent();
+    serialisation.append_raw("[ ");
     for(const auto &e : charseq) {
         if(auto kval = std::get_if<KerningValue>(&e)) {
-            if(is_first) {
-                serialisation.append_indent();
-                serialisation.append_raw("[ ");
-            }
             auto v = std::format("{} ", kval->v);
             serialisation.append_raw(v);
         } else if(auto uglyph = std::get_if<UnicodeCharacter>(&e)) {
@@ -828,10 +821,6 @@ rvoe<NoReturnValue> PdfDrawContext::serialize_charsequence(const TextEvents &cha
             }
             ERC(subset, doc->get_subset_glyph(current_font, *u8str->begin(), {}));
             used_external_fonts.insert(subset.ss);
-            if(is_first) {
-                serialisation.append_indent();
-                serialisation.append_raw("[ ");
-            }
             serialisation.append_raw("<");
             for(const auto codepoint : *u8str) {
                 ERC(current_subset_glyph, doc->get_subset_glyph(current_font, codepoint, {}));
@@ -862,7 +851,6 @@ rvoe<NoReturnValue> PdfDrawContext::serialize_charsequence(const TextEvents &cha
             fprintf(stderr, "Not implemented yet.\n");
             std::abort();
         }
-        is_first = false;
     }
     serialisation.append_raw("] TJ\n");
     RETOK;
-- 
2.43.0


From 48ad600d0abcca960b8448f1e1612def1631efe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:27 +0000
Subject: [PATCH 030/106] fix: reject ids of other kinds of objects in drawing
 operations

---
 src/document.cpp    | 12 +++++++++---
 src/document.hpp    |  5 +++++
 src/drawcontext.cpp | 24 ++++++++++++++++++++----
 3 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 807a012..9c1d3ae 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -813,8 +813,9 @@ rvoe<CapyPDF_LabColorSpaceId> PdfDocument::add_lab_colorspace(const LabColorSpac
     }
     fmt.end_array();
 
-    add_object(FullPDFObject{fmt.steal(), {}});
-    return CapyPDF_LabColorSpaceId{(int32_t)document_objects.size() - 1};
+    const auto id = add_object(FullPDFObject{fmt.steal(), {}});
+    lab_colorspaces.insert(id);
+    return CapyPDF_LabColorSpaceId{id};
 }
 
 rvoe<CapyPDF_IccColorSpaceId> PdfDocument::load_icc_file(const char *fname) {
@@ -944,6 +945,7 @@ rvoe<CapyPDF_3DStreamId> PdfDocument::add_3d_stream(ThreeDStream stream) {
     fmt.end_dict();
     const auto obj_num =
         add_object(FullPDFObject{fmt.steal(), RawData(std::move(stream.model_data))});
+    threed_streams.insert(obj_num);
     return CapyPDF_3DStreamId{obj_num};
 }
 
@@ -1748,6 +1750,7 @@ rvoe<CapyPDF_GraphicsStateId> PdfDocument::add_graphics_state(const GraphicsStat
     }
     fmt.end_dict();
     add_object(FullPDFObject{fmt.steal(), {}});
+    graphics_states.insert(id);
     return CapyPDF_GraphicsStateId{id};
 }
 
@@ -2038,7 +2041,9 @@ rvoe<CapyPDF_PatternId> PdfDocument::add_shading_pattern(const ShadingPattern &s
         fmt.end_array();
     }
     fmt.end_dict();
-    return CapyPDF_PatternId{add_object(FullPDFObject{fmt.steal(), {}})};
+    const auto objid = add_object(FullPDFObject{fmt.steal(), {}});
+    patterns.insert(objid);
+    return CapyPDF_PatternId{objid};
 }
 
 rvoe<CapyPDF_PatternId> PdfDocument::add_tiling_pattern(PdfDrawContext &ctx) {
@@ -2055,6 +2060,7 @@ rvoe<CapyPDF_PatternId> PdfDocument::add_tiling_pattern(PdfDrawContext &ctx) {
     auto &d = std::get<SerializedXObject>(sc_var);
     auto objid =
         add_object(DeflatePDFObject{std::move(d.dict), RawData(std::move(d.command_stream)), true});
+    patterns.insert(objid);
     return CapyPDF_PatternId{objid};
 }
 
diff --git a/src/document.hpp b/src/document.hpp
index f0ea9db..6423888 100644
--- a/src/document.hpp
+++ b/src/document.hpp
@@ -629,6 +629,11 @@ private:
     std::vector<int32_t> ocg_items;
     std::vector<int32_t> transparency_groups;
     std::vector<int32_t> soft_masks;
+    // The ids of these are object numbers.
+    std::unordered_set<int32_t> graphics_states;
+    std::unordered_set<int32_t> patterns;
+    std::unordered_set<int32_t> lab_colorspaces;
+    std::unordered_set<int32_t> threed_streams;
     std::vector<FunctionInfo> functions;
     std::vector<ShadingInfo> shadings;
     std::vector<RolemapEnty> rolemap;
diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index dec6d7e..882632e 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -247,6 +247,7 @@ void PdfDrawContext::build_resource_dict(ObjectFormatter &fmt) {
 }
 
 rvoe<NoReturnValue> PdfDrawContext::annotate(CapyPDF_AnnotationId annotation) {
+    CHECK_INDEXNESS(annotation.id, doc->annotations);
     if(used_annotations.find(annotation) != used_annotations.end()) {
         RETERR(AnnotationReuse);
     }
@@ -430,7 +431,9 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_G(LimitDouble gray) { return serialize_G
 rvoe<NoReturnValue> PdfDrawContext::cmd_g(LimitDouble gray) { return serialize_g(gray); }
 
 rvoe<NoReturnValue> PdfDrawContext::cmd_gs(CapyPDF_GraphicsStateId gid) {
-    CHECK_INDEXNESS(gid.id, doc->document_objects);
+    if(!doc->graphics_states.contains(gid.id)) {
+        RETERR(BadId);
+    }
     used_gstates.insert(gid.id);
     auto cmd = std::format("/GS{} gs\n", gid.id);
     cmds.append(cmd);
@@ -543,7 +546,7 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_scn(double value) {
 }
 
 rvoe<NoReturnValue> PdfDrawContext::cmd_sh(CapyPDF_ShadingId shid) {
-    CHECK_INDEXNESS(shid.id, doc->document_objects);
+    CHECK_INDEXNESS(shid.id, doc->shadings);
     used_shadings.insert(shid.id);
     auto cmd = std::format("/SH{} sh\n", shid.id);
     cmds.append(cmd);
@@ -727,6 +730,9 @@ rvoe<NoReturnValue> PdfDrawContext::convert_to_output_cs_and_set_color(const Dev
 }
 
 rvoe<NoReturnValue> PdfDrawContext::set_color(CapyPDF_PatternId id, bool stroke) {
+    if(!doc->patterns.contains(id.id)) {
+        RETERR(BadId);
+    }
     if(stroke) {
         ERCV(cmd_CS("/Pattern"));
     } else {
@@ -754,7 +760,9 @@ rvoe<NoReturnValue> PdfDrawContext::set_color(const SeparationColor &color, bool
 }
 
 rvoe<NoReturnValue> PdfDrawContext::set_color(const LabColor &c, bool stroke) {
-    CHECK_INDEXNESS(c.id.id, doc->document_objects);
+    if(!doc->lab_colorspaces.contains(c.id.id)) {
+        RETERR(BadId);
+    }
     used_colorspaces.insert(c.id.id);
     std::string csname = std::format("/CSpace{}", c.id.id);
     if(stroke) {
@@ -1001,6 +1009,9 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
                 cmd += " SCN";
                 cmds.append(cmd);
             } else if(auto id = std::get_if<CapyPDF_PatternId>(&sarg.c)) {
+                if(!doc->patterns.contains(id->id)) {
+                    RETERR(BadId);
+                }
                 used_patterns.insert(id->id);
                 cmds.append("/Pattern CS\n");
                 auto cmd = std::format("/Pattern-{} SCN\n", id->id);
@@ -1033,6 +1044,9 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
                 std::format_to(std::back_inserter(cmd), "{}\n", "scn");
                 cmds.append(cmd);
             } else if(auto id = std::get_if<CapyPDF_PatternId>(&nsarg.c)) {
+                if(!doc->patterns.contains(id->id)) {
+                    RETERR(BadId);
+                }
                 used_patterns.insert(id->id);
                 cmds.append("/Pattern cs\n");
                 auto cmd = std::format("/Pattern-{} scn\n", id->id);
@@ -1080,7 +1094,9 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
             RETOK;
         },
         [&](const gs_arg &gs) -> rvoe<NoReturnValue> {
-            CHECK_INDEXNESS(gs.gid.id, doc->document_objects);
+            if(!doc->graphics_states.contains(gs.gid.id)) {
+                RETERR(BadId);
+            }
             used_gstates.insert(gs.gid.id);
             auto cmd = std::format("/GS{} gs\n", gs.gid.id);
             cmds.append(cmd);
-- 
2.43.0


From 2c501a39dc28e46f3358459c02ee42b8bd785514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:27 +0000
Subject: [PATCH 031/106] fix: reject unknown ids when adding objects to the
 document

---
 src/document.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index 9c1d3ae..b1121d2 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -2069,6 +2069,9 @@ rvoe<CapyPDF_OutlineId> PdfDocument::add_outline(const Outline &o) {
         RETERR(EmptyTitle);
     }
     const auto cur_id = (int32_t)outlines.items.size();
+    if(o.parent) {
+        CHECK_INDEXNESS_V(o.parent->id, outlines.items);
+    }
     const auto par_id = o.parent.value_or(CapyPDF_OutlineId{-1}).id;
     outlines.parent[cur_id] = par_id;
     outlines.children[par_id].push_back(cur_id);
@@ -2077,6 +2080,9 @@ rvoe<CapyPDF_OutlineId> PdfDocument::add_outline(const Outline &o) {
 }
 
 rvoe<CapyPDF_FormFieldId> PdfDocument::add_form_field(FormField &field) {
+    if(field.parent) {
+        CHECK_INDEXNESS_V(field.parent->id, form_fields);
+    }
     auto field_id = (int32_t)form_fields.size();
     auto obj_id = add_object(DelayedFormField{{field_id}, std::move(field)});
     form_fields.push_back((int32_t)obj_id);
@@ -2125,6 +2131,25 @@ rvoe<CapyPDF_AnnotationId> PdfDocument::add_annotation(const Annotation &a) {
     if(!a.rect) {
         RETERR(AnnotationMissingRect);
     }
+    if(auto *faa = std::get_if<FileAttachmentAnnotation>(&a.sub)) {
+        CHECK_INDEXNESS_V(faa->fileid.id, embedded_files);
+    } else if(auto *screen = std::get_if<ScreenAnnotation>(&a.sub)) {
+        CHECK_INDEXNESS_V(screen->mediafile.id, embedded_files);
+    } else if(auto *pma = std::get_if<PrintersMarkAnnotation>(&a.sub)) {
+        CHECK_INDEXNESS_V(pma->appearance.id, form_xobjects);
+    } else if(auto *threed = std::get_if<ThreeDAnnotation>(&a.sub)) {
+        if(!threed_streams.contains(threed->stream.id)) {
+            RETERR(BadId);
+        }
+    } else if(auto *widget = std::get_if<WidgetAnnotation>(&a.sub)) {
+        if(widget->parent) {
+            CHECK_INDEXNESS_V(widget->parent->id, form_fields);
+        }
+        if(widget->buttoninfo) {
+            CHECK_INDEXNESS_V(widget->buttoninfo->on_state.id, form_xobjects);
+            CHECK_INDEXNESS_V(widget->buttoninfo->off_state.id, form_xobjects);
+        }
+    }
     auto annot_id = (int32_t)annotations.size();
     auto obj_id = add_object(DelayedAnnotation{{annot_id}, a});
     annotations.push_back((int32_t)obj_id);
@@ -2149,6 +2174,7 @@ rvoe<CapyPDF_StructureItemId>
 PdfDocument::add_structure_item(const CapyPDF_RoleId role,
                                 std::optional<CapyPDF_StructureItemId> parent,
                                 std::optional<StructItemExtraData> extra) {
+    CHECK_INDEXNESS_V(role.id, rolemap);
     if(parent) {
         CHECK_INDEXNESS_V(parent->id, structure_items);
     }
-- 
2.43.0


From 50881a676ff41d014853c00212c5f369aa3f4666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:27 +0000
Subject: [PATCH 032/106] fix: reject draw contexts of other documents in form
 and group additions

---
 src/document.cpp  | 3 +++
 src/generator.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index b1121d2..f491b6b 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -2199,6 +2199,9 @@ PdfDocument::add_optional_content_group(const OptionalContentGroup &g) {
 }
 
 rvoe<CapyPDF_TransparencyGroupId> PdfDocument::add_transparency_group(PdfDrawContext &ctx) {
+    if(&ctx.get_doc() != this) {
+        RETERR(IncorrectDocumentForObject);
+    }
     if(ctx.draw_context_type() != CAPY_DC_TRANSPARENCY_GROUP) {
         RETERR(InvalidDrawContextType);
     }
diff --git a/src/generator.cpp b/src/generator.cpp
index a436bee..32334a1 100644
--- a/src/generator.cpp
+++ b/src/generator.cpp
@@ -117,6 +117,9 @@ rvoe<NoReturnValue> PdfGen::add_page_labeling(uint32_t start_page,
 }
 
 rvoe<CapyPDF_FormXObjectId> PdfGen::add_form_xobject(PdfDrawContext &ctx) {
+    if(&ctx.get_doc() != &pdoc) {
+        RETERR(IncorrectDocumentForObject);
+    }
     if(ctx.draw_context_type() != CAPY_DC_FORM_XOBJECT) {
         RETERR(InvalidDrawContextType);
     }
-- 
2.43.0


From 27f6c07cd9119ad8b4f2b9238c1ee60c222ea21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:29 +0000
Subject: [PATCH 033/106] fix: return an error instead of aborting when a
 destination has no target

---
 src/document.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index f491b6b..de05b16 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -520,7 +520,7 @@ serialize_destination(ObjectFormatter &fmt, const Destination &dest, int32_t pag
         fmt.add_token(r->top);
     } else {
         fprintf(stderr, "No link target specified.\n");
-        std::abort();
+        RETERR(InvalidIndex);
     }
     fmt.end_array();
     RETOK;
@@ -1188,7 +1188,7 @@ rvoe<int32_t> PdfDocument::create_outlines() {
                 RETERR(InvalidPageNumber);
             }
             const auto page_object_number = pages.at(physical_page).page_obj_num;
-            serialize_destination(fmt, dest, page_object_number);
+            ERCV(serialize_destination(fmt, dest, page_object_number));
         }
         if(siblings.size() > 1) {
             auto loc = std::find(siblings.begin(), siblings.end(), cur_id);
-- 
2.43.0


From 9f68b3373b7df1c5edbb83dc28bf51862c56f21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:29 +0000
Subject: [PATCH 034/106] fix: report errors in creating the document
 information dictionary

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index de05b16..60728f5 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -539,7 +539,7 @@ rvoe<NoReturnValue> PdfDocument::init() {
     // PDF uses 1-based indexing so add a dummy thing in this vector
     // to make PDF and vector indices are the same.
     document_objects.emplace_back(DummyIndexZero{});
-    generate_info_object();
+    ERCV(generate_info_object());
     switch(docprops.output_colorspace) {
     case CAPY_DEVICE_CS_RGB:
         if(!cm.get_rgb().empty()) {
-- 
2.43.0


From 064c347c2ed0fd9e0c437994ea8f157c124dc998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:22 +0000
Subject: [PATCH 035/106] fix: accept one character marked content tags

---
 src/drawcontext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 882632e..565d60a 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -335,7 +335,7 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(CapyPDF_OptionalContentGroupId ocgid
 }
 
 rvoe<NoReturnValue> PdfDrawContext::cmd_BMC(std::string_view tag) {
-    if(tag.size() < 2 || tag.front() == '/') {
+    if(tag.empty() || tag.front() == '/') {
         RETERR(SlashStart);
     }
     ERCV(cmds.indent(DrawStateType::MarkedContent));
-- 
2.43.0


From fa10a3c0cb1a1eda4b359bf2e7bfcb36e54ad4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:22 +0000
Subject: [PATCH 036/106] fix: reject Off as the name of the on state of a
 button

---
 src/capi.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/capi.cpp b/src/capi.cpp
index b957bc8..de43ce6 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -2722,6 +2722,9 @@ capy_annotation_set_widget_button_appearance(CapyPDF_Annotation *annotation,
     if(!rc) {
         return conv_err(rc);
     }
+    if(rc->sv() == "Off") {
+        return conv_err(ErrorCode::DuplicateName);
+    }
     if(auto *widget = std::get_if<WidgetAnnotation>(&a->sub)) {
         widget->buttoninfo = ButtonStateInfo{on_state, off_state, std::move(rc.value())};
     } else {
-- 
2.43.0


From 36b54011a52db95ca407a94b3952ac6e8fa5cae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:31 +0000
Subject: [PATCH 037/106] fix: never write the temporary file over the
 destination

---
 src/pdfwriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index 159b5c9..71c0fc4 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -229,7 +229,7 @@ rvoe<NoReturnValue> PdfWriter::write_to_file(const char *ofilename) {
     }
     doc.write_attempted = true;
     std::filesystem::path tempfname(ofilename);
-    tempfname.replace_extension(".pdf~");
+    tempfname += "~";
     FILE *out_file = fopen(tempfname.string().c_str(), "wb");
     if(!out_file) {
         perror(nullptr);
-- 
2.43.0


From b5ac99dbc5ccc4d4ed357384413134b6f6cbdf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:57 +0000
Subject: [PATCH 038/106] fix: range check line widths and rendering modes in
 text objects

---
 src/drawcontext.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 565d60a..158ab8c 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -943,6 +943,7 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
         },
 
         [&](const Tr_arg &tr) -> rvoe<NoReturnValue> {
+            CHECK_ENUM(tr.rmode, CAPY_TEXT_CLIP);
             cmds.append_command((int)tr.rmode, "Tr");
             RETOK;
         },
@@ -1059,6 +1060,9 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
         },
 
         [&](const w_arg &w) -> rvoe<NoReturnValue> {
+            if(w.width < 0) {
+                RETERR(NegativeLineWidth);
+            }
             cmds.append_command(w.width, "w");
             RETOK;
         },
-- 
2.43.0


From 110499a42d970b55a56461624fa22fba26bc8bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:57 +0000
Subject: [PATCH 039/106] fix: support separation and Lab colors in text
 objects

---
 src/drawcontext.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 158ab8c..9884d4b 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -1018,8 +1018,7 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
                 auto cmd = std::format("/Pattern-{} SCN\n", id->id);
                 cmds.append(cmd);
             } else {
-                printf("Given text stroke colorspace not supported yet.\n");
-                std::abort();
+                ERCV(set_color(sarg.c, true));
             }
             RETOK;
         },
@@ -1053,8 +1052,7 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
                 auto cmd = std::format("/Pattern-{} scn\n", id->id);
                 cmds.append(cmd);
             } else {
-                printf("Given text nonstroke colorspace not supported yet.\n");
-                std::abort();
+                ERCV(set_color(nsarg.c, false));
             }
             RETOK;
         },
-- 
2.43.0


From 59521d12f879471decb583e4d592bc1c7e057b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:40 +0000
Subject: [PATCH 040/106] fix: check the structure item id of marked content in
 text objects before recording its use

---
 src/drawcontext.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 9884d4b..52f795d 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -961,6 +961,7 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
         [&](const StructureItem &sitem) -> rvoe<NoReturnValue> {
             // FIXME, convert to a serialize method and make
             // this and cmd_BDC use that.
+            CHECK_INDEXNESS(sitem.sid.id, doc->structure_items);
             ERC(mcid_id, add_bcd_structure(sitem.sid));
             auto item = doc->structure_items.at(sitem.sid.id).stype;
             if(auto itemid = std::get_if<CapyPDF_Structure_Type>(&item)) {
-- 
2.43.0


From 5a8086f63ca20d068e34be17597747aec9ac01b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 041/106] fix: store the transition dimension in Dm instead of
 the direction

---
 src/capi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index de43ce6..49be808 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -1892,7 +1892,7 @@ CAPYPDF_PUBLIC CapyPDF_EC
 capy_transition_set_Dm(CapyPDF_Transition *tr, CapyPDF_Transition_Dimension dim) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
     auto pt = static_cast<Transition *>(tr);
-    pt->Di = dim;
+    pt->Dm = dim;
     RETNOERR;
     API_BOUNDARY_END;
 }
-- 
2.43.0


From 2ebe96935e47366089ae328be09b564148b58ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 042/106] fix: reject unknown enumeration values that were
 silently accepted or aborted the process

---
 src/capi.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index 49be808..2301f1e 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -17,6 +17,11 @@
         return conv_err(ErrorCode::BadBoolean);                                                    \
     }
 
+#define CHECK_ENUM_ARG(v, max_enum_val)                                                            \
+    if((int)v < 0 || (int)v > (int)max_enum_val) {                                                 \
+        return conv_err(ErrorCode::BadEnum);                                                       \
+    }
+
 using namespace capypdf::internal;
 
 // These structs are not in the interop header because they are
@@ -324,6 +329,8 @@ capy_document_properties_set_device_profile(CapyPDF_DocumentProperties *docprops
     case CAPY_DEVICE_CS_CMYK:
         dp->prof.cmyk_profile_file = profile_path;
         break;
+    default:
+        return conv_err(ErrorCode::BadEnum);
     }
     RETNOERR;
     API_BOUNDARY_END;
@@ -332,6 +339,7 @@ capy_document_properties_set_device_profile(CapyPDF_DocumentProperties *docprops
 CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_colorspace(
     CapyPDF_DocumentProperties *docprops, CapyPDF_Device_Colorspace cs) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     auto *dp = static_cast<DocumentProperties *>(docprops);
     dp->output_colorspace = cs;
     RETNOERR;
@@ -1891,6 +1899,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_transition_set_D(CapyPDF_Transition *tr,
 CAPYPDF_PUBLIC CapyPDF_EC
 capy_transition_set_Dm(CapyPDF_Transition *tr, CapyPDF_Transition_Dimension dim) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(dim, CAPY_TR_DIM_V);
     auto pt = static_cast<Transition *>(tr);
     pt->Dm = dim;
     RETNOERR;
@@ -1900,6 +1909,7 @@ capy_transition_set_Dm(CapyPDF_Transition *tr, CapyPDF_Transition_Dimension dim)
 CAPYPDF_PUBLIC CapyPDF_EC capy_transition_set_M(CapyPDF_Transition *tr,
                                                 CapyPDF_Transition_Motion m) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(m, CAPY_TR_M_O);
     auto pt = static_cast<Transition *>(tr);
     pt->M = m;
     RETNOERR;
@@ -2221,6 +2231,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_raster_image_builder_set_alpha_data(
 CAPYPDF_PUBLIC CapyPDF_EC capy_raster_image_builder_set_input_data_compression_format(
     CapyPDF_RasterImageBuilder *builder, CapyPDF_Compression compression) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(compression, CAPY_COMPRESSION_DEFLATE);
     auto *b = static_cast<RasterImageBuilder *>(builder);
     b->i.md.compression = compression;
     RETNOERR;
@@ -2230,6 +2241,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_raster_image_builder_set_input_data_compression_f
 CAPYPDF_PUBLIC CapyPDF_EC capy_raster_image_builder_set_colorspace(
     CapyPDF_RasterImageBuilder *builder, CapyPDF_Image_Colorspace colorspace) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(colorspace, CAPY_IMAGE_CS_CMYK);
     auto *b = static_cast<RasterImageBuilder *>(builder);
     b->i.md.cs = colorspace;
     RETNOERR;
@@ -2831,6 +2843,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_image_pdf_properties_set_mask(CapyPDF_ImagePdfPro
 CAPYPDF_PUBLIC CapyPDF_EC capy_image_pdf_properties_set_interpolate(
     CapyPDF_ImagePdfProperties *par, CapyPDF_Image_Interpolation interp) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(interp, CAPY_INTERPOLATION_SMOOTH);
     auto p = static_cast<ImagePDFProperties *>(par);
     p->interp = interp;
     RETNOERR;
@@ -3000,6 +3013,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_soft_mask_new(CapyPDF_Soft_Mask_Subtype subtype,
                                              CapyPDF_TransparencyGroupId trid,
                                              CapyPDF_SoftMask **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(subtype, CAPY_SOFT_MASK_LUMINOSITY);
     *out_ptr = new SoftMask{{}, subtype, trid};
     RETNOERR;
     API_BOUNDARY_END;
@@ -3220,6 +3234,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_3d_stream_new(const char *fname,
                                              CapyPDF_3D_File_Format format,
                                              CapyPDF_3DStream **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(format, CAPY_3D_PRC);
     auto rc = load_file_as_bytes(fname);
     if(!rc) {
         return conv_err(rc);
@@ -3251,7 +3266,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_form_field_new(CapyPDF_Form_Field_Type type,
         *out_ptr = new FormField{{}, {}, {}, {}, {}, TextField{}};
         break;
     default:
-        std::abort();
+        return conv_err(ErrorCode::BadEnum);
     }
     RETNOERR;
     API_BOUNDARY_END;
-- 
2.43.0


From a31ed0ad1a8f15088fe3ca3eb18950dc6dec0e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 043/106] fix: write the default black point compensation as
 the name Default

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 60728f5..01b2d38 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -147,7 +147,7 @@ const std::array<const char *, 6> page_mode_names{
 const std::array<const char *, 3> blackpt_names{
     "/OFF",
     "/ON",
-    "/DEFAULT",
+    "/Default",
 };
 
 const std::array<const char *, 9> collection_view_subtype_names{
-- 
2.43.0


From 594335e7d1444fc0be048cdd821542abe1cc128c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 044/106] fix: reject unknown colour spaces and intents in
 image conversion

---
 src/capi.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/capi.cpp b/src/capi.cpp
index 2301f1e..21f9ef9 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -632,6 +632,8 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_generator_convert_image(CapyPDF_Generator *gen,
                                                        CapyPDF_RasterImage **out_ptr)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(output_cs, CAPY_DEVICE_CS_CMYK);
+    CHECK_ENUM_ARG(ri, CAPY_RI_PERCEPTUAL);
     auto *g = static_cast<PdfGen *>(gen);
     if(auto *raw = std::get_if<RawPixelImage>(&source->ri)) {
         auto rc = g->convert_image_to_cs(*raw, output_cs, ri);
-- 
2.43.0


From 80b2d651677b7fca0d70ed9c753fcb159fdf5039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 045/106] fix: reject a second page labeling for the same start
 page

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 01b2d38..8900963 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -640,7 +640,7 @@ PdfDocument::add_page_labeling(uint32_t start_page,
                                std::optional<CapyPDF_Page_Label_Number_Style> style,
                                std::optional<u8string> prefix,
                                std::optional<uint32_t> start_num) {
-    if(!page_labels.empty() && page_labels.back().start_page > start_page) {
+    if(!page_labels.empty() && page_labels.back().start_page >= start_page) {
         RETERR(NonSequentialPageNumber);
     }
     page_labels.emplace_back(start_page, style, std::move(prefix), start_num);
-- 
2.43.0


From 868d927c714cbb9321b78969ebd90e32d702e5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:09 +0000
Subject: [PATCH 046/106] fix: leave the context empty after adding a
 transparency group or tiling pattern

---
 src/document.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index 8900963..0e25ec0 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -2061,6 +2061,7 @@ rvoe<CapyPDF_PatternId> PdfDocument::add_tiling_pattern(PdfDrawContext &ctx) {
     auto objid =
         add_object(DeflatePDFObject{std::move(d.dict), RawData(std::move(d.command_stream)), true});
     patterns.insert(objid);
+    ctx.clear();
     return CapyPDF_PatternId{objid};
 }
 
@@ -2213,6 +2214,7 @@ rvoe<CapyPDF_TransparencyGroupId> PdfDocument::add_transparency_group(PdfDrawCon
     auto objid =
         add_object(DeflatePDFObject{std::move(d.dict), RawData(std::move(d.command_stream)), true});
     transparency_groups.push_back(objid);
+    ctx.clear();
     return CapyPDF_TransparencyGroupId{(int32_t)transparency_groups.size() - 1};
 }
 
-- 
2.43.0


From 080db13577a1dda63b4b025201ca80e4e54c2b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:09 +0000
Subject: [PATCH 047/106] fix: check for reused annotations and structure items
 before consuming the page contents

---
 src/document.cpp  | 23 +++++++++++++++--------
 src/document.hpp  |  3 +++
 src/generator.cpp |  1 +
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 0e25ec0..67ff798 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -579,14 +579,9 @@ rvoe<NoReturnValue> PdfDocument::init() {
     RETOK;
 }
 
-rvoe<NoReturnValue> PdfDocument::add_page(std::string resource_dict,
-                                          std::string command_stream,
-                                          const PageProperties &custom_props,
-                                          const std::unordered_set<CapyPDF_AnnotationId> &annots,
-                                          const std::vector<CapyPDF_StructureItemId> &structs,
-                                          const std::optional<Transition> &transition,
-                                          const std::vector<SubPageNavigation> &subnav,
-                                          const std::vector<Viewport> &viewports) {
+rvoe<NoReturnValue>
+PdfDocument::validate_page_usage(const std::unordered_set<CapyPDF_AnnotationId> &annots,
+                                 const std::vector<CapyPDF_StructureItemId> &structs) const {
     for(const auto &a : annots) {
         if(annotation_use.find(a) != annotation_use.cend()) {
             RETERR(AnnotationReuse);
@@ -597,6 +592,18 @@ rvoe<NoReturnValue> PdfDocument::add_page(std::string resource_dict,
             RETERR(StructureReuse);
         }
     }
+    RETOK;
+}
+
+rvoe<NoReturnValue> PdfDocument::add_page(std::string resource_dict,
+                                          std::string command_stream,
+                                          const PageProperties &custom_props,
+                                          const std::unordered_set<CapyPDF_AnnotationId> &annots,
+                                          const std::vector<CapyPDF_StructureItemId> &structs,
+                                          const std::optional<Transition> &transition,
+                                          const std::vector<SubPageNavigation> &subnav,
+                                          const std::vector<Viewport> &viewports) {
+    ERCV(validate_page_usage(annots, structs));
     ObjectFormatter fmt;
     fmt.begin_dict();
     const auto resource_num = add_object(FullPDFObject{std::move(resource_dict), {}});
diff --git a/src/document.hpp b/src/document.hpp
index 6423888..4ce6d4b 100644
--- a/src/document.hpp
+++ b/src/document.hpp
@@ -452,6 +452,9 @@ public:
     friend class PdfWriter;
 
     // Pages
+    rvoe<NoReturnValue>
+    validate_page_usage(const std::unordered_set<CapyPDF_AnnotationId> &annots,
+                        const std::vector<CapyPDF_StructureItemId> &structs) const;
     rvoe<NoReturnValue> add_page(std::string resource_dict,
                                  std::string command_stream,
                                  const PageProperties &custom_props,
diff --git a/src/generator.cpp b/src/generator.cpp
index 32334a1..78e1155 100644
--- a/src/generator.cpp
+++ b/src/generator.cpp
@@ -95,6 +95,7 @@ rvoe<PageId> PdfGen::add_page(PdfDrawContext &ctx) {
     if(ctx.has_unclosed_state()) {
         RETERR(DrawStateEndMismatch);
     }
+    ERCV(pdoc.validate_page_usage(ctx.get_annotation_usage(), ctx.get_structure_usage()));
     ERC(sc_var, ctx.serialize());
     assert(std::holds_alternative<SerializedBasicContext>(sc_var));
     auto &sc = std::get<SerializedBasicContext>(sc_var);
-- 
2.43.0


From 02a5ec23b5952e5c22225eb862b724619903a300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:46 +0000
Subject: [PATCH 048/106] fix: refuse annotations and structure items in
 contexts that can not hold them

---
 src/drawcontext.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 52f795d..f428dc0 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -247,6 +247,9 @@ void PdfDrawContext::build_resource_dict(ObjectFormatter &fmt) {
 }
 
 rvoe<NoReturnValue> PdfDrawContext::annotate(CapyPDF_AnnotationId annotation) {
+    if(context_type != CAPY_DC_PAGE) {
+        RETERR(InvalidDrawContextType);
+    }
     CHECK_INDEXNESS(annotation.id, doc->annotations);
     if(used_annotations.find(annotation) != used_annotations.end()) {
         RETERR(AnnotationReuse);
@@ -1283,6 +1286,9 @@ rvoe<NoReturnValue> PdfDrawContext::set_group_matrix(const PdfMatrix &mat) {
 }
 
 rvoe<int32_t> PdfDrawContext::add_bcd_structure(CapyPDF_StructureItemId sid) {
+    if(context_type != CAPY_DC_PAGE) {
+        RETERR(InvalidDrawContextType);
+    }
     for(const auto &id : used_structures) {
         if(id == sid) {
             RETERR(StructureReuse);
-- 
2.43.0


From ba4900413d689820fc7f412f31203d54508697fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:46 +0000
Subject: [PATCH 049/106] fix: link every parentless structure item from the
 structure tree root

---
 src/document.cpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 67ff798..6b5385c 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1259,27 +1259,21 @@ rvoe<int32_t> PdfDocument::create_outlines() {
 }
 
 void PdfDocument::create_structure_root_dict() {
-    std::optional<CapyPDF_StructureItemId> rootobj;
-
     if(!structure_parent_tree_object) {
         fprintf(stderr, "Internal error!\n");
         std::abort();
     }
-    for(int32_t i = 0; i < (int32_t)structure_items.size(); ++i) {
-        if(!structure_items[i].parent) {
-            rootobj = CapyPDF_StructureItemId{i};
-            break;
-        }
-        // FIXME, check that there is only one.
-    }
-    assert(rootobj);
     // /ParentTree
     ObjectFormatter fmt;
     fmt.begin_dict();
     fmt.add_token_pair("/Type", "/StructTreeRoot");
     fmt.add_token("/K");
     fmt.begin_array();
-    fmt.add_object_ref(structure_items[rootobj->id].obj_id);
+    for(const auto &si : structure_items) {
+        if(!si.parent) {
+            fmt.add_object_ref(si.obj_id);
+        }
+    }
     fmt.end_array();
     fmt.add_token("/ParentTree");
     fmt.add_object_ref(structure_parent_tree_object.value());
-- 
2.43.0


From ce30e89640ee5b973b7343d8b6907f2cd8fd1b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:46 +0000
Subject: [PATCH 050/106] fix: write the page content of structure items that
 also have children

---
 src/pdfwriter.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index 71c0fc4..e636d7c 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -1202,24 +1202,24 @@ rvoe<NoReturnValue> PdfWriter::write_delayed_structure_item(int obj_num,
     fmt.add_token("/P");
     fmt.add_object_ref(parent_object);
 
+    const auto use = doc.structure_use.find(dsi.sid);
+    if(use != doc.structure_use.end()) {
+        fmt.add_token("/Pg");
+        fmt.add_object_ref(doc.pages.at(use->second.page_num).page_obj_num);
+    }
     if(!children.empty()) {
         fmt.add_token("/K");
         fmt.begin_array(1);
 
+        if(use != doc.structure_use.end()) {
+            fmt.add_token(use->second.mcid_num);
+        }
         for(const auto &c : children) {
             fmt.add_object_ref(doc.structure_items.at(c.id).obj_id);
         }
         fmt.end_array();
-    } else {
-        // FIXME. Maybe not correct? Assumes that a struct item
-        // either has children or is used on a page. Not both.
-        const auto it = doc.structure_use.find(dsi.sid);
-        if(it != doc.structure_use.end()) {
-            const auto &[page_num, mcid_num] = it->second;
-            fmt.add_token("/Pg");
-            fmt.add_object_ref(doc.pages.at(page_num).page_obj_num);
-            fmt.add_token_pair("/K", mcid_num);
-        }
+    } else if(use != doc.structure_use.end()) {
+        fmt.add_token_pair("/K", use->second.mcid_num);
     }
 
     // Extra elements.
-- 
2.43.0


From 9bc9bc2dd637d2d5424aabf7c7dab552cbb753b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:44 +0000
Subject: [PATCH 051/106] fix: write empty streams as streams in debug output

---
 src/pdfwriter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index e636d7c..e85b20d 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -337,7 +337,8 @@ rvoe<std::vector<ObjectOffset>> PdfWriter::write_objects() {
 
         [&](const DeflatePDFObject &pobj) -> rvoe<NoReturnValue> {
             ObjectFormatter &fmt = const_cast<ObjectFormatter &>(pobj.unclosed_dictionary);
-            if(pobj.leave_uncompressed_in_debug && !doc.docprops.compress_streams) {
+            if(pobj.leave_uncompressed_in_debug && !doc.docprops.compress_streams &&
+               !pobj.stream.span().empty()) {
                 fmt.add_token_pair("/Length", pobj.stream.size());
                 fmt.end_dict();
                 ERCV(write_finished_object(i, fmt.steal(), pobj.stream.span()));
-- 
2.43.0


From fb01a5385ffc9c6b6b1db2875767dbce76916e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:45 +0000
Subject: [PATCH 052/106] fix: return an error instead of aborting when sub
 page navigation is added twice

---
 src/drawcontext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index f428dc0..170b106 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -1243,7 +1243,7 @@ PdfDrawContext::add_simple_navigation(std::span<const CapyPDF_OptionalContentGro
         RETERR(InvalidDrawContextType);
     }
     if(!sub_navigations.empty()) {
-        std::abort();
+        RETERR(DuplicateName);
     }
     for(const auto &sn : navs) {
         if(used_ocgs.find(sn) == used_ocgs.end()) {
-- 
2.43.0


From 6af8a5ba61c55a4f4cab047af0a19ee36b04560a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:08 +0000
Subject: [PATCH 053/106] fix: write continuation patches of type 6 shadings

---
 src/capi.cpp     |  1 +
 src/document.cpp | 23 +++++++++++++++--------
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index 21f9ef9..94abe6a 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -2537,6 +2537,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type6_shading_extend(CapyPDF_Shading *shade,
             return conv_err(ErrorCode::BadStripStart);
         }
         ContinuationCoonsPatch ccp;
+        ccp.flag = flag;
         grab_coons_data(ccp, coords, colors);
         sh6->elements.emplace_back(std::move(ccp));
     } else {
diff --git a/src/document.cpp b/src/document.cpp
index 6b5385c..4535c1f 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -221,18 +221,25 @@ rvoe<std::string> serialize_shade4(const ShadingType4 &shade) {
 rvoe<std::string> serialize_shade6(const ShadingType6 &shade) {
     std::string s;
     for(const auto &eh : shade.elements) {
-        if(!std::holds_alternative<FullCoonsPatch>(eh)) {
-            fprintf(stderr, "Continuation patches not yet supported.\n");
-            std::abort();
+        char flag;
+        std::span<const Point> points;
+        std::span<const Color> colors;
+        if(auto *full = std::get_if<FullCoonsPatch>(&eh)) {
+            flag = 0;
+            points = full->p;
+            colors = full->c;
+        } else {
+            const auto &continuation = std::get<ContinuationCoonsPatch>(eh);
+            flag = (char)continuation.flag;
+            points = continuation.p;
+            colors = continuation.c;
         }
-        const auto &e = std::get<FullCoonsPatch>(eh);
-        char flag = 0; //(char)e.flag;
-        assert(flag >= 0 && flag < 3);
+        assert(flag >= 0 && flag < 4);
         const char *ptr;
         ptr = (const char *)(&flag);
         s.append(ptr, ptr + sizeof(char));
 
-        for(const auto &p : e.p) {
+        for(const auto &p : points) {
             const double xratio =
                 std::clamp((p.x - shade.minx) / (shade.maxx - shade.minx), 0.0, 1.0);
             const double yratio =
@@ -241,7 +248,7 @@ rvoe<std::string> serialize_shade6(const ShadingType6 &shade) {
             ERCV(append_floatvalue<uint32_t>(s, xratio));
             ERCV(append_floatvalue<uint32_t>(s, yratio));
         }
-        for(const auto &colorobj : e.c) {
+        for(const auto &colorobj : colors) {
             if(shade.colorspace == CAPY_DEVICE_CS_RGB) {
                 if(!std::holds_alternative<DeviceRGBColor>(colorobj)) {
                     RETERR(ColorspaceMismatch);
-- 
2.43.0


From 63c40144a95662a74d6af85718bd063f5e260306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:22 +0000
Subject: [PATCH 054/106] fix: return an error for mesh shading colors that are
 not device colors

---
 src/document.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 4535c1f..05a6286 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -211,8 +211,7 @@ rvoe<std::string> serialize_shade4(const ShadingType4 &shade) {
             ERCV(append_floatvalue<uint16_t>(s, cmyk->y.v()));
             ERCV(append_floatvalue<uint16_t>(s, cmyk->k.v()));
         } else {
-            fprintf(stderr, "Color space not supported yet.");
-            std::abort();
+            RETERR(ColorspaceMismatch);
         }
     }
     return rvoe<std::string>{std::move(s)};
-- 
2.43.0


From 84b08de905a8b607c87a69dd26fcd625344ee1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 055/106] fix: return an error for function colors that are not
 device colors

---
 src/document.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 05a6286..75c6c2d 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -12,6 +12,7 @@
 #include <bit>
 #include <algorithm>
 #include <format>
+#include <span>
 #include <ft2build.h>
 #include <variant>
 #include FT_FREETYPE_H
@@ -292,7 +293,7 @@ int32_t num_channels_for(const CapyPDF_Image_Colorspace cs) {
     std::abort();
 }
 
-void color2numbers(ObjectFormatter &fmt, const Color &c) {
+rvoe<NoReturnValue> color2numbers(ObjectFormatter &fmt, const Color &c) {
     if(auto *rgb = std::get_if<DeviceRGBColor>(&c)) {
         fmt.add_token(rgb->r.v());
         fmt.add_token(rgb->g.v());
@@ -305,9 +306,9 @@ void color2numbers(ObjectFormatter &fmt, const Color &c) {
         fmt.add_token(cmyk->y.v());
         fmt.add_token(cmyk->k.v());
     } else {
-        fprintf(stderr, "Colorspace not supported yet.\n");
-        std::abort();
+        RETERR(ColorspaceMismatch);
     }
+    RETOK;
 }
 
 template<typename T1, typename T2> static void append_value_or_null(T1 &fmt, const T2 &val) {
@@ -1780,11 +1781,11 @@ rvoe<int32_t> PdfDocument::serialize_function(const FunctionType2 &func) {
 
     fmt.add_token("/C0");
     fmt.begin_array();
-    color2numbers(fmt, func.C0);
+    ERCV(color2numbers(fmt, func.C0));
     fmt.end_array();
     fmt.add_token("/C1");
     fmt.begin_array();
-    color2numbers(fmt, func.C1);
+    ERCV(color2numbers(fmt, func.C1));
     fmt.end_array();
     fmt.end_dict();
 
-- 
2.43.0


From ea01700718a3e21cbe267abe58ed6b2b70ebe5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 056/106] fix: reject mesh shadings with an empty coordinate
 range

---
 src/document.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index 75c6c2d..0b13c7c 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -177,6 +177,9 @@ template<typename T> rvoe<NoReturnValue> append_floatvalue(std::string &buf, dou
 }
 
 rvoe<std::string> serialize_shade4(const ShadingType4 &shade) {
+    if(shade.minx == shade.maxx || shade.miny == shade.maxy) {
+        RETERR(InvalidBBox);
+    }
     std::string s;
     for(const auto &e : shade.elements) {
         const double xratio =
@@ -219,6 +222,9 @@ rvoe<std::string> serialize_shade4(const ShadingType4 &shade) {
 }
 
 rvoe<std::string> serialize_shade6(const ShadingType6 &shade) {
+    if(shade.minx == shade.maxx || shade.miny == shade.maxy) {
+        RETERR(InvalidBBox);
+    }
     std::string s;
     for(const auto &eh : shade.elements) {
         char flag;
-- 
2.43.0


From 707684ccc2100649973b7b857cfaec6fbd110390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 057/106] fix: keep the XMP metadata well-formed if the creator
 has control characters

---
 src/utils.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index c7f2047..86a01b4 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -484,8 +484,17 @@ void quote_xml_element_data_unchecked_into(const std::string_view &content, std:
         case '&':
             result += "&amp;";
             break;
+        case '\r':
+            // An unescaped carriage return would be read as a line feed.
+            result += "&#13;";
+            break;
         default:
-            result += c;
+            if((unsigned char)c < 0x20 && c != '\n' && c != '\t') {
+                // XML can not represent control characters, not even escaped.
+                result += "\xef\xbf\xbd";
+            } else {
+                result += c;
+            }
             break;
         }
     }
-- 
2.43.0


From e4e5de7974faccc4dd209952912fceb547726971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 058/106] fix: place the pixels of monochrome png images with
 an alpha channel in the right bytes

---
 src/imagefileops.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index 100f125..9024e7d 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -169,7 +169,7 @@ rvoe<NoReturnValue> try_load_mono_alpha_png(png_struct *png_ptr,
             if(is_trans_p) {
                 current_mask_byte |= 1;
             }
-            if((i % 8 == 0) && i > 0) {
+            if((i % 8 == 7) && i + 1 < result.md.w) {
                 result.pixels.push_back(std::byte(~current_byte));
                 result.alpha.push_back(std::byte(~current_mask_byte));
                 current_byte = 0;
@@ -182,7 +182,7 @@ rvoe<NoReturnValue> try_load_mono_alpha_png(png_struct *png_ptr,
             current_byte <<= num_padding_bits;
             current_mask_byte <<= num_padding_bits;
         }
-        result.pixels.push_back(std::byte(current_byte));
+        result.pixels.push_back(std::byte(~current_byte));
         result.alpha.push_back(std::byte(~current_mask_byte));
     }
     assert(result.pixels.size() == final_size);
-- 
2.43.0


From 15152abdeec23349c6a4239e43e9b8089b5837e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 059/106] fix: look up the alpha value of palette entries by
 their index

---
 src/imagefileops.cpp | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index 9024e7d..01ac7aa 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -129,15 +129,6 @@ void load_mono_png(png_struct *png_ptr,
     assert(result.pixels.size() == final_size);
 }
 
-template<typename T> bool span_contains(std::span<T> &span, const T &value) {
-    for(const auto &e : span) {
-        if(e == value) {
-            return true;
-        }
-    }
-    return false;
-}
-
 // Special case for images that have 1-bit monochrome colors and a 1-bit alpha channel.
 rvoe<NoReturnValue> try_load_mono_alpha_png(png_struct *png_ptr,
                                             png_info *info_ptr,
@@ -162,7 +153,7 @@ rvoe<NoReturnValue> try_load_mono_alpha_png(png_struct *png_ptr,
             auto input_value = current_row[i];
             assert(input_value < palette.size()); // Span has .at only at c++26.
             bool is_white_p = is_white(palette[input_value]);
-            bool is_trans_p = span_contains(alpha, current_row[i]);
+            bool is_trans_p = input_value < alpha.size() && alpha[input_value] == 0;
             if(!is_white_p) {
                 current_byte |= 1;
             }
-- 
2.43.0


From 3be919e2384af992509a14320a442b134203f033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 060/106] fix: use the alpha value of each pixel in tiff images

---
 src/imagefileops.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index 01ac7aa..06f9f6c 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -248,7 +248,7 @@ void separate_tif_alpha(RawPixelImage &image, const size_t num_color_channels) {
         for(size_t j = 0; j < num_color_channels; ++j) {
             colors.push_back(image.pixels[i + j]);
         }
-        image.alpha.push_back(image.pixels[num_color_channels]);
+        image.alpha.push_back(image.pixels[i + num_color_channels]);
     }
     image.pixels = std::move(colors);
 }
-- 
2.43.0


From b7b3c5a96f759b31eeb7cb420b1260d79cf3b1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 061/106] fix: do not load tiff images that store color
 channels separately

---
 src/imagefileops.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index 06f9f6c..510935d 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -298,7 +298,9 @@ rvoe<RasterImage> do_tiff_load(TIFF *tif) {
     if(TIFFGetField(tif, TIFFTAG_PLANARCONFIG, &planarconf) != 1) {
         RETERR(UnsupportedTIFF);
     }
-    // Maybe fail for this?
+    if(planarconf != PLANARCONFIG_CONTIG) {
+        RETERR(UnsupportedTIFF);
+    }
 
     if(TIFFGetField(tif, TIFFTAG_ICCPROFILE, &icc_count, &icc_data) == 1) {
         result.icc_profile = std::vector<std::byte>((const std::byte *)icc_data,
-- 
2.43.0


From 7a0de6801347c9cc9e65805e5b8a42f19a100189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 062/106] fix: return an error when an image file without an
 extension does not exist

---
 src/imagefileops.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index 510935d..b495ff9 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -611,6 +611,9 @@ rvoe<RasterImage> load_image_file(const char *fname) {
     char buf[bufsize];
     buf[0] = 0;
     FILE *f = fopen(fname, "rb");
+    if(!f) {
+        RETERR(FileDoesNotExist);
+    }
     auto rc = fread(buf, 1, bufsize, f);
     fclose(f);
     if(rc != bufsize) {
-- 
2.43.0


From 85be5e6ac0cd74c79dd35437498bf5332a45e2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 063/106] fix: return an error for palette png images that are
 not black and white

---
 src/imagefileops.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index b495ff9..d24117f 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -93,6 +93,7 @@ void load_ga_png(png_struct *png_ptr, png_info *info_ptr, RawPixelImage &result)
 
 bool is_white(const png_color *c) { return c->red == 255 && c->green == 255 && c->blue == 255; }
 bool is_white(const png_color &c) { return is_white(&c); }
+bool is_black(const png_color &c) { return c.red == 0 && c.green == 0 && c.blue == 0; }
 
 void load_mono_png(png_struct *png_ptr,
                    png_info *info_ptr,
@@ -135,6 +136,12 @@ rvoe<NoReturnValue> try_load_mono_alpha_png(png_struct *png_ptr,
                                             std::span<png_color> palette,
                                             std::span<unsigned char> alpha,
                                             RawPixelImage &result) {
+    for(size_t i = 0; i < palette.size(); ++i) {
+        const int opacity = i < alpha.size() ? alpha[i] : 255;
+        if(opacity != 0 && (opacity != 255 || !(is_white(palette[i]) || is_black(palette[i])))) {
+            RETERR(NonBWColormap);
+        }
+    }
     unsigned char **rows = png_get_rows(png_ptr, info_ptr);
     result.md.pixel_depth = 1;
     result.md.alpha_depth = 1;
@@ -217,8 +224,10 @@ rvoe<RasterImage> do_png_load(png_struct *png_ptr, png_info *info_ptr) {
             RETERR(UnsupportedFormat);
         }
         if(palette_size == 2) {
-            // FIXME: validate that the two entries in the file are in fact black and white.
-
+            if(!(is_white(pspan[0]) && is_black(pspan[1])) &&
+               !(is_black(pspan[0]) && is_white(pspan[1]))) {
+                RETERR(NonBWColormap);
+            }
             // Some programs write ICC profiles to monochrome images. They confuse
             // PDF renderers quite a bit so delete.
             image.icc_profile.clear();
-- 
2.43.0


From 3023bb2254a1f997f92af79eed728ecb867849e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 064/106] fix: scale png samples that do not have 8 bits

---
 src/imagefileops.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index d24117f..b915dd8 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -23,6 +23,12 @@ const std::string_view JPG_SIG("\xff\xd8\xff", 3);
 const std::string_view TIF_SIG1("II*", 3);
 const std::string_view TIF_SIG2("MM", 2);
 
+// Extract a sample of at most 8 bits from a row where samples are packed.
+int packed_sample(const unsigned char *row, size_t i, int bit_depth) {
+    const size_t bit = i * bit_depth;
+    return (row[bit / 8] >> (8 - bit_depth - bit % 8)) & ((1 << bit_depth) - 1);
+}
+
 void load_rgb_png(png_struct *png_ptr, png_info *info_ptr, RawPixelImage &result) {
     unsigned char **rows = png_get_rows(png_ptr, info_ptr);
     result.md.pixel_depth = 8;
@@ -63,13 +69,16 @@ void load_gray_png(png_struct *png_ptr, png_info *info_ptr, RawPixelImage &resul
     unsigned char **rows = png_get_rows(png_ptr, info_ptr);
     result.md.pixel_depth = 8;
     result.md.cs = CAPY_IMAGE_CS_GRAY;
+    const int bit_depth = png_get_bit_depth(png_ptr, info_ptr);
+    const int max_value = (1 << bit_depth) - 1;
 
     result.pixels.reserve(result.md.w * result.md.h);
 
     for(uint32_t row_number = 0; row_number < result.md.h; ++row_number) {
-        std::byte *current_row = (std::byte *)rows[row_number];
+        const unsigned char *current_row = rows[row_number];
         for(size_t i = 0; i < result.md.w; ++i) {
-            result.pixels.push_back(current_row[i]);
+            const auto value = packed_sample(current_row, i, bit_depth);
+            result.pixels.push_back(std::byte(value * 255 / max_value));
         }
     }
 }
@@ -106,12 +115,13 @@ void load_mono_png(png_struct *png_ptr,
     result.md.cs = CAPY_IMAGE_CS_GRAY;
     const int num_padding_bits = (result.md.w % 8) == 0 ? 0 : 8 - result.md.w % 8;
     const int white_pixel = is_white(palette[0]) ? 0 : 1;
+    const int bit_depth = png_get_bit_depth(png_ptr, info_ptr);
     for(uint32_t j = 0; j < result.md.h; ++j) {
         unsigned char current_byte = 0;
         auto current_row = rows[j];
         for(uint32_t i = 0; i < result.md.w; ++i) {
             current_byte <<= 1;
-            if(current_row[i] != white_pixel) {
+            if(packed_sample(current_row, i, bit_depth) != white_pixel) {
                 current_byte |= 1;
             }
             if((i % 8 == 0) && i > 0) {
@@ -149,6 +159,7 @@ rvoe<NoReturnValue> try_load_mono_alpha_png(png_struct *png_ptr,
     const size_t final_size = (result.md.w + 7) / 8 * result.md.h;
     result.pixels.reserve(final_size);
     result.alpha.reserve(final_size);
+    const int bit_depth = png_get_bit_depth(png_ptr, info_ptr);
     const int num_padding_bits = (result.md.w % 8) == 0 ? 0 : 8 - result.md.w % 8;
     for(uint32_t j = 0; j < result.md.h; ++j) {
         unsigned char current_byte = 0;
@@ -157,8 +168,10 @@ rvoe<NoReturnValue> try_load_mono_alpha_png(png_struct *png_ptr,
         for(uint32_t i = 0; i < result.md.w; ++i) {
             current_byte <<= 1;
             current_mask_byte <<= 1;
-            auto input_value = current_row[i];
-            assert(input_value < palette.size()); // Span has .at only at c++26.
+            const size_t input_value = packed_sample(current_row, i, bit_depth);
+            if(input_value >= palette.size()) {
+                RETERR(UnsupportedFormat);
+            }
             bool is_white_p = is_white(palette[input_value]);
             bool is_trans_p = input_value < alpha.size() && alpha[input_value] == 0;
             if(!is_white_p) {
@@ -458,7 +471,7 @@ rvoe<RasterImage> load_png_file(FILE *f) {
         RETERR(UnsupportedFormat);
     }
     png_init_io(pclose.p, f);
-    png_read_png(pclose.p, pclose.i, PNG_TRANSFORM_PACKING, nullptr);
+    png_read_png(pclose.p, pclose.i, PNG_TRANSFORM_SCALE_16, nullptr);
     return do_png_load(pclose.p, pclose.i);
 }
 
-- 
2.43.0


From cf1e9f2a4b822e0eb03cc8b1926b6e4d1f3b6c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 065/106] fix: return an error for images whose data does not
 match their size

---
 src/document.cpp | 46 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 0b13c7c..f7e8026 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1507,8 +1507,47 @@ PdfDocument::get_subset_glyph(CapyPDF_FontId fid, const u8string &text, uint32_t
     return fss;
 }
 
+namespace {
+
+bool is_valid_depth(uint32_t depth) {
+    return depth == 1 || depth == 2 || depth == 4 || depth == 8 || depth == 16;
+}
+
+uint64_t image_data_size(const RasterImageMetadata &md, uint64_t num_channels, uint64_t depth) {
+    // Every row starts at a byte boundary.
+    return (md.w * num_channels * depth + 7) / 8 * md.h;
+}
+
+rvoe<NoReturnValue> validate_image_data(const RawPixelImage &image) {
+    if(image.md.w < 1 || image.md.h < 1) {
+        RETERR(InvalidImageSize);
+    }
+    if(image.pixels.empty()) {
+        RETERR(MissingPixels);
+    }
+    if(!is_valid_depth(image.md.pixel_depth) ||
+       (!image.alpha.empty() && !is_valid_depth(image.md.alpha_depth))) {
+        RETERR(UnsupportedFormat);
+    }
+    if(image.md.compression != CAPY_COMPRESSION_NONE) {
+        RETOK;
+    }
+    if(image.pixels.size() !=
+       image_data_size(image.md, num_channels_for(image.md.cs), image.md.pixel_depth)) {
+        RETERR(InvalidImageSize);
+    }
+    if(!image.alpha.empty() &&
+       image.alpha.size() != image_data_size(image.md, 1, image.md.alpha_depth)) {
+        RETERR(InvalidImageSize);
+    }
+    RETOK;
+}
+
+} // namespace
+
 rvoe<CapyPDF_ImageId> PdfDocument::add_mask_image(RawPixelImage image,
                                                   const ImagePDFProperties &params) {
+    ERCV(validate_image_data(image));
     if(image.md.cs != CAPY_IMAGE_CS_GRAY || image.md.pixel_depth != 1) {
         RETERR(UnsupportedFormat);
     }
@@ -1525,12 +1564,7 @@ rvoe<CapyPDF_ImageId> PdfDocument::add_mask_image(RawPixelImage image,
 
 rvoe<CapyPDF_ImageId> PdfDocument::add_image(RawPixelImage image,
                                              const ImagePDFProperties &params) {
-    if(image.md.w < 1 || image.md.h < 1) {
-        RETERR(InvalidImageSize);
-    }
-    if(image.pixels.empty()) {
-        RETERR(MissingPixels);
-    }
+    ERCV(validate_image_data(image));
     ERCV(validate_format(image));
     std::optional<int32_t> smask_id;
     if(params.as_mask && !image.alpha.empty()) {
-- 
2.43.0


From b4613267772826161b4f86b9048240595da591cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 066/106] fix: return an error for mask images that have an
 alpha channel

---
 src/document.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index f7e8026..9b03bdb 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1551,6 +1551,9 @@ rvoe<CapyPDF_ImageId> PdfDocument::add_mask_image(RawPixelImage image,
     if(image.md.cs != CAPY_IMAGE_CS_GRAY || image.md.pixel_depth != 1) {
         RETERR(UnsupportedFormat);
     }
+    if(!image.alpha.empty()) {
+        RETERR(MaskAndAlpha);
+    }
     if(!params.as_mask) {
         std::abort();
     }
-- 
2.43.0


From 4c4f805672d75df1cb13de9ed949c8f8912798b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 067/106] fix: do not read past the end of the pixels when
 converting images

---
 src/colorconverter.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/colorconverter.cpp b/src/colorconverter.cpp
index 8a967e6..c7a25ee 100644
--- a/src/colorconverter.cpp
+++ b/src/colorconverter.cpp
@@ -239,9 +239,16 @@ rvoe<RawPixelImage> PdfColorConverter::convert_image_to(RawPixelImage ri,
     cmsHPROFILE input_profile;
     const uint32_t input_pixelformat = pixelformat_for(ri.md.cs);
     const uint32_t output_pixelformat = pixelformat_for(output_format);
-    assert(ri.md.w > 0);
-    assert(ri.md.h > 0);
     const uint64_t num_pixels = ((uint64_t)ri.md.w) * ri.md.h;
+    if(num_pixels == 0) {
+        RETERR(InvalidImageSize);
+    }
+    if(ri.md.pixel_depth != 8 || ri.md.compression != CAPY_COMPRESSION_NONE) {
+        RETERR(UnsupportedFormat);
+    }
+    if(ri.pixels.size() != num_pixels * num_bytes_for((CapyPDF_Device_Colorspace)ri.md.cs)) {
+        RETERR(InvalidImageSize);
+    }
     LcmsHolder icc_holder;
     if(ri.icc_profile.empty()) {
         input_profile = profile_for(ri.md.cs);
-- 
2.43.0


From b46c5fe3982f643eb5e817b5937eb165d62b7712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 068/106] fix: check that ICC profiles are valid and have the
 right number of channels

---
 src/document.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 9b03bdb..1ad8e27 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1408,10 +1408,14 @@ rvoe<CapyPDF_IccColorSpaceId> PdfDocument::add_icc_profile(std::span<std::byte>
                                                            int32_t num_channels) {
     auto existing = find_icc_profile(contents);
     if(existing) {
+        if(icc_profiles.at(existing->id).num_channels != num_channels) {
+            RETERR(IncorrectColorChannelCount);
+        }
         return existing.value();
     }
-    if(contents.empty()) {
-        return CapyPDF_IccColorSpaceId{-1};
+    ERC(profile_channels, cm.get_num_channels(contents));
+    if(profile_channels != num_channels) {
+        RETERR(IncorrectColorChannelCount);
     }
     ObjectFormatter fmt;
     fmt.begin_dict();
-- 
2.43.0


From 83a5ba335790a743e0d8f1e1e573ee515aebe49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:41 +0000
Subject: [PATCH 069/106] fix: do not drop the transparency of png images with
 two colors

---
 src/imagefileops.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index b915dd8..d8b35a2 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -236,7 +236,11 @@ rvoe<RasterImage> do_png_load(png_struct *png_ptr, png_info *info_ptr) {
         if(num_channels != 1) {
             RETERR(UnsupportedFormat);
         }
-        if(palette_size == 2) {
+        const std::span<unsigned char> aspan(trns_rc == PNG_INFO_tRNS ? trans : nullptr,
+                                             trns_rc == PNG_INFO_tRNS ? num_trans : 0);
+        const bool has_alpha =
+            std::any_of(aspan.begin(), aspan.end(), [](unsigned char a) { return a != 255; });
+        if(palette_size == 2 && !has_alpha) {
             if(!(is_white(pspan[0]) && is_black(pspan[1])) &&
                !(is_black(pspan[0]) && is_white(pspan[1]))) {
                 RETERR(NonBWColormap);
@@ -246,8 +250,7 @@ rvoe<RasterImage> do_png_load(png_struct *png_ptr, png_info *info_ptr) {
             image.icc_profile.clear();
             // white
             load_mono_png(png_ptr, info_ptr, pspan, image);
-        } else if((palette_size == 3 || palette_size == 4) && trns_rc == PNG_INFO_tRNS) {
-            std::span<unsigned char> aspan(trans, num_trans);
+        } else if(palette_size >= 2 && palette_size <= 4 && trns_rc == PNG_INFO_tRNS) {
             image.icc_profile.clear();
             ERCV(try_load_mono_alpha_png(png_ptr, info_ptr, pspan, aspan, image));
         } else {
-- 
2.43.0


From 799456fe1d86d6571b333abb9a043c004fe7913c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:41 +0000
Subject: [PATCH 070/106] fix: return an error when a jpeg image is used as a
 mask

---
 src/generator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/generator.cpp b/src/generator.cpp
index 78e1155..d8dafb3 100644
--- a/src/generator.cpp
+++ b/src/generator.cpp
@@ -70,6 +70,9 @@ rvoe<CapyPDF_ImageId> PdfGen::add_image(RasterImage image, const ImagePDFPropert
             return pdoc.add_image(std::move(*raster), params);
         }
     } else if(auto *jpg = std::get_if<jpg_image>(&image)) {
+        if(params.as_mask) {
+            RETERR(UnsupportedFormat);
+        }
         return pdoc.embed_jpg(std::move(*jpg), params);
     } else {
         RETERR(Unreachable);
-- 
2.43.0


From 512e6dacbdddd4c1211d0121facb423e5080a284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:30 +0000
Subject: [PATCH 071/106] fix: align, sort and checksum the tables of embedded
 fonts

---
 src/ft_subsetter.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 506df11..c1f2301 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -10,6 +10,7 @@
 #include FT_FREETYPE_H
 
 #include <cassert>
+#include <algorithm>
 #include <bit>
 #include <cmath>
 
@@ -696,8 +697,16 @@ TTHmtx subset_hmtx(const TrueTypeFontFile &source, const std::vector<TTGlyphs> &
     return subset;
 }
 
+// All tables must start at an offset that is divisible by four.
+void pad_to_table_boundary(std::vector<std::byte> &odata) {
+    while(odata.size() % sizeof(uint32_t) != 0) {
+        odata.push_back(std::byte{0});
+    }
+}
+
 TTDirEntry
 write_raw_table(std::vector<std::byte> &odata, const char *tag, std::span<const std::byte> bytes) {
+    pad_to_table_boundary(odata);
     TTDirEntry e;
     e.set_tag(tag);
     e.offset = odata.size();
@@ -739,9 +748,9 @@ std::vector<std::byte> serialize_font(TrueTypeFontFile &tf,
     tf.head.checksum_adjustment = 0;
     // const auto start_of_head = odata.length(); // For checksum adjustment.
     tf.head.swap_endian();
-    const auto head_offset = odata.size();
     directory.push_back(write_raw_table(
         odata, "head", std::span<const std::byte>((const std::byte *)&tf.head, sizeof(tf.head))));
+    const auto head_offset = directory.back().offset;
 
     tf.hhea.swap_endian();
     directory.push_back(write_raw_table(
@@ -752,6 +761,7 @@ std::vector<std::byte> serialize_font(TrueTypeFontFile &tf,
         odata, "maxp", std::span<const std::byte>((const std::byte *)&tf.maxp, sizeof(tf.maxp))));
     // glyph time
     std::vector<int32_t> loca;
+    pad_to_table_boundary(odata);
     size_t glyphs_start = odata.size();
     // All new glyph data should be in the "subglyphs" parameter.
     assert(tf.glyphs.empty());
@@ -766,6 +776,7 @@ std::vector<std::byte> serialize_font(TrueTypeFontFile &tf,
     e.length = odata.size() - glyphs_start;
     directory.push_back(e);
 
+    pad_to_table_boundary(odata);
     e.set_tag("loca");
     e.offset = odata.size();
     for(auto offset : loca) {
@@ -775,6 +786,7 @@ std::vector<std::byte> serialize_font(TrueTypeFontFile &tf,
     e.length = odata.size() - e.offset;
     directory.push_back(e);
 
+    pad_to_table_boundary(odata);
     e.set_tag("hmtx");
     e.offset = odata.size();
     for(auto hm : tf.hmtx.longhor) {
@@ -787,11 +799,16 @@ std::vector<std::byte> serialize_font(TrueTypeFontFile &tf,
     }
     e.length = odata.size() - e.offset;
     directory.push_back(e);
+    pad_to_table_boundary(odata);
     assert(directory.size() == (size_t)tf.num_directory_entries());
+    std::ranges::sort(directory, [](const TTDirEntry &a, const TTDirEntry &b) {
+        return memcmp(a.tag, b.tag, sizeof(a.tag)) < 0;
+    });
     std::byte *directory_start = odata.data() + sizeof(TTOffsetTable);
     std::span<std::byte> full_view(odata.data(), odata.size());
     for(int i = 0; i < (int)directory.size(); ++i) {
-        e.checksum = ttf_checksum(full_view.subspan(e.offset, e.length));
+        auto &entry = directory[i];
+        entry.checksum = ttf_checksum(full_view.subspan(entry.offset, entry.length));
         directory[i].swap_endian();
         memcpy(directory_start + i * sizeof(TTDirEntry), &directory[i], sizeof(TTDirEntry));
     }
-- 
2.43.0


From 281d7ec7b80b425182b3f8325829212943a3dec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:31 +0000
Subject: [PATCH 072/106] fix: write only the maxp table in the maxp table of
 embedded fonts

---
 src/ft_subsetter.cpp | 9 +++++++--
 src/ft_subsetter.hpp | 1 +
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index c1f2301..94478fe 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -376,6 +376,12 @@ void TTMaxp::swap_endian() {
     std::visit([](auto &d) { d.swap_endian(); }, data);
 }
 
+std::span<const std::byte> TTMaxp::bytes() const {
+    return std::visit(
+        [](const auto &d) { return std::span<const std::byte>((const std::byte *)&d, sizeof(d)); },
+        data);
+}
+
 namespace {
 
 /*
@@ -757,8 +763,7 @@ std::vector<std::byte> serialize_font(TrueTypeFontFile &tf,
         odata, "hhea", std::span<const std::byte>((const std::byte *)&tf.hhea, sizeof(tf.hhea))));
 
     tf.maxp.swap_endian();
-    directory.push_back(write_raw_table(
-        odata, "maxp", std::span<const std::byte>((const std::byte *)&tf.maxp, sizeof(tf.maxp))));
+    directory.push_back(write_raw_table(odata, "maxp", tf.maxp.bytes()));
     // glyph time
     std::vector<int32_t> loca;
     pad_to_table_boundary(odata);
diff --git a/src/ft_subsetter.hpp b/src/ft_subsetter.hpp
index b7a54f0..d1c5530 100644
--- a/src/ft_subsetter.hpp
+++ b/src/ft_subsetter.hpp
@@ -108,6 +108,7 @@ public:
     uint16_t num_glyphs() const;
     void set_num_glyphs(uint16_t glyph_count);
     void swap_endian();
+    std::span<const std::byte> bytes() const;
 
 private:
     std::variant<TTMaxp05, TTMaxp10> data;
-- 
2.43.0


From 13da0877001d9e886ab4d816dd1fe70b2226f706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:31 +0000
Subject: [PATCH 073/106] fix: use the correct search range if the number of
 font tables is a power of two

---
 src/ft_subsetter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 94478fe..694883e 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -72,10 +72,10 @@ struct TTOffsetTable {
         num_tables = new_size;
         assert(new_size > 0);
         int i = 0;
-        while((1 << i) < new_size) {
+        while((1 << (i + 1)) <= new_size) {
             ++i;
         }
-        const auto pow2 = 1 << (i - 1);
+        const auto pow2 = 1 << i;
         // https://developer.apple.com/fonts/TrueType-Reference-Manual/RM06/Chap6.html
         //
         // Note that for table 4 the text description has a different definition for
-- 
2.43.0


From c6a6c63a80ff970e1fb3c725dd55e46d7b5fa81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:42 +0000
Subject: [PATCH 074/106] fix: take the scale of composite glyph components
 into account

---
 src/ft_subsetter.cpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 694883e..2dc2dfb 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -862,6 +862,23 @@ std::vector<std::byte> gen_cmap(const std::vector<TTGlyphs> &glyphs) {
     return buf;
 }
 
+// The number of bytes after the flags and glyph index of a composite glyph component.
+int64_t component_argument_size(uint16_t component_flag) {
+    const uint16_t ARGS_ARE_WORDS = 0x01;
+    const uint16_t HAVE_SCALE = 0x08;
+    const uint16_t HAVE_XY_SCALE = 0x40;
+    const uint16_t HAVE_TWO_BY_TWO = 0x80;
+    int64_t size = (component_flag & ARGS_ARE_WORDS) ? 2 * sizeof(int16_t) : 2 * sizeof(int8_t);
+    if(component_flag & HAVE_SCALE) {
+        size += sizeof(int16_t);
+    } else if(component_flag & HAVE_XY_SCALE) {
+        size += 2 * sizeof(int16_t);
+    } else if(component_flag & HAVE_TWO_BY_TWO) {
+        size += 4 * sizeof(int16_t);
+    }
+    return size;
+}
+
 rvoe<int16_t> num_contours(std::span<const std::byte> buf) {
     ERC(num_contours, extract<int16_t>(buf, 0));
     byte_swap_inplace(num_contours);
@@ -1067,7 +1084,6 @@ rvoe<std::vector<uint32_t>> composite_subglyphs(std::span<const std::byte> buf)
     auto composite_data = std::span<const std::byte>(buf).subspan(5 * sizeof(int16_t));
     int64_t composite_offset = 0;
     const uint16_t MORE_COMPONENTS = 0x20;
-    const uint16_t ARGS_ARE_WORDS = 0x01;
     uint16_t component_flag;
     do {
         ERC(rv, extract<uint16_t>(composite_data, composite_offset));
@@ -1077,11 +1093,7 @@ rvoe<std::vector<uint32_t>> composite_subglyphs(std::span<const std::byte> buf)
         ERC(glyph_index, extract<uint16_t>(composite_data, composite_offset));
         byte_swap_inplace(glyph_index);
         composite_offset += sizeof(uint16_t);
-        if(component_flag & ARGS_ARE_WORDS) {
-            composite_offset += 2 * sizeof(int16_t);
-        } else {
-            composite_offset += 2 * sizeof(int8_t);
-        }
+        composite_offset += component_argument_size(component_flag);
         subglyphs.push_back(glyph_index);
     } while(component_flag & MORE_COMPONENTS);
     return subglyphs;
@@ -1095,7 +1107,6 @@ reassign_composite_glyph_numbers(std::span<std::byte> buf,
     auto composite_data = buf.subspan(header_size);
     int64_t composite_offset = 0;
     const uint16_t MORE_COMPONENTS = 0x20;
-    const uint16_t ARGS_ARE_WORDS = 0x01;
     uint16_t component_flag;
     do {
         ERC(rv, extract<uint16_t>(composite_data, composite_offset));
@@ -1106,11 +1117,7 @@ reassign_composite_glyph_numbers(std::span<std::byte> buf,
         ERC(glyph_index, extract<uint16_t>(composite_data, composite_offset));
         byte_swap_inplace(glyph_index);
         composite_offset += sizeof(uint16_t);
-        if(component_flag & ARGS_ARE_WORDS) {
-            composite_offset += 2 * sizeof(int16_t);
-        } else {
-            composite_offset += 2 * sizeof(int8_t);
-        }
+        composite_offset += component_argument_size(component_flag);
         auto it = mapping.find(glyph_index);
         if(it == mapping.end()) {
             fprintf(stderr, "FAILfailFAIL\n");
-- 
2.43.0


From 01635a11aee21772d0da784270884c7d1a4fb75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:41 +0000
Subject: [PATCH 075/106] fix: write correct bounding boxes for glyphs of
 variable fonts

---
 src/ft_subsetter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 2dc2dfb..b052827 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -589,8 +589,8 @@ GlyphBoundingBox get_glyph_bb(FT_Outline outline) {
         const auto &px = outline.points[i].x;
         const auto &py = outline.points[i].y;
         bb.xMin = std::min(bb.xMin, px);
-        bb.xMax = std::max(bb.xMax, py);
-        bb.yMin = std::min(bb.yMin, px);
+        bb.xMax = std::max(bb.xMax, px);
+        bb.yMin = std::min(bb.yMin, py);
         bb.yMax = std::max(bb.yMax, py);
     }
     return bb;
-- 
2.43.0


From 4a1477353843fb65ee4db80a00f8c1900d158e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:41 +0000
Subject: [PATCH 076/106] fix: release font variation data if the named
 instance is not found

---
 src/document.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index 1ad8e27..0b65e14 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -361,6 +361,7 @@ rvoe<NoReturnValue> initialize_multimaster(FT_Face face, const FontProperties &p
         error = FT_Get_Default_Named_Instance(face, &named_instance);
         if(error != 0) {
             print_freetype_error(error);
+            FT_Done_MM_Var(face->glyph->library, mmvar);
             RETERR(FreeTypeError);
         }
     }
@@ -368,6 +369,7 @@ rvoe<NoReturnValue> initialize_multimaster(FT_Face face, const FontProperties &p
     error = FT_Set_Named_Instance(face, named_instance);
     if(error != 0) {
         print_freetype_error(error);
+        FT_Done_MM_Var(face->glyph->library, mmvar);
         RETERR(FreeTypeError);
     }
 
-- 
2.43.0


From 7ac9de9b8c04cd2562eb10bd6bd553594e991af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:12 +0000
Subject: [PATCH 077/106] fix: do not mix up glyphs that have the same text

---
 src/fontsubsetter.cpp | 19 ++++++++++++-------
 src/fontsubsetter.hpp |  2 +-
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/fontsubsetter.cpp b/src/fontsubsetter.cpp
index 183aecc..0928904 100644
--- a/src/fontsubsetter.cpp
+++ b/src/fontsubsetter.cpp
@@ -111,7 +111,7 @@ rvoe<FontSubsetInfo> FontSubsetter::get_glyph_subset(const u8string &text,
         }
         return *existing_gid;
     }
-    auto trial = find_glyph(text);
+    auto trial = find_glyph(text, glyph_id);
     if(trial) {
         return trial.value();
     }
@@ -197,10 +197,13 @@ std::optional<FontSubsetInfo> FontSubsetter::find_existing_glyph(uint32_t gid) c
 }
 
 std::optional<FontSubsetInfo> FontSubsetter::find_glyph_with_codepoint(uint32_t codepoint) const {
+    // The same codepoint might have been used for other glyphs as well.
+    const uint32_t gid = FT_Get_Char_Index(face, codepoint);
     auto loc = std::find_if(
-        subset.glyphs.cbegin(), subset.glyphs.cend(), [&codepoint](const TTGlyphs &ttg) {
+        subset.glyphs.cbegin(), subset.glyphs.cend(), [&codepoint, &gid](const TTGlyphs &ttg) {
             if(std::holds_alternative<RegularGlyph>(ttg)) {
-                return std::get<RegularGlyph>(ttg).unicode_codepoint == codepoint;
+                const auto &rg = std::get<RegularGlyph>(ttg);
+                return rg.glyph_index == gid && rg.unicode_codepoint == codepoint;
             }
             return false;
         });
@@ -210,11 +213,13 @@ std::optional<FontSubsetInfo> FontSubsetter::find_glyph_with_codepoint(uint32_t
     return {};
 }
 
-std::optional<FontSubsetInfo> FontSubsetter::find_glyph(const u8string &text) const {
-    auto loc =
-        std::find_if(subset.glyphs.cbegin(), subset.glyphs.cend(), [&text](const TTGlyphs &ttg) {
+std::optional<FontSubsetInfo> FontSubsetter::find_glyph(const u8string &text,
+                                                       uint32_t gid) const {
+    auto loc = std::find_if(
+        subset.glyphs.cbegin(), subset.glyphs.cend(), [&text, &gid](const TTGlyphs &ttg) {
             if(std::holds_alternative<LigatureGlyph>(ttg)) {
-                return std::get<LigatureGlyph>(ttg).text == text;
+                const auto &lg = std::get<LigatureGlyph>(ttg);
+                return lg.glyph_index == gid && lg.text == text;
             }
             return false;
         });
diff --git a/src/fontsubsetter.hpp b/src/fontsubsetter.hpp
index 10c5c03..aef81a4 100644
--- a/src/fontsubsetter.hpp
+++ b/src/fontsubsetter.hpp
@@ -60,7 +60,7 @@ private:
     FontProperties props;
     std::optional<FontSubsetInfo> find_existing_glyph(uint32_t gid) const;
     std::optional<FontSubsetInfo> find_glyph_with_codepoint(uint32_t codepoint) const;
-    std::optional<FontSubsetInfo> find_glyph(const u8string &text) const;
+    std::optional<FontSubsetInfo> find_glyph(const u8string &text, uint32_t gid) const;
 
     FontSubsetData subset;
 };
-- 
2.43.0


From 0054a0f8d945412d09780efdd20255db3e197d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:12 +0000
Subject: [PATCH 078/106] fix: show the correct glyph for codepoint zero

---
 src/ft_subsetter.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index b052827..56017e1 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -1024,11 +1024,7 @@ rvoe<std::vector<std::byte>> generate_cff_font(const TrueTypeFontFile &source,
     uint32_t counter = 0;
     for(const auto &g : glyphs) {
         if(const auto *rg = std::get_if<RegularGlyph>(&g)) {
-            if(rg->unicode_codepoint == 0) {
-                converted.emplace_back(0, 0);
-            } else {
-                converted.emplace_back(rg->unicode_codepoint, rg->glyph_index);
-            }
+            converted.emplace_back(rg->unicode_codepoint, font_id_for_glyph(g));
         } else if(const auto *lg = std::get_if<LigatureGlyph>(&g)) {
             // The glyph represented something bigger than one codepoint,
             // such as "ffi". Just write a random value in the private
@@ -1133,7 +1129,8 @@ reassign_composite_glyph_numbers(std::span<std::byte> buf,
 uint32_t font_id_for_glyph(const TTGlyphs &g) {
     if(std::holds_alternative<RegularGlyph>(g)) {
         auto &rg = std::get<RegularGlyph>(g);
-        if(rg.unicode_codepoint == 0) {
+        // The .notdef glyph of the start state.
+        if(rg.glyph_index == (uint32_t)-1) {
             return 0;
         } else {
             return rg.glyph_index;
-- 
2.43.0


From 0a5aebca802ab6b285dbb7bf97c2fe9ea847db99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:12 +0000
Subject: [PATCH 079/106] fix: map glyphs to codepoints outside the BMP
 correctly

---
 src/pdfwriter.cpp |  3 ++-
 src/utils.cpp     | 10 ++++++++++
 src/utils.hpp     |  1 +
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index e85b20d..12ab4cc 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -109,7 +109,8 @@ endcodespacerange
                     unicode_codepoint = std::get<RegularGlyph>(g).unicode_codepoint;
                 }
             }
-            std::format_to(appender, "<{:04X}> <{:04X}>\n", i, unicode_codepoint);
+            std::format_to(
+                appender, "<{:04X}> <{}>\n", i, codepoint_to_utf16be_hex(unicode_codepoint));
         }
     }
     buf += R"(endbfchar
diff --git a/src/utils.cpp b/src/utils.cpp
index 86a01b4..1ec0686 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -228,6 +228,16 @@ std::string utf8_to_pdfutf16be(const u8string &input, bool add_adornments) {
     return encoded;
 }
 
+std::string codepoint_to_utf16be_hex(uint32_t codepoint) {
+    std::string encoded;
+    std::vector<uint16_t> u16buf;
+    append_glyph_to_utf16be(codepoint, u16buf);
+    for(const auto &u16 : u16buf) {
+        std::format_to(std::back_inserter(encoded), "{:04X}", u16);
+    }
+    return encoded;
+}
+
 bool is_valid_utf8(std::string_view input) {
     UtfDecodeStep par;
     // clang-format off
diff --git a/src/utils.hpp b/src/utils.hpp
index c5521c4..567acf8 100644
--- a/src/utils.hpp
+++ b/src/utils.hpp
@@ -33,6 +33,7 @@ rvoe<std::vector<std::byte>> load_file_as_bytes(FILE *f);
 void write_file(const char *ofname, const char *buf, size_t bufsize);
 
 std::string utf8_to_pdfutf16be(const u8string &input, bool add_adornments = true);
+std::string codepoint_to_utf16be_hex(uint32_t codepoint);
 
 bool is_valid_utf8(std::string_view input);
 
-- 
2.43.0


From 435d3145499b31d94d0214456e0afe06e3189474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:12 +0000
Subject: [PATCH 080/106] fix: write at most 100 mappings in each block of the
 ToUnicode map

---
 src/pdfwriter.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index 12ab4cc..6cb8fbb 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -13,7 +13,9 @@
 #include FT_FONT_FORMATS_H
 #include FT_OPENTYPE_VALIDATE_H
 
+#include <algorithm>
 #include <cassert>
+#include <cmath>
 
 #ifdef _WIN32
 #include <io.h>
@@ -89,12 +91,21 @@ begincmap
 1 begincodespacerange
 <0000> <ffff>
 endcodespacerange
-{} beginbfchar
-)",
-                                  glyphs.size() - 1);
+)");
     // Glyph zero is not mapped.
     auto appender = std::back_inserter(buf);
+    const size_t max_block_size = 100;
+    if(glyphs.size() == 1) {
+        buf += "0 beginbfchar\n";
+    }
     for(size_t i = 1; i < glyphs.size(); ++i) {
+        if((i - 1) % max_block_size == 0) {
+            if(i > 1) {
+                buf += "endbfchar\n";
+            }
+            std::format_to(
+                appender, "{} beginbfchar\n", std::min(max_block_size, glyphs.size() - i));
+        }
         const auto &g = glyphs[i];
         if(std::holds_alternative<LigatureGlyph>(g)) {
             const auto &lg = std::get<LigatureGlyph>(g);
-- 
2.43.0


From 6f3e2d4e56f0e415470581fb466df06a415afaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:12 +0000
Subject: [PATCH 081/106] fix: write the sizes of font descriptors in glyph
 space units

---
 src/pdfwriter.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index 6cb8fbb..415385f 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -782,15 +782,17 @@ rvoe<NoReturnValue> PdfWriter::write_subset_font_descriptor(int32_t object_num,
     fmt.add_token_pair("/Flags", fflags);
     fmt.add_token("/FontBBox");
     fmt.begin_array();
-    fmt.add_token((int)face->bbox.xMin);
-    fmt.add_token((int)face->bbox.yMin);
-    fmt.add_token((int)face->bbox.xMax);
-    fmt.add_token((int)face->bbox.yMax);
+    // In PDF glyph space there are always 1000 units per em.
+    auto scale = [&face](FT_Pos v) { return (int)std::lround(v * 1000.0 / face->units_per_EM); };
+    fmt.add_token(scale(face->bbox.xMin));
+    fmt.add_token(scale(face->bbox.yMin));
+    fmt.add_token(scale(face->bbox.xMax));
+    fmt.add_token(scale(face->bbox.yMax));
     fmt.end_array();
     fmt.add_token_pair("/ItalicAngle", "0");                // Cairo always sets this to zero.
     fmt.add_token_pair("/Ascent", "0");                     // face->ascender
     fmt.add_token_pair("/Descent", "0");                    // face->descender
-    fmt.add_token_pair("/CapHeight", (int)face->bbox.yMax); // Copying what Cairo does.
+    fmt.add_token_pair("/CapHeight", scale(face->bbox.yMax)); // Copying what Cairo does.
     fmt.add_token_pair("/StemV", 80);                       // Cairo always sets these to 80.
     fmt.add_token_pair("/StemH", 80);
     fmt.add_token("/FontFile3");
-- 
2.43.0


From 076a702963b10da2d96f4ab1327b6b9eb8645fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:12 +0000
Subject: [PATCH 082/106] fix: do not crash if a font does not have a
 PostScript name

---
 src/pdfwriter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index 415385f..6fcd071 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -61,7 +61,7 @@ std::string fontname2pdfname(std::string_view original) {
     return out;
 }
 
-std::string subsetfontname2pdfname(std::string_view original, const int32_t subset_number) {
+std::string subsetfontname2pdfname(const char *original, const int32_t subset_number) {
     std::string out;
     const int bufsize = 10;
     char buf[bufsize];
@@ -70,7 +70,8 @@ std::string subsetfontname2pdfname(std::string_view original, const int32_t subs
         out += 'A' + (buf[i] - '0');
     }
     out += "+";
-    out += fontname2pdfname(original);
+    // Fonts are not required to have a PostScript name.
+    out += fontname2pdfname(original ? original : "Unnamed");
     return out;
 }
 
-- 
2.43.0


From a16c406ed16f528b33c5957a01a4e29bcddd912f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:12 +0000
Subject: [PATCH 083/106] fix: refuse glyphs with an invalid codepoint

---
 src/capi.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/capi.cpp b/src/capi.cpp
index 94abe6a..498b075 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -1588,6 +1588,9 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_text_sequence_append_raw_glyph(CapyPDF_TextSequen
     if(glyph_id == 0) {
         return conv_err(ErrorCode::MissingGlyph);
     }
+    if(codepoint > 0x10FFFF || (codepoint >= 0xD800 && codepoint <= 0xDFFF)) {
+        return conv_err(ErrorCode::BadUtf8);
+    }
     auto rc = ts->append_raw_glyph(glyph_id, codepoint);
     return conv_err(rc);
     API_BOUNDARY_END;
-- 
2.43.0


From a24d623cb8a12c05079172f5c838221487a1c3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:12 +0000
Subject: [PATCH 084/106] fix: calculate kerning of text widths correctly

---
 src/generator.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/generator.cpp b/src/generator.cpp
index d8dafb3..c4e5177 100644
--- a/src/generator.cpp
+++ b/src/generator.cpp
@@ -192,13 +192,14 @@ PdfGen::utf8_text_width(const u8string &txt, CapyPDF_FontId fid, double pointsiz
                 RETERR(FreeTypeError);
             }
             if(kerning.x != 0) {
-                // None of the fonts I tested had kerning that Freetype recognized,
-                // so don't know if this actually works.
-                w += int(kerning.x) / face->units_per_EM;
+                // In 26.6 pixels at the size and resolution set by glyph_advance below.
+                w += kerning.x / 64.0 / 300.0 * 72.0;
             }
         }
         auto bob = glyph_advance(fid, pointsize, codepoint);
-        assert(bob);
+        if(!bob) {
+            RETERR(FreeTypeError);
+        }
         w += *bob;
         previous_codepoint = codepoint;
     }
-- 
2.43.0


From c95663dfb4f4ccba51b7df773f14ff3c98a363b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:36 +0000
Subject: [PATCH 085/106] fix: check font table positions against the file size
 correctly

---
 src/ft_subsetter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 56017e1..bffbac7 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -891,6 +891,9 @@ rvoe<TrueTypeFontFile> parse_truetype_file(DataSource backing, uint64_t header_o
     TrueTypeFontFile tf;
     tf.original_data = std::move(backing);
     ERC(original_data, span_of_source(tf.original_data));
+    if(header_offset > original_data.size()) {
+        RETERR(MalformedFontFile);
+    }
     auto header_span = original_data.subspan(header_offset);
     if(header_span.size() < sizeof(TTOffsetTable)) {
         RETERR(MalformedFontFile);
@@ -901,7 +904,7 @@ rvoe<TrueTypeFontFile> parse_truetype_file(DataSource backing, uint64_t header_o
     for(int i = 0; i < off.num_tables; ++i) {
         ERC(e, extract<TTDirEntry>(header_span, sizeof(off) + i * sizeof(TTDirEntry)));
         e.swap_endian();
-        if(e.offset + e.length > original_data.size()) {
+        if(uint64_t(e.offset) + e.length > original_data.size()) {
             RETERR(IndexOutOfBounds);
         }
 #ifndef CAPYFUZZING
-- 
2.43.0


From b9d17b052150285bb58499eb4efa3a085581bb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:36 +0000
Subject: [PATCH 086/106] fix: report a wrong magic number in a font file as an
 error

---
 src/ft_subsetter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index bffbac7..0e1451c 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -432,7 +432,9 @@ rvoe<TTHead> load_head(const std::vector<TTDirEntry> &dir, std::span<const std::
     ERC(head, extract<TTHead>(buf, e->offset));
     head.swap_endian();
 #ifndef CAPYFUZZING
-    assert(head.magic == 0x5f0f3cf5);
+    if(head.magic != 0x5f0f3cf5) {
+        RETERR(MalformedFontFile);
+    }
 #endif
     return head;
 }
-- 
2.43.0


From 7502b355c22ebf7b8411f40538cb72e16688419f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:36 +0000
Subject: [PATCH 087/106] fix: do not loop forever loading fonts with 65535
 glyphs

---
 src/ft_subsetter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 0e1451c..41f350c 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -451,14 +451,14 @@ rvoe<std::vector<int32_t>> load_loca(const std::vector<TTDirEntry> &dir,
     std::vector<int32_t> offsets;
     offsets.reserve(num_glyphs);
     if(index_to_loc_format == 0) {
-        for(uint16_t i = 0; i <= num_glyphs; ++i) {
+        for(uint32_t i = 0; i <= num_glyphs; ++i) {
             uint16_t offset;
             ERCV(safe_memcpy(&offset, buf, loca->offset + i * sizeof(uint16_t)));
             byte_swap_inplace(offset);
             offsets.push_back(offset * 2);
         }
     } else if(index_to_loc_format == 1) {
-        for(uint16_t i = 0; i <= num_glyphs; ++i) {
+        for(uint32_t i = 0; i <= num_glyphs; ++i) {
             int32_t offset;
             ERCV(safe_memcpy(&offset, buf, loca->offset + i * sizeof(int32_t)));
             byte_swap_inplace(offset);
-- 
2.43.0


From 5c8bdadc297cd30494f39d4b6849b654500aff96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:36 +0000
Subject: [PATCH 088/106] fix: reject fonts that have no glyphs or no
 horizontal metrics

---
 src/ft_subsetter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 41f350c..39f5e1c 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -502,7 +502,7 @@ rvoe<TTHmtx> load_hmtx(const std::vector<TTDirEntry> &dir,
     if(!e) {
         RETERR(MalformedFontFile);
     }
-    if(num_hmetrics > num_glyphs) {
+    if(num_hmetrics == 0 || num_hmetrics > num_glyphs) {
         RETERR(MalformedFontFile);
     }
     TTHmtx hmtx;
@@ -941,6 +941,9 @@ rvoe<TrueTypeFontFile> parse_truetype_file(DataSource backing, uint64_t header_o
         ERC(cffg, load_CFF_glyphs(cff->offset, original_data, tf.maxp.num_glyphs()))
         tf.cff = std::move(cffg);
     }
+    if(tf.num_glyphs() == 0) {
+        RETERR(MalformedFontFile);
+    }
     ERC(cvt, load_raw_table(directory, original_data, "cvt "));
     tf.cvt = cvt;
     ERC(fpgm, load_raw_table(directory, original_data, "fpgm"));
-- 
2.43.0


From dd2fb3b0ae95e20600479f3bc4d1b2282790a519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:36 +0000
Subject: [PATCH 089/106] fix: report a wrong number of CFF glyphs as an error

---
 src/ft_subsetter.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 39f5e1c..5d3f98c 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -548,10 +548,13 @@ rvoe<std::vector<std::span<std::byte>>> load_GLYF_glyphs(uint32_t offset,
 }
 
 rvoe<CFFont> load_CFF_glyphs(uint32_t offset, std::span<std::byte> buf, uint16_t num_glyphs) {
+    if(offset > buf.size()) {
+        RETERR(MalformedFontFile);
+    }
     auto cff_span = buf.subspan(offset);
     auto cff = parse_cff_data(cff_span);
-    if(cff.has_value()) {
-        assert(cff->char_strings.size() == num_glyphs);
+    if(cff.has_value() && cff->char_strings.size() != num_glyphs) {
+        RETERR(MalformedFontFile);
     }
     return cff;
 }
-- 
2.43.0


From db462c1702551d8cd132189dc57050222aab6bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:36 +0000
Subject: [PATCH 090/106] fix: do not allocate memory based on an unchecked
 font count

---
 src/ft_subsetter.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 5d3f98c..6afa648 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -982,7 +982,6 @@ rvoe<TrueTypeFontFile> parse_ttc_file(DataSource backing, const FontProperties &
     ERC(header, extract<TTCHeader>(original_data, 0));
     header.swap_endian();
     std::vector<uint32_t> offsets;
-    offsets.reserve(header.num_fonts);
     for(uint32_t i = 0; i < header.num_fonts; ++i) {
         ERC(off, extract<uint32_t>(original_data, sizeof(TTCHeader) + i * sizeof(uint32_t)));
         offsets.push_back(std::byteswap(off));
-- 
2.43.0


From 1a3e9cd63699fcfec0458d74c4aa8181584c2d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:36 +0000
Subject: [PATCH 091/106] fix: check the size of composite glyphs

---
 src/ft_subsetter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 6afa648..33c65d4 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -1087,6 +1087,9 @@ rvoe<bool> is_composite_glyph(const std::vector<std::byte> &buf) {
 rvoe<std::vector<uint32_t>> composite_subglyphs(std::span<const std::byte> buf) {
     std::vector<uint32_t> subglyphs;
     assert(num_contours(buf).value() < 0);
+    if(buf.size() < sizeof(TTGlyphHeader)) {
+        RETERR(MalformedFontFile);
+    }
     auto composite_data = std::span<const std::byte>(buf).subspan(5 * sizeof(int16_t));
     int64_t composite_offset = 0;
     const uint16_t MORE_COMPONENTS = 0x20;
@@ -1110,6 +1113,9 @@ reassign_composite_glyph_numbers(std::span<std::byte> buf,
                                  const std::unordered_map<uint32_t, uint32_t> &mapping) {
     const int64_t header_size = 5 * sizeof(int16_t);
 
+    if(buf.size() < header_size) {
+        RETERR(MalformedFontFile);
+    }
     auto composite_data = buf.subspan(header_size);
     int64_t composite_offset = 0;
     const uint16_t MORE_COMPONENTS = 0x20;
-- 
2.43.0


From b39433fbf57b6ee08151a3fe5607d73687a1f90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:36 +0000
Subject: [PATCH 092/106] fix: do not abort when a composite glyph does not fit
 in the subset

---
 src/fontsubsetter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fontsubsetter.cpp b/src/fontsubsetter.cpp
index 0928904..b7f218c 100644
--- a/src/fontsubsetter.cpp
+++ b/src/fontsubsetter.cpp
@@ -154,8 +154,7 @@ rvoe<NoReturnValue> FontSubsetter::handle_subglyphs(uint32_t glyph_index) {
     if(iscomp) {
         ERC(subglyphs, get_all_subglyphs(glyph_index, ttfile));
         if(subglyphs.size() + subset.glyphs.size() >= max_glyphs) {
-            fprintf(stderr, "Composite glyph overflow not yet implemented.");
-            std::abort();
+            RETERR(TooManyGlyphsUsed);
         }
         for(const auto &new_glyph : subglyphs) {
             if(subset.font_index_mapping.find(new_glyph) != subset.font_index_mapping.end()) {
-- 
2.43.0


From 3391f82b88e41a693340526c548397f99d36e6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:36 +0000
Subject: [PATCH 093/106] fix: do not exhaust the stack on long chains of
 composite glyphs

---
 src/fontsubsetter.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/fontsubsetter.cpp b/src/fontsubsetter.cpp
index b7f218c..3e10270 100644
--- a/src/fontsubsetter.cpp
+++ b/src/fontsubsetter.cpp
@@ -24,15 +24,19 @@ FontSubsetData create_startstate() {
 rvoe<NoReturnValue> add_subglyphs(std::unordered_set<uint32_t> &new_subglyphs,
                                   uint32_t glyph_id,
                                   const TrueTypeFontFile &ttfile) {
-    const auto &cur_glyph = ttfile.glyphs.at(glyph_id);
-    ERC(iscomp, is_composite_glyph(cur_glyph));
-    if(!iscomp) {
-        RETOK;
-    }
-    ERC(subglyphs, composite_subglyphs(cur_glyph));
-    for(const auto &g : subglyphs) {
-        if(new_subglyphs.insert(g).second) {
-            ERCV(add_subglyphs(new_subglyphs, g, ttfile));
+    std::vector<uint32_t> pending{glyph_id};
+    while(!pending.empty()) {
+        const auto &cur_glyph = ttfile.glyphs.at(pending.back());
+        pending.pop_back();
+        ERC(iscomp, is_composite_glyph(cur_glyph));
+        if(!iscomp) {
+            continue;
+        }
+        ERC(subglyphs, composite_subglyphs(cur_glyph));
+        for(const auto &g : subglyphs) {
+            if(new_subglyphs.insert(g).second) {
+                pending.push_back(g);
+            }
         }
     }
     RETOK;
-- 
2.43.0


From 5f44e40a44dcbc3cec34397fed0774b4cf87a537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:51 +0000
Subject: [PATCH 094/106] fix: include the components of a composite .notdef
 glyph in font subsets

---
 src/fontsubsetter.cpp | 11 ++++++++++-
 src/fontsubsetter.hpp |  1 +
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/fontsubsetter.cpp b/src/fontsubsetter.cpp
index 3e10270..18af53e 100644
--- a/src/fontsubsetter.cpp
+++ b/src/fontsubsetter.cpp
@@ -55,7 +55,12 @@ rvoe<FontSubsetter>
 FontSubsetter::construct(const char *&fontfile, FT_Face face, const FontProperties &props) {
     ERC(font, load_and_parse_font_file(fontfile, props));
     if(auto *ttffile = std::get_if<TrueTypeFontFile>(&font)) {
-        return FontSubsetter(std::move(*ttffile), face, create_startstate(), props);
+        FontSubsetter subsetter(std::move(*ttffile), face, create_startstate(), props);
+        // Every subset starts with the .notdef glyph.
+        if(!subsetter.ttfile.in_cff_format()) {
+            ERCV(subsetter.add_glyph_components(0));
+        }
+        return subsetter;
     } else {
         fprintf(stderr, "Only basic Truetype fonts supported currently.\n");
         RETERR(UnsupportedFormat);
@@ -154,6 +159,10 @@ rvoe<NoReturnValue> FontSubsetter::handle_subglyphs(uint32_t glyph_index) {
                 (int)ttfile.glyphs.size());
         RETERR(MissingGlyph);
     }
+    return add_glyph_components(glyph_index);
+}
+
+rvoe<NoReturnValue> FontSubsetter::add_glyph_components(uint32_t glyph_index) {
     ERC(iscomp, is_composite_glyph(ttfile.glyphs.at(glyph_index)));
     if(iscomp) {
         ERC(subglyphs, get_all_subglyphs(glyph_index, ttfile));
diff --git a/src/fontsubsetter.hpp b/src/fontsubsetter.hpp
index aef81a4..2079117 100644
--- a/src/fontsubsetter.hpp
+++ b/src/fontsubsetter.hpp
@@ -54,6 +54,7 @@ public:
 
 private:
     rvoe<NoReturnValue> handle_subglyphs(uint32_t glyph_index);
+    rvoe<NoReturnValue> add_glyph_components(uint32_t glyph_index);
 
     TrueTypeFontFile ttfile;
     FT_Face face;
-- 
2.43.0


From 0877f51be6d5b6157c60e0129e6a29e4ad53b6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:00 +0000
Subject: [PATCH 095/106] fix: skip the count of empty CFF indexes when reading
 and write nothing after it

---
 src/cffsubsetter.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index 5344fb9..0fcf50c 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -91,10 +91,10 @@ rvoe<CFFIndex> load_index(std::span<std::byte> dataspan, size_t &offset) {
     CFFIndex index;
     ERC(cnt, extract<uint16_t>(dataspan, offset));
     const uint32_t count = std::byteswap(cnt);
+    offset += sizeof(uint16_t);
     if(count == 0) {
         return index;
     }
-    offset += sizeof(uint16_t);
     ERC(offSize, extract<uint8_t>(dataspan, offset));
     ++offset;
     std::vector<size_t> offsets;
@@ -315,8 +315,11 @@ void print_info(const CFFont &cff) {
 
 std::vector<uint32_t> append_index_to(std::vector<std::byte> &output, const CFFIndex &index) {
     swap_and_append_bytes<uint16_t>(output, index.size());
-    output.push_back(std::byte{4});
     std::vector<uint32_t> offsets;
+    if(index.entries.empty()) {
+        return offsets;
+    }
+    output.push_back(std::byte{4});
     uint32_t offset = 1;
     for(const auto &e : index.entries) {
         swap_and_append_bytes(output, offset);
-- 
2.43.0


From db085385a1052b368695aff53606e597ece037bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:00 +0000
Subject: [PATCH 096/106] fix: accept CFF indexes that end at the end of the
 data

---
 src/cffsubsetter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index 0fcf50c..9429605 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -65,7 +65,7 @@ safe_subspan(const std::span<std::byte> &span, size_t offset, size_t size) {
 }
 
 rvoe<size_t> extract_index_offset(std::span<std::byte> dataspan, size_t offset, uint8_t offSize) {
-    if(dataspan.size_bytes() <= offset + offSize) {
+    if(dataspan.size_bytes() < offset + offSize) {
         RETERR(IndexOutOfBounds);
     }
     if(offSize == 1) {
-- 
2.43.0


From 180962ba139ea2c600d33334e1a2e6a27fcd05b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:00 +0000
Subject: [PATCH 097/106] fix: read negative 16 bit CFF dictionary operands
 correctly

---
 src/cffsubsetter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index 9429605..b263a24 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -187,7 +187,7 @@ rvoe<CFFDict> unpack_dictionary(std::span<std::byte> dataspan_orig) {
             } else if(b0 == 28) {
                 const int32_t b1 = (uint8_t)dataspan.at(offset++);
                 const int32_t b2 = (uint8_t)dataspan.at(offset++);
-                unpacked_operand = b1 << 8 | b2;
+                unpacked_operand = int16_t(b1 << 8 | b2);
             } else if(b0 == 29) {
                 const int32_t b1 = (uint8_t)dataspan.at(offset++);
                 const int32_t b2 = (uint8_t)dataspan.at(offset++);
-- 
2.43.0


From 1dc433f84447ce969bb2d38f9cabfe8ce9c47348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:00 +0000
Subject: [PATCH 098/106] fix: keep the real number operands of CFF
 dictionaries in subset fonts

---
 src/cffsubsetter.cpp | 28 ++++++++++++++++++++++++++--
 src/cffsubsetter.hpp |  6 +++++-
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index b263a24..4fda56a 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -158,6 +158,8 @@ build_pdict_from_dict(std::span<std::byte> dataspan, size_t priv_dict_offset, CF
 rvoe<CFFDict> unpack_dictionary(std::span<std::byte> dataspan_orig) {
     CFFDict dict;
     size_t offset = 0;
+    size_t operands_start = 0;
+    bool has_reals = false;
     std::vector<int32_t> operands;
     // span.at() is not available yet. Change back to span once it is.
     auto dataspan = span2sv(dataspan_orig);
@@ -166,13 +168,20 @@ rvoe<CFFDict> unpack_dictionary(std::span<std::byte> dataspan_orig) {
         const int32_t b0 = (uint8_t)dataspan.at(offset++);
         if(b0 <= 21) {
             // Is an operator.
+            const auto operands_end = offset - 1;
             int32_t unpacked_operator = b0;
             if(b0 == 0xc) {
                 const int32_t b1 = (uint8_t)dataspan.at(offset++);
                 unpacked_operator = b0 << 8 | b1;
             }
             dict.entries.emplace_back(std::move(operands), (DictOperator)unpacked_operator);
+            if(has_reals) {
+                dict.entries.back().raw_operands.assign(dataspan_orig.begin() + operands_start,
+                                                        dataspan_orig.begin() + operands_end);
+            }
             operands.clear();
+            operands_start = offset;
+            has_reals = false;
         } else if((b0 >= 28 && b0 <= 30) || (b0 >= 32 && b0 <= 254)) {
             // Is an operand.
             int32_t unpacked_operand;
@@ -200,6 +209,7 @@ rvoe<CFFDict> unpack_dictionary(std::span<std::byte> dataspan_orig) {
                 do {
                     b1 = (uint8_t)dataspan.at(offset++);
                 } while((b1 & 0xf) != 0xf);
+                has_reals = true;
                 unpacked_operand = -1; // FIXME
             } else {
                 std::abort();
@@ -587,6 +597,20 @@ void CFFDictWriter::append_command(const std::vector<int32_t> &operands, DictOpe
         o.output.push_back(std::byte{29});
         swap_and_append_bytes(o.output, opr);
     }
+    append_operator(op);
+}
+
+void CFFDictWriter::append_command(const CFFDictItem &e) {
+    if(e.raw_operands.empty()) {
+        append_command(e.operand, e.opr);
+        return;
+    }
+    o.offsets.push_back(o.output.size());
+    append_bytes(o.output, e.raw_operands);
+    append_operator(e.opr);
+}
+
+void CFFDictWriter::append_operator(DictOperator op) {
     if((uint16_t)op > 0xFF) {
         o.output.push_back(std::byte{0xc});
     }
@@ -812,14 +836,14 @@ rvoe<NoReturnValue> CFFWriter::copy_dict_item(CFFDictWriter &w, DictOperator op)
     if(!e) {
         RETERR(MissingCFFDictItem);
     }
-    w.append_command(e->operand, e->opr);
+    w.append_command(*e);
     RETOK;
 }
 
 void CFFWriter::copy_dict_item_if_exists(CFFDictWriter &w, DictOperator op) {
     auto *e = find_command(source, op);
     if(e) {
-        w.append_command(e->operand, e->opr);
+        w.append_command(*e);
     }
 }
 
diff --git a/src/cffsubsetter.hpp b/src/cffsubsetter.hpp
index c5aadbc..8267d61 100644
--- a/src/cffsubsetter.hpp
+++ b/src/cffsubsetter.hpp
@@ -92,6 +92,8 @@ struct CFFIndex {
 struct CFFDictItem {
     std::vector<int32_t> operand;
     DictOperator opr; // "operator" is a reserved word
+    // The operands as they are in the source file if any of them is a real number.
+    std::vector<std::byte> raw_operands = {};
 };
 
 struct CFFDict {
@@ -187,13 +189,15 @@ struct Fixups {
 class CFFDictWriter {
 public:
     void append_command(const std::vector<int32_t> &operands, DictOperator op);
-    void append_command(const CFFDictItem &e) { append_command(e.operand, e.opr); };
+    void append_command(const CFFDictItem &e);
 
     DictOutput steal() { return std::move(o); }
 
     size_t current_size() const { return o.output.size(); }
 
 private:
+    void append_operator(DictOperator op);
+
     DictOutput o;
 };
 
-- 
2.43.0


From 138cd00df27756ed00d5583b32ea660cdfe1fa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:00 +0000
Subject: [PATCH 099/106] fix: check the operands of CFF encoding and private
 dictionary entries

---
 src/cffsubsetter.cpp | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index 4fda56a..5087922 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -139,22 +139,6 @@ rvoe<CFFIndex> load_index(std::span<std::byte> dataspan, size_t &offset) {
     return index;
 }
 
-rvoe<CFFPrivateDict>
-build_pdict_from_dict(std::span<std::byte> dataspan, size_t priv_dict_offset, CFFDict raw_pdict) {
-    CFFPrivateDict priv(std::move(raw_pdict), {});
-    if(priv.entries.entries.size() > 0) {
-        // This seems to always be last.
-        const auto &subrs = priv.entries.entries.back();
-        if(subrs.opr == DictOperator::Subrs) {
-            size_t local_subrs_offset = priv_dict_offset + subrs.operand.front();
-            ERC(rsdata, load_index(dataspan, local_subrs_offset));
-            priv.subr = std::move(rsdata);
-            priv.entries.entries.pop_back();
-        }
-    }
-    return priv;
-}
-
 rvoe<CFFDict> unpack_dictionary(std::span<std::byte> dataspan_orig) {
     CFFDict dict;
     size_t offset = 0;
@@ -497,6 +481,9 @@ rvoe<CFFont> parse_cff_data(DataSource source) {
 
     auto *ence = find_command(f, DictOperator::Encoding);
     if(ence) {
+        if(ence->operand.empty()) {
+            RETERR(MalformedFontFile);
+        }
         f.predefined_encoding = ence->operand.front();
     }
     auto *cste = find_command(f, DictOperator::Charset);
@@ -514,13 +501,13 @@ rvoe<CFFont> parse_cff_data(DataSource source) {
 
     auto *priv = find_command(f, DictOperator::Private);
     if(priv) {
-        if(priv->operand.empty()) {
+        if(priv->operand.size() != 2) {
             RETERR(MalformedFontFile);
         }
         auto dict_offset = priv->operand[1];
         auto dict_size = priv->operand[0];
-        ERC(raw_pdict, unpack_dictionary(dataspan.subspan(dict_offset, dict_size)));
-        ERC(processed_pdict, build_pdict_from_dict(dataspan, dict_offset, raw_pdict));
+        // The subroutines may be anywhere in the dictionary.
+        ERC(processed_pdict, load_private_dict(dataspan, dict_offset, dict_size));
         f.pdict = std::move(processed_pdict);
     }
 
-- 
2.43.0


From 4799db2547f5b5c4d508777e144064b1d55e8c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:00 +0000
Subject: [PATCH 100/106] fix: reject CFF fonts without glyphs

---
 src/cffsubsetter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index 5087922..d011a7d 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -478,6 +478,9 @@ rvoe<CFFont> parse_cff_data(DataSource source) {
     offset = cse->operand.front();
     ERC(cstring, load_index(dataspan, offset));
     f.char_strings = std::move(cstring);
+    if(f.char_strings.entries.empty()) {
+        RETERR(MalformedFontFile);
+    }
 
     auto *ence = find_command(f, DictOperator::Encoding);
     if(ence) {
-- 
2.43.0


From b69e6eee45c305e0ed939b46b07ea577fbbbc65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:00 +0000
Subject: [PATCH 101/106] fix: read all formats of CFF font dictionary
 selectors and check their data

---
 src/cffsubsetter.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index d011a7d..111b310 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -255,12 +255,16 @@ rvoe<std::vector<CFFSelectRange3>> unpack_fdselect(std::span<std::byte> dataspan
                                                    uint32_t num_glyphs) {
     std::vector<CFFSelectRange3> ranges;
     size_t offset = 0;
-    const uint8_t format = (uint8_t)dataspan[offset++];
+    ERC(format, extract<uint8_t>(dataspan, offset));
+    ++offset;
     if(format == 0) {
-        std::vector<std::byte> selector_array{dataspan.begin() + offset,
-                                              dataspan.begin() + offset + num_glyphs};
-        // FIXME. OR maybe not. This seems to be used in generated
-        // subset fonts only.
+        ERC(selector_array, safe_subspan(dataspan, offset, num_glyphs));
+        for(uint32_t i = 0; i < num_glyphs; ++i) {
+            const auto fd = (uint8_t)selector_array[i];
+            if(ranges.empty() || ranges.back().fd != fd) {
+                ranges.emplace_back((uint16_t)i, fd);
+            }
+        }
         return ranges;
     } else if(format == 3) {
         ERC(nRg, extract_and_swap<uint16_t>(dataspan, offset));
@@ -278,6 +282,9 @@ rvoe<std::vector<CFFSelectRange3>> unpack_fdselect(std::span<std::byte> dataspan
             RETERR(MalformedFontFile);
         }
     }
+    if(ranges.empty() || ranges.front().first != 0) {
+        RETERR(MalformedFontFile);
+    }
     return ranges;
 }
 
-- 
2.43.0


From 825d9630e199ea712e8a48d656268349df70ad3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:00 +0000
Subject: [PATCH 102/106] fix: create correct subsets of CID-keyed CFF fonts
 that lack optional entries

---
 src/cffsubsetter.cpp | 21 ++++++++++++---------
 src/cffsubsetter.hpp |  1 +
 src/ft_subsetter.cpp |  2 +-
 3 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index 111b310..03e8100 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -532,7 +532,7 @@ rvoe<CFFont> parse_cff_data(DataSource source) {
         append_ros_strings(f);
     }
     if(f.is_cid) {
-        if(!fda || fda->operand.empty()) {
+        if(!fda || fda->operand.size() != 1 || !find_command(f, DictOperator::ROS)) {
             RETERR(UnsupportedFormat);
         }
         offset = fda->operand[0];
@@ -541,7 +541,7 @@ rvoe<CFFont> parse_cff_data(DataSource source) {
             ERC(fdentry, load_fdarray_entry(dataspan, dstr));
             f.fdarray.emplace_back(std::move(fdentry));
         }
-        if(!fds || fds->operand.empty()) {
+        if(!fds || fds->operand.size() != 1) {
             RETERR(UnsupportedFormat);
         }
         offset = fds->operand[0];
@@ -624,7 +624,7 @@ rvoe<NoReturnValue> CFFWriter::create() {
     output.assign((std::byte *)header, (std::byte *)header + 4);
     append_index(source.name);
 
-    create_topdict();
+    ERCV(create_topdict());
     append_index(source.string);
     append_index(source.global_subr);
     fixups.charsets.value = output.size();
@@ -780,9 +780,11 @@ rvoe<NoReturnValue> CFFWriter::create_topdict() {
     copy_dict_item_if_exists(topdict, DictOperator::FamilyName);
     copy_dict_item_if_exists(topdict, DictOperator::Weight);
     copy_dict_item_if_exists(topdict, DictOperator::FontBBox);
+    size_t fdarray_index;
     if(source.is_cid) {
-        ERCV(copy_dict_item(topdict, DictOperator::CIDFontVersion));
-        ERCV(copy_dict_item(topdict, DictOperator::CIDCount));
+        copy_dict_item_if_exists(topdict, DictOperator::CIDFontVersion);
+        copy_dict_item_if_exists(topdict, DictOperator::CIDCount);
+        fdarray_index = topdict.num_commands();
         ERCV(copy_dict_item(topdict, DictOperator::FDArray));  // offset needs to be fixed in post.
         ERCV(copy_dict_item(topdict, DictOperator::FDSelect)); // offset needs to be fixed in post.
     } else {
@@ -794,6 +796,7 @@ rvoe<NoReturnValue> CFFWriter::create_topdict() {
         topdict.append_command(operand, DictOperator::CIDCount);
         operand.clear();
         operand.push_back(-1);
+        fdarray_index = topdict.num_commands();
         topdict.append_command(operand, DictOperator::FDArray);
         topdict.append_command(operand, DictOperator::FDSelect);
     }
@@ -806,10 +809,10 @@ rvoe<NoReturnValue> CFFWriter::create_topdict() {
     auto offsets = append_index(wrapper);
     assert(offsets.size() == 1);
     const auto dict_start = offsets.front();
-    fixups.fdarray.offset = serialization.offsets.at(8) + 1 + dict_start;
-    fixups.fdselect.offset = serialization.offsets.at(9) + 1 + dict_start;
-    fixups.charsets.offset = serialization.offsets.at(10) + 1 + dict_start;
-    fixups.charstrings.offset = serialization.offsets.at(11) + 1 + dict_start;
+    fixups.fdarray.offset = serialization.offsets.at(fdarray_index) + 1 + dict_start;
+    fixups.fdselect.offset = serialization.offsets.at(fdarray_index + 1) + 1 + dict_start;
+    fixups.charsets.offset = serialization.offsets.at(fdarray_index + 2) + 1 + dict_start;
+    fixups.charstrings.offset = serialization.offsets.at(fdarray_index + 3) + 1 + dict_start;
 
     /*
     uint32_t sanity_check_be;
diff --git a/src/cffsubsetter.hpp b/src/cffsubsetter.hpp
index 8267d61..959e08b 100644
--- a/src/cffsubsetter.hpp
+++ b/src/cffsubsetter.hpp
@@ -194,6 +194,7 @@ public:
     DictOutput steal() { return std::move(o); }
 
     size_t current_size() const { return o.output.size(); }
+    size_t num_commands() const { return o.offsets.size(); }
 
 private:
     void append_operator(DictOperator op);
diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 33c65d4..79c2039 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -1046,7 +1046,7 @@ rvoe<std::vector<std::byte>> generate_cff_font(const TrueTypeFontFile &source,
         }
     }
     CFFWriter w(source_data, converted);
-    w.create();
+    ERCV(w.create());
     return w.steal();
 }
 
-- 
2.43.0


From 194d93f361b9f8b0629ab3eee942e02c33cc8f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:00 +0000
Subject: [PATCH 103/106] fix: keep the font matrix in subsets of CFF fonts

---
 src/cffsubsetter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index 03e8100..df7c04e 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -780,6 +780,7 @@ rvoe<NoReturnValue> CFFWriter::create_topdict() {
     copy_dict_item_if_exists(topdict, DictOperator::FamilyName);
     copy_dict_item_if_exists(topdict, DictOperator::Weight);
     copy_dict_item_if_exists(topdict, DictOperator::FontBBox);
+    copy_dict_item_if_exists(topdict, DictOperator::FontMatrix);
     size_t fdarray_index;
     if(source.is_cid) {
         copy_dict_item_if_exists(topdict, DictOperator::CIDFontVersion);
-- 
2.43.0


From e7e24c495e9e35c0cf80d08ac8da91f14221ec8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:00 +0000
Subject: [PATCH 104/106] fix: check that glyph indexes exist in CFF fonts

---
 src/fontsubsetter.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fontsubsetter.cpp b/src/fontsubsetter.cpp
index 18af53e..bc0e4cd 100644
--- a/src/fontsubsetter.cpp
+++ b/src/fontsubsetter.cpp
@@ -145,20 +145,20 @@ FontSubsetter::unchecked_insert_glyph_to_last_subset(const uint32_t codepoint,
 }
 
 rvoe<NoReturnValue> FontSubsetter::handle_subglyphs(uint32_t glyph_index) {
-    if(ttfile.in_cff_format()) {
-        RETOK;
-    }
     if(glyph_index == 0) {
         fprintf(stderr, "Glyph id zero is not valid.\n");
         RETERR(MissingGlyph);
     }
-    if(glyph_index >= ttfile.glyphs.size()) {
+    if(glyph_index >= (uint32_t)ttfile.num_glyphs()) {
         fprintf(stderr,
                 "Glyph index points past the end of glyps: %d/%d.\n",
                 glyph_index,
-                (int)ttfile.glyphs.size());
+                (int)ttfile.num_glyphs());
         RETERR(MissingGlyph);
     }
+    if(ttfile.in_cff_format()) {
+        RETOK;
+    }
     return add_glyph_components(glyph_index);
 }
 
-- 
2.43.0


From 70422c8f5b8934d8118561703f83f86c3c819604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:43 +0000
Subject: [PATCH 105/106] fix: report nonexistent components of composite
 glyphs as errors

---
 src/fontsubsetter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fontsubsetter.cpp b/src/fontsubsetter.cpp
index bc0e4cd..396597f 100644
--- a/src/fontsubsetter.cpp
+++ b/src/fontsubsetter.cpp
@@ -26,6 +26,9 @@ rvoe<NoReturnValue> add_subglyphs(std::unordered_set<uint32_t> &new_subglyphs,
                                   const TrueTypeFontFile &ttfile) {
     std::vector<uint32_t> pending{glyph_id};
     while(!pending.empty()) {
+        if(pending.back() >= ttfile.glyphs.size()) {
+            RETERR(MalformedFontFile);
+        }
         const auto &cur_glyph = ttfile.glyphs.at(pending.back());
         pending.pop_back();
         ERC(iscomp, is_composite_glyph(cur_glyph));
-- 
2.43.0


From aefeaafc68cd1261941a43448cc6ed4ec3a51a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:31 +0000
Subject: [PATCH 106/106] fix: do not mistake the largest glyph index for the
 .notdef glyph

---
 src/fontsubsetter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fontsubsetter.cpp b/src/fontsubsetter.cpp
index 396597f..0876351 100644
--- a/src/fontsubsetter.cpp
+++ b/src/fontsubsetter.cpp
@@ -196,6 +196,10 @@ rvoe<FontSubsetInfo> FontSubsetter::unchecked_insert_glyph_to_last_subset(const
 }
 
 std::optional<FontSubsetInfo> FontSubsetter::find_existing_glyph(uint32_t gid) const {
+    if(gid == (uint32_t)-1) {
+        // The .notdef glyph of the start state has this index.
+        return {};
+    }
     auto loc =
         std::find_if(subset.glyphs.cbegin(), subset.glyphs.cend(), [&gid](const TTGlyphs &ttg) {
             if(std::holds_alternative<RegularGlyph>(ttg)) {
-- 
2.43.0

