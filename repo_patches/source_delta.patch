From 003a9b39ab8aac04944791ec1e325815a066078c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:35 +0000
Subject: [PATCH 01/52] fix: LayerTagMask::isNone() must not change the mask it
 is asked about

---
 common/layer_tag_mask.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/common/layer_tag_mask.cpp b/common/layer_tag_mask.cpp
index 74a2b06..9b9163e 100644
--- a/common/layer_tag_mask.cpp
+++ b/common/layer_tag_mask.cpp
@@ -14,7 +14,6 @@ bool LayerTagMask::isNone() {
             return false;
     }
 
-    none_ = true;
     return true;
 }
 
-- 
2.43.0


From 8a2610bf5e778d281b84bb9f883b36438054d6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 02/52] fix: keep the tag mask indexes up to date when an
 existing edge gets new tags

---
 common/lattice.cpp | 26 ++++++++++++++++++++++++++
 common/lattice.hpp | 35 +++++++++++++++++++++++++++++++++++
 2 files changed, 61 insertions(+)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 51f6e03..376eddd 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -210,6 +210,7 @@ Lattice::EdgeDescriptor Lattice::addEdge(
         if (edge.isExplicit()) {
             if (tags != oldTags) {
                 graph_[edge.descriptor].tagList = tags;
+                updateTagMaskIndexes_(edge.descriptor, oldTags);
             }
             if (score > oldScore) {
                 graph_[edge.descriptor].score = score;
@@ -942,6 +943,31 @@ int Lattice::addTagMaskIndex_(LayerTagMask tagMask) {
     }
 }
 
+void Lattice::updateTagMaskIndexes_(
+    Graph::edge_descriptor edge, const LayerTagCollection& oldTags) {
+
+    const LayerTagCollection& tags = graph_[edge].tagList;
+    Graph::vertex_descriptor from = boost::source(edge, graph_);
+    Graph::vertex_descriptor to = boost::target(edge, graph_);
+
+    for (
+        TagMasksHash::iterator iter = indexedTagMasks_.begin();
+        iter != indexedTagMasks_.end();
+        ++iter
+    ) {
+        if (matches(tags, iter->first) && !matches(oldTags, iter->first)) {
+            insertIntoIndex_(
+                graph_[from].outEdgesIndex[iter->second],
+                edge,
+                boost::out_edges(from, graph_));
+            insertIntoIndex_(
+                graph_[to].inEdgesIndex[iter->second],
+                edge,
+                boost::in_edges(to, graph_));
+        }
+    }
+}
+
 void Lattice::resizeImplicitEdgesStructures_() {
     implicitOutEdges_.resize(allText_.length()+1);
     hiddenImplicitOutEdges_.resize(allText_.length()+1);
diff --git a/common/lattice.hpp b/common/lattice.hpp
index 2f8a788..86b8319 100644
--- a/common/lattice.hpp
+++ b/common/lattice.hpp
@@ -744,6 +744,22 @@ private:
 
     void resizeImplicitEdgesStructures_();
 
+    /**
+     * Adds an edge whose tags have been extended to the indexes of the masks
+     * it did not match with its old tags.
+     */
+    void updateTagMaskIndexes_(Graph::edge_descriptor edge, const LayerTagCollection& oldTags);
+
+    /**
+     * Inserts an edge into an index, keeping the order of `edges`.
+     */
+    template <typename EdgeIteratorType>
+    static void insertIntoIndex_(
+        std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>& index,
+        Graph::edge_descriptor edge,
+        std::pair<EdgeIteratorType, EdgeIteratorType> edges
+    );
+
     VertexDescriptor priorVertex_(VertexDescriptor vertex);
 
     size_t symbolLength_(int ix) const;
@@ -886,6 +902,25 @@ private:
 };
 
 
+template <typename EdgeIteratorType>
+void Lattice::insertIntoIndex_(
+    std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>& index,
+    Graph::edge_descriptor edge,
+    std::pair<EdgeIteratorType, EdgeIteratorType> edges
+) {
+    std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>::iterator pos = index.begin();
+
+    for (EdgeIteratorType iter = edges.first; iter != edges.second; ++iter) {
+        if (*iter == edge)
+            break;
+
+        if (pos != index.end() && *pos == *iter)
+            ++pos;
+    }
+
+    index.insert(pos, edge);
+}
+
 template <typename EdgePredicate>
 Lattice::EdgeSequence Lattice::getPathWithSkipping(
     VertexDescriptor& vertex,
-- 
2.43.0


From 2412542f882ba9609ee5e20549f43e4b6d11ab86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:14 +0000
Subject: [PATCH 03/52] fix: replace, not duplicate, an implicit symbol edge
 that gets new tags

---
 common/lattice.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 376eddd..869e2ab 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -1,5 +1,6 @@
 #include "lattice.hpp"
 
+#include <algorithm>
 #include <sstream>
 
 #include "string_helpers.hpp"
@@ -217,9 +218,14 @@ Lattice::EdgeDescriptor Lattice::addEdge(
             }
             graph_[edge.descriptor].partitions.push_back(
                 Partition(tags, sequence, score, ruleId, treeChoice));
-        } else {
+        } else if (tags != oldTags) {
+            // the implicit edge is replaced with an explicit one
             implicitOutEdges_.set(from, false);
-            edge.implicitIndex = -1;
+            std::vector<EdgeDescriptor>& sameEdges = (insertResult.first)->second;
+            sameEdges.erase(
+                std::remove(sameEdges.begin(), sameEdges.end(), isoplanarEdge),
+                sameEdges.end());
+            --edgeCounterHash_[vpair];
             needToAddEdge = true;
         }
     }
-- 
2.43.0


From ab522128ad728432e661998e6bfbed6ba630cbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:26 +0000
Subject: [PATCH 04/52] fix: do not index the hidden-edge bitsets with loose
 vertices

---
 common/lattice.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 869e2ab..a6d41cd 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -244,9 +244,13 @@ Lattice::EdgeDescriptor Lattice::addEdge(
         if (tags == getSymbolTag()) {
             try {
                 firstOutEdge(from, symbolMask_);
-                visibleImplicitOutEdges_[from] = true;
-                EdgeDescriptor ed = firstInEdge(to, symbolMask_);
-                visibleImplicitOutEdges_[getEdgeSource(ed)] = true;
+                if (!isLooseVertex(from)) {
+                    visibleImplicitOutEdges_[from] = true;
+                }
+                VertexDescriptor source = getEdgeSource(firstInEdge(to, symbolMask_));
+                if (!isLooseVertex(source)) {
+                    visibleImplicitOutEdges_[source] = true;
+                }
             } catch (NoEdgeException) {
             }
         }
-- 
2.43.0


From 7c96a6168de01087798fa5fc3538d1facad1702b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:53 +0000
Subject: [PATCH 05/52] fix: StringFrag::append() must not drop a fragment of
 another string

---
 common/string_frag.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/string_frag.cpp b/common/string_frag.cpp
index 22ea01a..7b8a3d3 100644
--- a/common/string_frag.cpp
+++ b/common/string_frag.cpp
@@ -74,7 +74,7 @@ void StringFrag::append(const StringFrag & other) {
     ) {
         len_ += other.len_;
         contents_ = src_.substr(begin_, (std::min)(len_, (size_t)ABBR_LENGTH));
-    } else if (contents_=="" && this != &other) {
+    } else if (length() == 0 && this != &other) {
         this->StringFrag::~StringFrag();
         new (this) StringFrag(other);
     } else {
-- 
2.43.0


From fc0dbb41c7d05ddf02ec7c95517cd9b0afee19f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:53 +0000
Subject: [PATCH 06/52] fix: StringFrag::find() must not look beyond the
 fragment

---
 common/string_frag.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/common/string_frag.cpp b/common/string_frag.cpp
index 7b8a3d3..32e5dc6 100644
--- a/common/string_frag.cpp
+++ b/common/string_frag.cpp
@@ -95,7 +95,14 @@ size_t StringFrag::find(char c, size_t pos) const {
     if (stored_()) {
         return contents_.find(c, pos);
     }
-    return src_.find(c, begin_ + pos) - begin_;
+    if (pos >= len_) {
+        return std::string::npos;
+    }
+    size_t found = src_.find(c, begin_ + pos);
+    if (found == std::string::npos || found - begin_ >= len_) {
+        return std::string::npos;
+    }
+    return found - begin_;
 }
 
 
-- 
2.43.0


From a87e14fc0b67451bee76c52646c6e5405e2d4cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:53 +0000
Subject: [PATCH 07/52] fix: a fragment of a StringFrag with its own text is a
 fragment of that text

---
 common/string_frag.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/common/string_frag.hpp b/common/string_frag.hpp
index e6b49ea..958fe08 100644
--- a/common/string_frag.hpp
+++ b/common/string_frag.hpp
@@ -56,12 +56,14 @@ public:
         size_t len
     ) :
 #if STRING_FRAG_VALIDATION
-        contents_(sf.src_.substr(sf.begin_ + begin, (std::min)(len, (size_t)ABBR_LENGTH))),
+        contents_(sf.stored_()
+            ? sf.contents_.substr(begin, len)
+            : sf.src_.substr(sf.begin_ + begin, (std::min)(len, (size_t)ABBR_LENGTH))),
 #else
-        contents_(""),
+        contents_(sf.stored_() ? sf.contents_.substr(begin, len) : std::string()),
 #endif
         src_(sf.src_),
-        begin_(sf.begin_ + begin),
+        begin_(sf.stored_() ? std::string::npos : sf.begin_ + begin),
         len_(len)
     {
 #if STRING_FRAG_VALIDATION
-- 
2.43.0


From c28a13ffbab7dd61077f9e3b7b3268dc4d65617a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:27 +0000
Subject: [PATCH 08/52] fix: a discontinuous sequence of symbol edges is never
 stored as a range

---
 common/lattice.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index a6d41cd..c3c903d 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -1184,6 +1184,7 @@ Lattice::EdgeSequence::Builder& Lattice::EdgeSequence::Builder::addEdge(
         } else if (lattice_.getEdgeBeginIndex(edge) == end) {
             end = lattice_.getEdgeEndIndex(edge);
         } else {
+            begin = 1;
             end = 0;
         }
     } else {
-- 
2.43.0


From cd0562e8b956b6e1d1e4ff72e7df81793c1e8f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:51 +0000
Subject: [PATCH 09/52] fix: integers of 2^30 and more lost bits when stored as
 zvalues

---
 common/zvalue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/zvalue.hpp b/common/zvalue.hpp
index 0ab36ce..3978095 100644
--- a/common/zvalue.hpp
+++ b/common/zvalue.hpp
@@ -34,7 +34,7 @@ class zobject;
 #define TRUEP(z)    ( !( NULLP((z)) || ZEROP((z)) ) )
 
 #define ZVALUE_TO_INTEGER(z) ( reinterpret_cast<zint_t>(z) >> 1 )
-#define INTEGER_TO_ZVALUE(i) ( reinterpret_cast<zvalue>(((i) << 1) | 1) )
+#define INTEGER_TO_ZVALUE(i) ( reinterpret_cast<zvalue>((static_cast<zint_t>(i) << 1) | 1) )
 #define INTEGERP(z)          ( reinterpret_cast<zint_t>(z) & 1 )
 
 #define ZVALUE_TO_ZOBJECT(z) ( reinterpret_cast<zobject*>(z) )
-- 
2.43.0


From b931ed6aca3dc8918964aff5c7028bef9381a6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:51 +0000
Subject: [PATCH 10/52] fix: the smallest integer was printed as a bare minus
 sign

---
 common/zvalue.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/common/zvalue.cpp b/common/zvalue.cpp
index f0d6895..9e3bf9f 100644
--- a/common/zvalue.cpp
+++ b/common/zvalue.cpp
@@ -358,11 +358,12 @@ char* itoa(int i)
     char buf[16];
     char *s = buf;
     int neg = 0;
-    if (i<0) { i*=-1; neg=1; }
-    if (0==i) { *s++ = '0'; }
-    while (i>0) {
-        *s++ = '0' + i%10;
-        i/=10;
+    unsigned int u = i;
+    if (i<0) { u = 0u - u; neg=1; }
+    if (0==u) { *s++ = '0'; }
+    while (u>0) {
+        *s++ = '0' + u%10;
+        u/=10;
     }
     char* result = new char[s-buf+1+neg];
     char* r = result;
-- 
2.43.0


From e44de2a11c7854c7e0a73e70890c2513d6fbe491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:42 +0000
Subject: [PATCH 11/52] fix: the web server took malformed percent escapes in a
 path for characters

---
 server/server/request_handler.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/server/server/request_handler.cpp b/server/server/request_handler.cpp
index d25e1a0..512ff62 100644
--- a/server/server/request_handler.cpp
+++ b/server/server/request_handler.cpp
@@ -74,6 +74,14 @@ void request_handler::handle_request(const request& req, reply& rep)
   rep.headers[1].value = mime_types::extension_to_type(extension);
 }
 
+static int hex_digit(char c)
+{
+  if (c >= '0' && c <= '9') return c - '0';
+  if (c >= 'a' && c <= 'f') return c - 'a' + 10;
+  if (c >= 'A' && c <= 'F') return c - 'A' + 10;
+  return -1;
+}
+
 bool request_handler::url_decode(const std::string& in, std::string& out)
 {
   out.clear();
@@ -84,11 +92,11 @@ bool request_handler::url_decode(const std::string& in, std::string& out)
     {
       if (i + 3 <= in.size())
       {
-        int value = 0;
-        std::istringstream is(in.substr(i + 1, 2));
-        if (is >> std::hex >> value)
+        int high = hex_digit(in[i + 1]);
+        int low = hex_digit(in[i + 2]);
+        if (high >= 0 && low >= 0)
         {
-          out += static_cast<char>(value);
+          out += static_cast<char>(high * 16 + low);
           i += 2;
         }
         else
-- 
2.43.0


From 4411752633eb25e457abbd733ad82370c6704fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:42 +0000
Subject: [PATCH 12/52] fix: a POST request without data was never answered

---
 server/server/request_parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/server/request_parser.cpp b/server/server/request_parser.cpp
index b7fc184..b7f596a 100644
--- a/server/server/request_parser.cpp
+++ b/server/server/request_parser.cpp
@@ -296,6 +296,10 @@ boost::tribool request_parser::consume(request& req, char input)
                 state_ = multipart_start;
             }
             set_post_data_length(req);
+            if (post_data_length_ <= 0) {
+                // there is no data to wait for
+                return true;
+            }
             return boost::indeterminate;
         }
         else {
-- 
2.43.0


From 27c07788b758a76a5f82f296a81c37ae56e3cc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:42 +0000
Subject: [PATCH 13/52] fix: a multipart request lost the last byte of its data

---
 server/server/request_parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/server/request_parser.cpp b/server/server/request_parser.cpp
index b7f596a..d332b70 100644
--- a/server/server/request_parser.cpp
+++ b/server/server/request_parser.cpp
@@ -334,6 +334,7 @@ boost::tribool request_parser::consume(request& req, char input)
         return boost::indeterminate;
     }
     else {
+        req.post_data += input;
         return true;
     }
   default:
-- 
2.43.0


From e265610cf198d612c08cba2f1ef7bc3f96756a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:42 +0000
Subject: [PATCH 14/52] fix: form data without an equals sign or with a bad
 escape hung or corrupted the server

---
 server/psi_server.cpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/server/psi_server.cpp b/server/psi_server.cpp
index 9e7a0c7..0ae8e00 100644
--- a/server/psi_server.cpp
+++ b/server/psi_server.cpp
@@ -182,9 +182,6 @@ void PsiServer::parseNamesAndValues(std::string uri, int q) {
     int flag_done = 0;
 
     while (!flag_done) {
-        q = uri.find("=", p);
-        name = uri.substr(p, q-p);
-        p = q + 1;
         q = uri.find("&", p);
 
         if (q != -1) {
@@ -194,6 +191,11 @@ void PsiServer::parseNamesAndValues(std::string uri, int q) {
             flag_done = 1;
         }
 
+        // a field without the equals sign has an empty value
+        size_t eq = value.find("=");
+        name = value.substr(0, eq);
+        value = (eq == std::string::npos ? std::string() : value.substr(eq + 1));
+
         // the browser sends blanks as +
         while (1) {
             int p = value.find("+");
@@ -215,16 +217,23 @@ std::string PsiServer::urlDecode(std::string & encodedString) {
 
     char ch;
     unsigned int i;
-    int j;
+    unsigned int j;
 
     for (i = 0; i < encodedString.length(); i++) {
 
         if (int(encodedString[i]) == 37) {
-            sscanf(encodedString.substr(i+1, 2).c_str(), "%2x", &j);
-
-            ch = static_cast<char>(j);
-            decodedString += ch;
-            i = i + 2;
+            std::string code = encodedString.substr(i+1, 2);
+            if (code.length() == 2
+                    && isxdigit((unsigned char) code[0])
+                    && isxdigit((unsigned char) code[1])
+                    && sscanf(code.c_str(), "%2x", &j) == 1) {
+                ch = static_cast<char>(j);
+                decodedString += ch;
+                i = i + 2;
+            } else {
+                // not an escape sequence
+                decodedString += encodedString[i];
+            }
 
         } else {
             decodedString += encodedString[i];
-- 
2.43.0


From 801074abaedf7657d50a4b3274f6bc5fcd774e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:42 +0000
Subject: [PATCH 15/52] fix: session cookies were looked for in the names and
 values of other cookies

---
 server/session_manager.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/server/session_manager.cpp b/server/session_manager.cpp
index 684ba30..9954130 100644
--- a/server/session_manager.cpp
+++ b/server/session_manager.cpp
@@ -7,13 +7,24 @@ std::string SessionManager::cookieIdentifier = "PSISESSIONID";
 int SessionManager::sessionIdLength = 25;
 
 std::string SessionManager::SessionId(std::string cookies) {
-    size_t hasId = cookies.find(cookieIdentifier);
-
-    std::string id = "";
-    if (hasId != std::string::npos) {
-        id = cookies.substr(hasId + cookieIdentifier.size() + 1, sessionIdLength);
+    const std::string prefix = cookieIdentifier + "=";
+
+    size_t begin = 0;
+    while (begin < cookies.size()) {
+        size_t end = cookies.find(';', begin);
+        if (end == std::string::npos) {
+            end = cookies.size();
+        }
+        while (begin < end && cookies[begin] == ' ') {
+            ++begin;
+        }
+        if (cookies.compare(begin, prefix.size(), prefix) == 0) {
+            begin += prefix.size();
+            return cookies.substr(begin, (std::min)(end - begin, (size_t) sessionIdLength));
+        }
+        begin = end + 1;
     }
-    return id;
+    return "";
 }
 
 std::string SessionManager::CookieHeaderValue(std::string & id) {
-- 
2.43.0


From e81023acd7074a60b28e0a9e3baaf2a8aedf1746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:42 +0000
Subject: [PATCH 16/52] fix: a multipart text field received in parts lost all
 but one of them

---
 server/mpfd-parser/Field.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/server/mpfd-parser/Field.cpp b/server/mpfd-parser/Field.cpp
index 610ae2d..e049a12 100644
--- a/server/mpfd-parser/Field.cpp
+++ b/server/mpfd-parser/Field.cpp
@@ -56,7 +56,8 @@ void MPFD::Field::AcceptSomeData(char *data, long length) {
         }
 
         memcpy(FieldContent + FieldContentLength, data, length);
-        FieldContent[FieldContentLength + length] = 0;
+        FieldContentLength += length;
+        FieldContent[FieldContentLength] = 0;
     } else if (type == FileType) {
         if (WhereToStoreUploadedFiles == Parser::StoreUploadedFilesInFilesystem) {
             if (TempDir.length() > 0) {
@@ -151,7 +152,7 @@ std::string MPFD::Field::GetTextTypeContent() {
             if (FieldContent == NULL) {
                 return std::string();
             } else {
-                return std::string(FieldContent);
+                return std::string(FieldContent, FieldContentLength);
             }
         }
     }
-- 
2.43.0


From 51fcf451c016397983dc68718f82d45167bc322b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:42 +0000
Subject: [PATCH 17/52] fix: JSON output of control characters was not JSON

---
 .../json_lattice_writer_output.cpp            | 27 +++++++++++++++----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/formats/json-simple/json_lattice_writer_output.cpp b/formats/json-simple/json_lattice_writer_output.cpp
index 2a16926..cfdcb3a 100644
--- a/formats/json-simple/json_lattice_writer_output.cpp
+++ b/formats/json-simple/json_lattice_writer_output.cpp
@@ -185,11 +185,28 @@ void JSONLatticeWriterOutput::printCurrentArrayToString_(std::string & output) {
 
 void JSONLatticeWriterOutput::createEscapedJSONString_(
                 const std::string & content, std::string & output) {
-    output = content;
-    boost::replace_all(output, "\\", "\\\\");
-    boost::replace_all(output, "\"", "\\\"");
-
-    output = "\"" + output + "\"";
+    static const char* hexDigits = "0123456789abcdef";
+
+    output = "\"";
+    BOOST_FOREACH(char c, content) {
+        if (c == '\\' || c == '"') {
+            output += '\\';
+            output += c;
+        } else if (c == '\n') {
+            output += "\\n";
+        } else if (c == '\r') {
+            output += "\\r";
+        } else if (c == '\t') {
+            output += "\\t";
+        } else if ((unsigned char) c < 0x20) {
+            output += "\\u00";
+            output += hexDigits[c >> 4];
+            output += hexDigits[c & 15];
+        } else {
+            output += c;
+        }
+    }
+    output += "\"";
 }
 
 
-- 
2.43.0


From a7c719341ab51e69af0433f9718dd44369f40ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:42 +0000
Subject: [PATCH 18/52] fix: the JSON service returned text that was not
 escaped as JSON

---
 server/site/json_site.cpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/server/site/json_site.cpp b/server/site/json_site.cpp
index 40f668b..25f2f83 100644
--- a/server/site/json_site.cpp
+++ b/server/site/json_site.cpp
@@ -2,7 +2,6 @@
 #include <boost/bind.hpp>
 #include <boost/assign.hpp>
 #include <boost/foreach.hpp>
-#include <boost/algorithm/string/replace.hpp>
 
 #include "json_site.hpp"
 #include "pipe_runner.hpp"
@@ -15,6 +14,7 @@ const std::string JsonSite::ERROR_KEY_NAME = "error";
 
 std::map<std::string, std::string> JsonSite::ESCAPED_CHARS =
     boost::assign::map_list_of
+        ("\\", "\\\\")
         ("/", "\\/")
         ("\"", "\\\"")
         ("\n", "\\n")
@@ -62,7 +62,7 @@ char * JsonSite::actionJson() {
             addKeyValuePairToOutput_(OUTPUT_KEY_NAME, oss.str());
         }
         else {
-            addKeyValuePairToOutputAsString_(OUTPUT_KEY_NAME, oss.str());
+            addKeyValuePairToOutputAsString_(OUTPUT_KEY_NAME, escape_(oss.str()));
         }
         addKeyValuePairToOutput_(ERROR_KEY_NAME, "null", true);
     }
@@ -70,7 +70,7 @@ char * JsonSite::actionJson() {
         oss << "There are some problems: " << e.what();
 
         addKeyValuePairToOutput_(OUTPUT_KEY_NAME, "null");
-        addKeyValuePairToOutputAsString_(ERROR_KEY_NAME, oss.str(), true);
+        addKeyValuePairToOutputAsString_(ERROR_KEY_NAME, escape_(oss.str()), true);
     }
 
     output_ << " }";
@@ -95,11 +95,22 @@ bool JsonSite::isJavascriptOutput_(std::string pipe) {
 }
 
 std::string JsonSite::escape_(const std::string& text) {
-    std::string escapedText(text);
-
-    typedef std::map<std::string, std::string> string_map;
-    BOOST_FOREACH(const string_map::value_type& pair, ESCAPED_CHARS) {
-        boost::replace_all(escapedText, pair.first, pair.second);
+    static const char* hexDigits = "0123456789abcdef";
+    std::string escapedText;
+
+    BOOST_FOREACH(char c, text) {
+        std::map<std::string, std::string>::const_iterator it =
+            ESCAPED_CHARS.find(std::string(1, c));
+
+        if (it != ESCAPED_CHARS.end()) {
+            escapedText += it->second;
+        } else if ((unsigned char) c < 0x20) {
+            escapedText += "\\u00";
+            escapedText += hexDigits[c >> 4];
+            escapedText += hexDigits[c & 15];
+        } else {
+            escapedText += c;
+        }
     }
 
     return escapedText;
-- 
2.43.0


From a8989eac811da0d488859fcd5ff074ad8998b33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:08 +0000
Subject: [PATCH 19/52] fix: read a PSI partition whose symbol edge precedes a
 numbered edge

The sub-edge number was parsed as a signed integer, so in '[1--2]' or '[-2]'
the dash separating a symbol edge from edge 2 was taken as a minus sign and
edge 2 was lost.
---
 formats/psi/psi_reader/psi_lattice_reader.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/psi/psi_reader/psi_lattice_reader.hpp b/formats/psi/psi_reader/psi_lattice_reader.hpp
index 1c2a80a..1f16084 100644
--- a/formats/psi/psi_reader/psi_lattice_reader.hpp
+++ b/formats/psi/psi_reader/psi_lattice_reader.hpp
@@ -296,7 +296,7 @@ struct PsiLRPartitionGrammar : public qi::grammar<
 
         edgeNumber
             = qi::eps[qi::_val = 0]
-            >> -(qi::int_[qi::_val = qi::_1]);
+            >> -(qi::uint_[qi::_val = qi::_1]);
 
         role
             = qi::eps[qi::_val = ""]
-- 
2.43.0


From b53f9b815725706bd8de5968ea07a2c00c3440ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:08 +0000
Subject: [PATCH 20/52] fix: let the PSI reader create symbol edges a partition
 refers to

A partition referring to a symbol edge in text introduced by an edge without
sub-edges ('[]') made the reader fail with 'No out-edges found'.
---
 formats/psi/psi_reader/psi_lattice_reader.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/formats/psi/psi_reader/psi_lattice_reader.cpp b/formats/psi/psi_reader/psi_lattice_reader.cpp
index caeeac1..3935ac2 100644
--- a/formats/psi/psi_reader/psi_lattice_reader.cpp
+++ b/formats/psi/psi_reader/psi_lattice_reader.cpp
@@ -256,7 +256,14 @@ void PsiLatticeReader::Worker::doRun() {
                                             << " (too many sub-edges)";
                                         throw FileFormatException(errorSs.str());
                                     }
-                                    currentEdge = lattice_.firstOutEdge(currentVertex, rawMask);
+                                    try {
+                                        currentEdge = lattice_.firstOutEdge(
+                                            currentVertex, rawMask);
+                                    } catch (NoEdgeException) {
+                                        lattice_.addSymbols(currentVertex, to);
+                                        currentEdge = lattice_.firstOutEdge(
+                                            currentVertex, rawMask);
+                                    }
                                 } else if (edgeOrdinalMap.find(edgeNumberWithRole.edgeNumber)
                                            == edgeOrdinalMap.end()) {
                                     std::stringstream errorSs;
-- 
2.43.0


From e181d4c4fc9f80828ddf427967a25b8bfbf92db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:08 +0000
Subject: [PATCH 21/52] fix: measure the text covered by the PSI writer in
 unescaped characters

The covered text was accumulated in its escaped (or shortened) form, so after
a backslash, underscore, star, hash or newline the writer believed more text
had been written than was, and left characters out of the output.
---
 formats/psi/psi_writer/psi_lattice_writer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/formats/psi/psi_writer/psi_lattice_writer.cpp b/formats/psi/psi_writer/psi_lattice_writer.cpp
index 93fe86d..efde4b2 100644
--- a/formats/psi/psi_writer/psi_lattice_writer.cpp
+++ b/formats/psi/psi_writer/psi_lattice_writer.cpp
@@ -140,7 +140,7 @@ void PsiLatticeWriter::Worker::printEdge(
 
                 printTableRow_(outputCells);
 
-                latticeTextCovered += edgeText;
+                latticeTextCovered += lattice_.getEdgeText(rawEdge);
 
                 i = lattice_.getEdgeEndIndex(rawEdge);
 
@@ -257,7 +257,7 @@ void PsiLatticeWriter::Worker::printEdge(
     if (!lattice_.isLooseVertex(source) && !lattice_.isLooseVertex(target)) {
         try {
             latticeTextCovered +=
-                edgeTextPrinted.substr(latticeTextCovered.length()
+                lattice_.getEdgeText(edge).substr(latticeTextCovered.length()
                     - lattice_.getVertexRawCharIndex(source));
         } catch (std::out_of_range) { }
     }
-- 
2.43.0


From a88d328ee61aff30584e46c57ae67aaf6aee4d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:08 +0000
Subject: [PATCH 22/52] fix: do not cut escape sequences when the PSI writer
 shortens a text

A long text was cut in its escaped form, possibly between a backslash and the
character it escapes, which the PSI reader rejects.
---
 formats/psi/psi_writer/psi_lattice_writer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/formats/psi/psi_writer/psi_lattice_writer.cpp b/formats/psi/psi_writer/psi_lattice_writer.cpp
index efde4b2..17f0324 100644
--- a/formats/psi/psi_writer/psi_lattice_writer.cpp
+++ b/formats/psi/psi_writer/psi_lattice_writer.cpp
@@ -5,6 +5,7 @@
 
 #include <boost/assign/list_of.hpp>
 
+#include "escaping.hpp"
 #include "logging.hpp"
 
 std::string PsiLatticeWriter::getFormatName() {
@@ -244,11 +245,15 @@ void PsiLatticeWriter::Worker::printEdge(
     } else if (edgeTextLength > getColumnWidth_(3) && !writeWholeText) {
         std::string::const_iterator bIter = edgeText.begin();
         utf8::unchecked::advance(bIter, getColumnWidth_(3) - 7);
+        if (Escaping::isEscaped(edgeText, bIter - edgeText.begin()))
+            --bIter;
         edgeTextSs << edgeText.substr(0, bIter - edgeText.begin()) << "...";
 
         std::string::const_iterator eIter = edgeText.end();
         for (int i = 0; i < 3; ++i)
             utf8::unchecked::prior(eIter);
+        if (Escaping::isEscaped(edgeText, eIter - edgeText.begin()))
+            --eIter;
 
         edgeTextPrinted = edgeText.substr(eIter - edgeText.begin());
     } else {
-- 
2.43.0


From 837d05022879dbb0193bc6139e68cd719f16fa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:21 +0000
Subject: [PATCH 23/52] fix: write uncovered non-ASCII text in the PSI writer

Text not covered by any edge was written byte by byte, so a multi-byte
character made the writer fail on invalid UTF-8.
---
 formats/psi/psi_writer/psi_lattice_writer.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/formats/psi/psi_writer/psi_lattice_writer.cpp b/formats/psi/psi_writer/psi_lattice_writer.cpp
index 17f0324..af80999 100644
--- a/formats/psi/psi_writer/psi_lattice_writer.cpp
+++ b/formats/psi/psi_writer/psi_lattice_writer.cpp
@@ -151,7 +151,10 @@ void PsiLatticeWriter::Worker::printEdge(
 
                 std::vector<std::string> outputCells;
 
-                char uncoveredSymbol = lattice_.getAllText()[i];
+                const std::string& allText = lattice_.getAllText();
+                std::string::const_iterator symbolEnd = allText.begin() + i;
+                utf8::next(symbolEnd, allText.end());
+                std::string uncoveredSymbol(allText.begin() + i, symbolEnd);
 
                 ++ordinal;
                 std::stringstream ordinalSs;
@@ -164,9 +167,12 @@ void PsiLatticeWriter::Worker::printEdge(
                 beginningSs << i;
                 outputCells.push_back(beginningSs.str());
 
-                outputCells.push_back("01");
+                std::stringstream lengthSs;
+                lengthSs << std::right << std::setfill('0') << std::setw(2);
+                lengthSs << uncoveredSymbol.length();
+                outputCells.push_back(lengthSs.str());
 
-                outputCells.push_back(quoter.escape(std::string(1, uncoveredSymbol)));
+                outputCells.push_back(quoter.escape(uncoveredSymbol));
 
                 outputCells.push_back("∅");
 
@@ -177,7 +183,7 @@ void PsiLatticeWriter::Worker::printEdge(
                 printTableRow_(outputCells);
 
                 latticeTextCovered += uncoveredSymbol;
-                i++;
+                i += uncoveredSymbol.length();
 
             }
         }
-- 
2.43.0


From d28bdbbf6618aafc2e32fd7170fc8607b3c2a313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 24/52] fix: the PSI reader appended the end of a shortened
 text to the lattice

---
 formats/psi/psi_reader/psi_lattice_reader.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/formats/psi/psi_reader/psi_lattice_reader.cpp b/formats/psi/psi_reader/psi_lattice_reader.cpp
index 3935ac2..a9289e2 100644
--- a/formats/psi/psi_reader/psi_lattice_reader.cpp
+++ b/formats/psi/psi_reader/psi_lattice_reader.cpp
@@ -89,7 +89,13 @@ void PsiLatticeReader::Worker::doRun() {
 
             // Appending lattice.
 
-            if (!item.beginningLoose) {
+            // The text of an edge may be shortened if it is already known.
+            bool textAlreadyKnown =
+                !item.lengthPoint &&
+                item.beginning + item.length
+                    <= (int)(lattice_.getVertexRawCharIndex(lattice_.getLastVertex()));
+
+            if (!item.beginningLoose && !textAlreadyKnown) {
                 try {
                     if (
                         (int)(lattice_.getVertexRawCharIndex(lattice_.getLastVertex())) <
-- 
2.43.0


From 10a9bcc82ac7036a7eb0f154ab9416de85fc1a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 25/52] fix: the PSI writer left annotated symbol edges out of
 partitions

---
 formats/psi/psi_writer/psi_lattice_writer.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/formats/psi/psi_writer/psi_lattice_writer.cpp b/formats/psi/psi_writer/psi_lattice_writer.cpp
index af80999..fd6c758 100644
--- a/formats/psi/psi_writer/psi_lattice_writer.cpp
+++ b/formats/psi/psi_writer/psi_lattice_writer.cpp
@@ -358,8 +358,7 @@ void PsiLatticeWriter::Worker::printEdge(
                             lattice_.getAnnotationItemManager().zvalueToString(ed.getRole()))
                         << '$';
                 }
-            } else if (!lattice_.getLayerTagManager().isThere(
-                    "symbol", lattice_.getEdgeLayerTags(ed.getEdge()))) {
+            } else if (!lattice_.isEdgeHidden(ed.getEdge())) {
                 printEdge(ed.getEdge(), quoter, edgeOrdinalMap, ordinal, latticeTextCovered);
                 std::map<Lattice::EdgeDescriptor, int>::iterator mi2
                     = edgeOrdinalMap.find(ed.getEdge());
-- 
2.43.0


From 0fc51162fb73cb32c45aa867e1c6423fa67bf933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 26/52] fix: the PSI writer lost analyses of an edge with
 several partitions

---
 formats/psi/psi_writer/psi_lattice_writer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/formats/psi/psi_writer/psi_lattice_writer.cpp b/formats/psi/psi_writer/psi_lattice_writer.cpp
index fd6c758..f08b217 100644
--- a/formats/psi/psi_writer/psi_lattice_writer.cpp
+++ b/formats/psi/psi_writer/psi_lattice_writer.cpp
@@ -335,7 +335,8 @@ void PsiLatticeWriter::Worker::printEdge(
             Lattice::EdgeUsage ed = ei.nextUsage();
             if (partitionBeginning) {
                 if (
-                    lattice_.isEdgeHidden(ed.getEdge())
+                    lattice_.isEdgeHidden(ed.getEdge()) &&
+                    partitions.size() == 1
                 ) {
                     isDefaultPartition = true;
                 }
@@ -373,6 +374,9 @@ void PsiLatticeWriter::Worker::printEdge(
                 }
             }
         }
+        if (linkSs.str().empty() && !partitionBeginning && partitions.size() > 1) {
+            linkSs << "0";
+        }
         partSs << linkSs.str();
         std::list<std::string> partitionTagNames
             = lattice_.getLayerTagManager().getTagNames(partition.getTagList());
-- 
2.43.0


From 109b19799d74632c5d11a673d0fbd4b8eb88481f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 27/52] fix: the PSI reader started each further partition
 where the last one ended

---
 formats/psi/psi_reader/psi_lattice_reader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/formats/psi/psi_reader/psi_lattice_reader.cpp b/formats/psi/psi_reader/psi_lattice_reader.cpp
index a9289e2..207d2c6 100644
--- a/formats/psi/psi_reader/psi_lattice_reader.cpp
+++ b/formats/psi/psi_reader/psi_lattice_reader.cpp
@@ -244,6 +244,7 @@ void PsiLatticeReader::Worker::doRun() {
                 if (parse(partsBegin, partsEnd, partsGrammar, partsItem)) {
 
                     BOOST_FOREACH(std::string part, partsItem) {
+                        currentVertex = from;
                         Lattice::EdgeSequence::Builder seqBuilder(lattice_);
                         PsiLRPartitionItem partItem;
                         std::string::const_iterator partBegin = part.begin();
-- 
2.43.0


From fd43e7793574649f0f4128827d1aaff6bf68dfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 28/52] fix: the PSI reader did not unescape tags

---
 formats/psi/psi_reader/psi_lattice_reader.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/psi/psi_reader/psi_lattice_reader.hpp b/formats/psi/psi_reader/psi_lattice_reader.hpp
index 1f16084..8ba7ee6 100644
--- a/formats/psi/psi_reader/psi_lattice_reader.hpp
+++ b/formats/psi/psi_reader/psi_lattice_reader.hpp
@@ -84,7 +84,7 @@ struct PsiLRItem {
 
     void unescape(Quoter & quoter) {
         text = quoter.unescape(text);
-        BOOST_FOREACH(std::string tag, tags) {
+        BOOST_FOREACH(std::string& tag, tags) {
             tag = quoter.unescape(tag);
         }
         annotationText = quoter.unescape(annotationText);
-- 
2.43.0


From 3205bd0a688ddd0df29f993bb50218270e643253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 29/52] fix: the PSI writer did not escape the tags of
 partitions

---
 formats/psi/psi_writer/psi_lattice_writer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/psi/psi_writer/psi_lattice_writer.cpp b/formats/psi/psi_writer/psi_lattice_writer.cpp
index f08b217..ca3b545 100644
--- a/formats/psi/psi_writer/psi_lattice_writer.cpp
+++ b/formats/psi/psi_writer/psi_lattice_writer.cpp
@@ -388,7 +388,7 @@ void PsiLatticeWriter::Worker::printEdge(
                 }
                 partitionTagStr += partitionTagName;
             }
-            partSs << "(" << partitionTagStr << ")";
+            partSs << "(" << quoter.escape(partitionTagStr) << ")";
         }
         Lattice::Score partitionScore = partition.getScore();
         if (partitionScore != score) {
-- 
2.43.0


From c2bef4c498edaecaa8ca4fb66cf87cd0be5cbe90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 30/52] fix: special casing of most characters was never found

---
 utf8case/special_casing_converter.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/utf8case/special_casing_converter.cpp b/utf8case/special_casing_converter.cpp
index c23afb9..3592c3d 100644
--- a/utf8case/special_casing_converter.cpp
+++ b/utf8case/special_casing_converter.cpp
@@ -5,9 +5,6 @@ const char* SpecialCasingConverter::convert(uint32_t code_point) const {
     for (size_t i = 0; i < tableSize_; ++i) {
         const SpecialCasingConversionRecord* currentRecord = &conversionTable_[i];
 
-        if (code_point < currentRecord->code_point)
-            return 0;
-
         if (code_point == currentRecord->code_point)
             return currentRecord->replacement;
     }
-- 
2.43.0


From 06938bfb72e17d4ca97b2bf6a2e6388eb99ce8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:19 +0000
Subject: [PATCH 31/52] fix: multipart headers: quoted text was taken for
 parameters, content types lost their last letter

---
 server/mpfd-parser/Parser.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/server/mpfd-parser/Parser.cpp b/server/mpfd-parser/Parser.cpp
index 5941706..09e664d 100644
--- a/server/mpfd-parser/Parser.cpp
+++ b/server/mpfd-parser/Parser.cpp
@@ -157,6 +157,20 @@ void MPFD::Parser::SetTempDirForFileUpload(std::string dir) {
     TempDirForFileUpload = dir;
 }
 
+// Position of the given text outside quoted values, where it is not the end of a longer name.
+static unsigned long FindParameter(const std::string & headers, const std::string & parameter) {
+    bool quoted = false;
+    for (unsigned long i = 0; i < headers.length(); i++) {
+        if (!quoted && (headers.compare(i, parameter.length(), parameter) == 0) && ((i == 0) || (!isalnum((unsigned char) headers[i - 1])))) {
+            return i;
+        }
+        if (headers[i] == '"') {
+            quoted = !quoted;
+        }
+    }
+    return std::string::npos;
+}
+
 void MPFD::Parser::_ParseHeaders(std::string headers) {
     // Check if it is form data
     if (headers.find("Content-Disposition: form-data;") == std::string::npos) {
@@ -164,7 +178,7 @@ void MPFD::Parser::_ParseHeaders(std::string headers) {
     }
 
     // Find name
-    unsigned long name_pos = headers.find("name=\"");
+    unsigned long name_pos = FindParameter(headers, "name=\"");
     if (name_pos == std::string::npos) {
         throw Exception(std::string("Accepted headers of field does not contain \"name=\".\nThe headers are: \"") + headers + std::string("\""));
     } else {
@@ -178,7 +192,7 @@ void MPFD::Parser::_ParseHeaders(std::string headers) {
 
 
         // find filename if exists
-        unsigned long filename_pos = headers.find("filename=\"");
+        unsigned long filename_pos = FindParameter(headers, "filename=\"");
         if (filename_pos == std::string::npos) {
             Fields[ProcessingFieldName]->SetType(Field::TextType);
         } else {
@@ -195,12 +209,12 @@ void MPFD::Parser::_ParseHeaders(std::string headers) {
             }
 
             // find Content-Type if exists
-            unsigned long content_type_pos = headers.find("Content-Type: ");
+            unsigned long content_type_pos = FindParameter(headers, "Content-Type: ");
             if (content_type_pos != std::string::npos) {
                 long content_type_end_pos = 0;
                 for (unsigned int i = content_type_pos + 14; (i < headers.length()) && (!content_type_end_pos); i++) {
                     if ((headers[i] == ' ') || (headers[i] == 10) || (headers[i] == 13)) {
-                        content_type_end_pos = i - 1;
+                        content_type_end_pos = i;
                     }
                 }
                 std::string content_type = headers.substr(content_type_pos + 14, content_type_end_pos - (content_type_pos + 14));
-- 
2.43.0


From 382a2133e0df3034ad6efb6b3d6ccaea736d228f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:56 +0000
Subject: [PATCH 32/52] fix: indented lines of a plain text lexicon were
 silently dropped

---
 tools/datastructures/lexica/lexicon_base.cpp        | 2 +-
 tools/datastructures/psi_query/fsa_lexicon_base.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/datastructures/lexica/lexicon_base.cpp b/tools/datastructures/lexica/lexicon_base.cpp
index e313c46..6507720 100644
--- a/tools/datastructures/lexica/lexicon_base.cpp
+++ b/tools/datastructures/lexica/lexicon_base.cpp
@@ -104,5 +104,5 @@ void LexiconBase::removeComment_(std::string& s) {
 }
 
 bool LexiconBase::isEmptyLine_(const std::string& s) {
-    return s.find_first_not_of(LEXICON_TEXT_FIELD_SEPARATORS);
+    return s.find_first_not_of(LEXICON_TEXT_FIELD_SEPARATORS) == std::string::npos;
 }
diff --git a/tools/datastructures/psi_query/fsa_lexicon_base.cpp b/tools/datastructures/psi_query/fsa_lexicon_base.cpp
index 235bd0f..1f3972d 100644
--- a/tools/datastructures/psi_query/fsa_lexicon_base.cpp
+++ b/tools/datastructures/psi_query/fsa_lexicon_base.cpp
@@ -76,7 +76,7 @@ void FSALexiconBase::removeComment_(std::string& s) {
 }
 
 bool FSALexiconBase::isEmptyLine_(const std::string& s) {
-    return s.find_first_not_of(LEXICON_TEXT_FIELD_SEPARATORS);
+    return s.find_first_not_of(LEXICON_TEXT_FIELD_SEPARATORS) == std::string::npos;
 }
 
 }
-- 
2.43.0


From 22ef25c8bda322cf90a54eba50d15692a2b18af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:56 +0000
Subject: [PATCH 33/52] fix: building a key-value store without keys never
 returned

---
 tools/datastructures/lexica/perfect_hash_index.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tools/datastructures/lexica/perfect_hash_index.hpp b/tools/datastructures/lexica/perfect_hash_index.hpp
index dd55928..967f917 100644
--- a/tools/datastructures/lexica/perfect_hash_index.hpp
+++ b/tools/datastructures/lexica/perfect_hash_index.hpp
@@ -23,7 +23,13 @@ private:
     cmph_t* m_hash;
 
     void calcHashFunction() {
-        cmph_io_adapter_t* source = cmph_io_vector_adapter((char**) &m_keys[0], m_keys.size());
+        // cmph never returns when there are no keys at all
+        char noKey[] = "";
+        std::vector<char*> keys(m_keys);
+        if (keys.empty())
+            keys.push_back(noKey);
+
+        cmph_io_adapter_t* source = cmph_io_vector_adapter(&keys[0], keys.size());
 
         cmph_config_t* config = cmph_config_new(source);
         cmph_config_set_algo(config, m_algo);
-- 
2.43.0


From b812036fe965b4e3922aede20c07a346b0002ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:45 +0000
Subject: [PATCH 34/52] fix: a plain text lexicon with separated entries of one
 key crashed the program

---
 tools/datastructures/lexica/lexicon_base.cpp | 40 +++++++++-----------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/tools/datastructures/lexica/lexicon_base.cpp b/tools/datastructures/lexica/lexicon_base.cpp
index 6507720..f7936a1 100644
--- a/tools/datastructures/lexica/lexicon_base.cpp
+++ b/tools/datastructures/lexica/lexicon_base.cpp
@@ -2,6 +2,8 @@
 #include "lexicon_base.hpp"
 #include "logging.hpp"
 
+#include <map>
+
 #include <boost/filesystem/fstream.hpp>
 #include <boost/algorithm/string.hpp>
 #include <boost/foreach.hpp>
@@ -15,9 +17,8 @@ void LexiconBase::readPlainText(const boost::filesystem::path& plainTextLexicon)
     boost::filesystem::ifstream plainTextStream(plainTextLexicon);
 
     std::string line;
-    std::string prevKey;
-    std::string stringSoFar;
-    bool firstEntry = true;
+    // the entries of a key do not have to be next to each other
+    std::map<std::string, std::string> entries;
 
     typedef boost::sub_range<std::vector<std::string> > SubRange; 
     
@@ -42,28 +43,23 @@ void LexiconBase::readPlainText(const boost::filesystem::path& plainTextLexicon)
                 std::string("at least two fields expected in plain text lexicon, was: `")
                 + line + "`");
 
-        if (firstEntry) {
-            prevKey = fields[0];
-            stringSoFar = boost::join(SubRange(fields.begin() + 1, fields.end()),
-                                      LEXICON_FIELD_SEPARATOR);
-            firstEntry = false;
-        } else {
-            if (fields[0] == prevKey) {
-                stringSoFar += LEXICON_RECORD_SEPARATOR;
-                stringSoFar += boost::join(SubRange(fields.begin() + 1, fields.end()),
-                                           LEXICON_FIELD_SEPARATOR);
-            }
-            else {
-                storeBuilder.add(prevKey, stringSoFar);
-                prevKey = fields[0];
-                stringSoFar = boost::join(SubRange(fields.begin() + 1, fields.end()),
-                                          LEXICON_FIELD_SEPARATOR);
-            }
+        std::string record = boost::join(SubRange(fields.begin() + 1, fields.end()),
+                                         LEXICON_FIELD_SEPARATOR);
+
+        std::pair<std::map<std::string, std::string>::iterator, bool> inserted
+            = entries.insert(std::make_pair(fields[0], record));
+
+        if (!inserted.second) {
+            inserted.first->second += LEXICON_RECORD_SEPARATOR;
+            inserted.first->second += record;
         }
     }
 
-    if (!firstEntry)
-        storeBuilder.add(prevKey, stringSoFar);
+    typedef std::map<std::string, std::string>::value_type Entry;
+
+    BOOST_FOREACH(const Entry& entry, entries) {
+        storeBuilder.add(entry.first, entry.second);
+    }
 
     store_.reset(storeBuilder.build());
 }
-- 
2.43.0


From 54043aa5352f7ecc9f943809975360f275bdeca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:01 +0000
Subject: [PATCH 35/52] fix: strings with bytes above 127 never compared equal
 in a string vector

---
 tools/datastructures/lexica/string_vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/datastructures/lexica/string_vector.hpp b/tools/datastructures/lexica/string_vector.hpp
index 9680e45..7e1dc64 100644
--- a/tools/datastructures/lexica/string_vector.hpp
+++ b/tools/datastructures/lexica/string_vector.hpp
@@ -3,6 +3,7 @@
 
 #include <vector>
 #include <algorithm>
+#include <functional>
 #include <string>
 #include <iterator>
 #include <cstdio>
@@ -217,7 +218,9 @@ template <typename ValueIteratorT>
 template <typename StringT>
 bool ValueIteratorRange<ValueIteratorT>::operator==(const StringT& o) const {
     if (std::distance(m_begin, m_end) == std::distance(o.begin(), o.end()))
-        return std::equal(m_begin, m_end, o.begin());
+        return std::equal(
+            m_begin, m_end, o.begin(),
+            std::equal_to<typename std::iterator_traits<ValueIteratorT>::value_type>());
     else
         return false;
 }
-- 
2.43.0


From 2f134795b3d34724e01d56747d4c5a154561ae57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:54 +0000
Subject: [PATCH 36/52] fix: an empty last string of a string vector was
 addressed through an element that is not there

---
 tools/datastructures/lexica/string_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/datastructures/lexica/string_vector.hpp b/tools/datastructures/lexica/string_vector.hpp
index 7e1dc64..9294147 100644
--- a/tools/datastructures/lexica/string_vector.hpp
+++ b/tools/datastructures/lexica/string_vector.hpp
@@ -350,7 +350,8 @@ PosT StringVector<ValueT, PosT>::length(PosT i) const {
 
 template<typename ValueT, typename PosT>
 const ValueT* StringVector<ValueT, PosT>::value_ptr(PosT i) const {
-    return &m_charArray[m_positions[i]];
+    // an empty string at the end starts past the last character
+    return m_charArray.data() + m_positions[i];
 }
 
 template<typename ValueT, typename PosT>
-- 
2.43.0


From d9b2ad17edcb5b5cb1ab6a44d68d66c37f96d31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:04 +0000
Subject: [PATCH 37/52] fix: a tokenizer rule matching the empty string aborted
 the tokenization

---
 tools/tokenizers/tp/tp_token_cutter.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/tokenizers/tp/tp_token_cutter.hpp b/tools/tokenizers/tp/tp_token_cutter.hpp
index 990ec5e..448e087 100644
--- a/tools/tokenizers/tp/tp_token_cutter.hpp
+++ b/tools/tokenizers/tp/tp_token_cutter.hpp
@@ -46,7 +46,8 @@ AnnotationItem TpTokenCutter::performCutOff(const StringType& text, size_t& posi
     for (size_t i = 0; i < ruleSet_.getRegexCount(); ++i) {
         PerlRegExp* regexp = ruleSet_.getRegex(i);
 
-        if (PerlRegExp::Consume(&textSp, *regexp)) {
+        // an empty match is no token
+        if (PerlRegExp::Consume(&textSp, *regexp) && size_t(textSp.size()) < len) {
             size_t tokenLength = len - textSp.size();
             StringFrag sf(text, positionInText, tokenLength);
             positionInText += tokenLength;
-- 
2.43.0


From 1cab5caa102fa9dde066af79bf751847d6814913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:04 +0000
Subject: [PATCH 38/52] fix: an else within a skipped ifdef block of a
 tokenizer rule file reopened the outer block

---
 tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
index b61883a..04cb38e 100644
--- a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
+++ b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
@@ -498,8 +498,13 @@ void TPBasicTokenizerRuleSet::readElse(
     else
     {
         ifstack.back().setType(TELSE);
-        ifstack.back().setValue(true);
-        openedIf = false;
+
+        // nothing to be closed (or opened again by endif)
+        // if the condition itself is within a skipped block
+        if (openedIf) {
+            ifstack.back().setValue(true);
+            openedIf = false;
+        }
     }
 };
 
-- 
2.43.0


From e4211fa28074770bf3a0d6b4506eb9019d7e1ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:04 +0000
Subject: [PATCH 39/52] fix: a parenthesis within a character class of an SRX
 rule made the class match other characters

---
 tools/segmenters/srx/srx_segmenter.cpp | 32 ++++++++++++++++++++------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/tools/segmenters/srx/srx_segmenter.cpp b/tools/segmenters/srx/srx_segmenter.cpp
index bc32647..eed6c60 100644
--- a/tools/segmenters/srx/srx_segmenter.cpp
+++ b/tools/segmenters/srx/srx_segmenter.cpp
@@ -10,7 +10,6 @@
 
 #include "annotation_item.hpp"
 #include "cutter.hpp"
-#include "escaping.hpp"
 
 #include "cutter_annotator_options.hpp"
 
@@ -126,16 +125,35 @@ std::string SrxSegmenter::makeRegexp_(const SrxRule& srxRule) {
 }
 
 std::string SrxSegmenter::makeAllParensNonCapturing_(const std::string& pattern) {
-    size_t pos = 0;
     std::string ret = pattern;
-    while ( (pos = ret.find("(", pos)) != std::string::npos ) {
-        if (!Escaping::isEscaped(ret, pos)
-            && !(pos + 1 < ret.length() && ret[pos+1] == '?')) {
+    bool withinClass = false;
+
+    for (size_t pos = 0; pos < ret.length(); ++pos) {
+        if (ret[pos] == '\\')
+            ++pos;
+        else if (withinClass) {
+            size_t posixClassEnd;
+
+            if (ret.compare(pos, 2, "[:") == 0
+                && (posixClassEnd = ret.find(":]", pos + 2)) != std::string::npos)
+                pos = posixClassEnd + 1;
+            else if (ret[pos] == ']')
+                withinClass = false;
+        }
+        else if (ret[pos] == '[') {
+            withinClass = true;
+
+            // a closing bracket at the beginning of a class stands for itself
+            if (pos + 1 < ret.length() && ret[pos+1] == '^')
+                ++pos;
+            if (pos + 1 < ret.length() && ret[pos+1] == ']')
+                ++pos;
+        }
+        else if (ret[pos] == '('
+                 && !(pos + 1 < ret.length() && ret[pos+1] == '?')) {
             ret.replace(pos+1, 0, "?:");
             pos += 2;
         }
-
-        ++pos;
     }
 
     return ret;
-- 
2.43.0


From 1bd5f415fb475dfdcd5f9748f4ff8aceb363db1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:47 +0000
Subject: [PATCH 40/52] fix: an error in a tokenizer rule file thrown as a
 pointer ended the program without a message

---
 tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
index 04cb38e..19b5524 100644
--- a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
+++ b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
@@ -124,7 +124,7 @@ bool TPBasicTokenizerRuleSet::changeHereDoc(std::string& strg) {
         std::string restS = rest.as_string();
         size_t markerPos = restS.find(marker);
         if (markerPos == std::string::npos)
-            throw new TPTokenizerException("wrong here doc for `" + marker + "'");
+            throw TPTokenizerException("wrong here doc for `" + marker + "'");
 
         std::string hereDocBody = restS.substr(0, markerPos);
 
@@ -249,7 +249,7 @@ std::string TPBasicTokenizerRuleSet::getContent(
 
     PerlStringPiece bufferPiece(buffer);
     if (!PerlRegExp::FindAndConsume(&bufferPiece, ruleName, &target))
-        throw new TPTokenizerException(msg + context + " at line: " + itoa(filePos));
+        throw TPTokenizerException(msg + context + " at line: " + itoa(filePos));
 
     buffer = bufferPiece.as_string();
 
@@ -265,7 +265,7 @@ void TPBasicTokenizerRuleSet::isEmpty(
     PerlRegExp empty("^\\s+$");
 
     if (PerlRegExp::FullMatch(buffer, empty))
-        throw new TPTokenizerException(std::string(msg) + "in: "+ context + "at: " + itoa(filePos));
+        throw TPTokenizerException(std::string(msg) + "in: "+ context + "at: " + itoa(filePos));
 }
 
 void TPBasicTokenizerRuleSet::readRule(
-- 
2.43.0


From 6ddfa318767bb885277d715a9f45e933aa1c58d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:47 +0000
Subject: [PATCH 41/52] fix: an else or endif without ifdef in a tokenizer rule
 file corrupted memory

---
 tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
index 19b5524..fd601b8 100644
--- a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
+++ b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
@@ -487,6 +487,10 @@ void TPBasicTokenizerRuleSet::readElse(
     std::string context, size_t & filePos,
     std::list<IfElem> & ifstack) {
 
+    if (ifstack.empty())
+        throw TPTokenizerException(std::string("else without ifdef")
+                                   +context+std::string(":")+itoa(filePos));
+
     if (!openedIf && ifstack.back().getValue()) {
 
         if (ifstack.back().getType() == TELSE)
@@ -510,6 +514,9 @@ void TPBasicTokenizerRuleSet::readElse(
 
 void TPBasicTokenizerRuleSet::readEndIf(std::list<IfElem> & ifstack) {
 
+    if (ifstack.empty())
+        throw TPTokenizerException("endif without ifdef");
+
     if (!openedIf && ifstack.back().getValue()) {
         openedIf = true;
     }
-- 
2.43.0


From 1f3d404affbe3e7cb719ee6c180dc95743a79533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:47 +0000
Subject: [PATCH 42/52] fix: encoding conversion kept only the first 100000
 bytes, and nothing after a zero byte

---
 common/encoding_converter.cpp | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/common/encoding_converter.cpp b/common/encoding_converter.cpp
index de73755..e0a5b7c 100644
--- a/common/encoding_converter.cpp
+++ b/common/encoding_converter.cpp
@@ -70,7 +70,6 @@ std::vector<std::string> EncodingConverter::getAllEncodings() {
 
 const int EncodingConverter::TINICONV_OPTION = 0;
 
-// FIXME: 400 000 = memory access violation at address: 0xbfa729ac: no mapping at fault address
 const int EncodingConverter::BUFFER_SIZE = 100000;
 
 EncodingConverter::EncodingConverter() : targetEncoding_("UTF-8") { }
@@ -143,23 +142,31 @@ bool EncodingConverter::convert_(int inCharsetId, int outCharsetId,
         return false;
     }
 
-    int inSizeConsumed, outSizeConsumed;
+    const unsigned char* inputChars = (const unsigned char*) input.data();
+    int inputCharsLength = input.length();
 
-    unsigned char outputBuffer[BUFFER_SIZE];
-    const char* inputChars = input.c_str();
-    int inputCharsLength = strlen(inputChars);
+    std::vector<unsigned char> outputBuffer(BUFFER_SIZE);
 
-    result = tiniconv_convert(&tiniconvStruct,
-                              (const unsigned char*)inputChars, inputCharsLength, &inSizeConsumed,
-                              outputBuffer, sizeof(outputBuffer) - 1, &outSizeConsumed);
+    output.clear();
 
-    if (result < TINICONV_CONVERT_OUT_TOO_SMALL) {
-        WARN("tiniconv convertion failed");
-        return false;
-    }
+    // the output is collected in portions
+    do {
+        int inSizeConsumed, outSizeConsumed;
+
+        result = tiniconv_convert(&tiniconvStruct,
+                                  inputChars, inputCharsLength, &inSizeConsumed,
+                                  &outputBuffer[0], outputBuffer.size(), &outSizeConsumed);
+
+        if (result < TINICONV_CONVERT_OUT_TOO_SMALL) {
+            WARN("tiniconv convertion failed");
+            return false;
+        }
+
+        output.append(outputBuffer.begin(), outputBuffer.begin() + outSizeConsumed);
 
-    outputBuffer[outSizeConsumed] = 0;
-    output = std::string((const char *)outputBuffer);
+        inputChars += inSizeConsumed;
+        inputCharsLength -= inSizeConsumed;
+    } while (inputCharsLength > 0 && result != TINICONV_CONVERT_IN_TOO_SMALL);
 
     DEBUG("tiniconv convertion output: [" << output << "]");
 
-- 
2.43.0


From 12e022b49d6347ca7d4f7643912058682ef751c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:44 +0000
Subject: [PATCH 43/52] fix: a text converted to UTF-7 or ISO-2022-JP did not
 return to the initial state at its end

---
 common/encoding_converter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/encoding_converter.cpp b/common/encoding_converter.cpp
index e0a5b7c..f014554 100644
--- a/common/encoding_converter.cpp
+++ b/common/encoding_converter.cpp
@@ -168,6 +168,14 @@ bool EncodingConverter::convert_(int inCharsetId, int outCharsetId,
         inputCharsLength -= inSizeConsumed;
     } while (inputCharsLength > 0 && result != TINICONV_CONVERT_IN_TOO_SMALL);
 
+    // the encoder may need to return to its initial state
+    if (tiniconvStruct.reset) {
+        int size = tiniconvStruct.reset(&tiniconvStruct, &outputBuffer[0], outputBuffer.size());
+
+        if (size > 0)
+            output.append(outputBuffer.begin(), outputBuffer.begin() + size);
+    }
+
     DEBUG("tiniconv convertion output: [" << output << "]");
 
     return true;
-- 
2.43.0


From 75000c0374ac0acf6708f2d90bac2d4d442ce68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:44 +0000
Subject: [PATCH 44/52] fix: texts were not converted from the converter's own
 encoding to another one

---
 common/encoding_converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/encoding_converter.cpp b/common/encoding_converter.cpp
index f014554..580235c 100644
--- a/common/encoding_converter.cpp
+++ b/common/encoding_converter.cpp
@@ -117,7 +117,7 @@ std::string EncodingConverter::convert(std::string from, std::string to, std::st
         WARN("unrecognized target encoding: " << to);
         return text;
     }
-    if (from == ASCII || from == to || from == targetEncoding_) {
+    if (from == ASCII || from == to) {
         INFO("conversion skipped because source and/or target encoding(s)");
         return text;
     }
-- 
2.43.0


From f1b015532cde163cb00a3c394ab8851301e0013e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:44 +0000
Subject: [PATCH 45/52] fix: Chinese texts with ASCII characters were not
 converted, and misspelt encodings were not recognized

---
 common/encoding_converter.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/common/encoding_converter.cpp b/common/encoding_converter.cpp
index 580235c..0ec3b83 100644
--- a/common/encoding_converter.cpp
+++ b/common/encoding_converter.cpp
@@ -24,10 +24,10 @@ std::map<std::string, int> EncodingConverter::CHARSET_CODES = boost::assign::map
     ("windows-1256",    7)
     ("windows-1257",    8)
     ("windows-1258",    9)
-    ("CP939",           10)
+    ("CP936",           10)
     ("HZ-GB-2312",      11) // or EUC-CN like in tiniconv/tiniconv_desc.c?
-    ("GBK",             12)
-    ("ISO-2020-JP",     13)
+    ("GBK",             10) // 12 is the two-byte part only
+    ("ISO-2022-JP",     13)
     ("ISO-8859-1",      14) // doesn't exist in uchardet
     ("ISO-8859-2",      15)
     ("ISO-8859-3",      16) // doesn't exist in uchardet
@@ -47,11 +47,11 @@ std::map<std::string, int> EncodingConverter::CHARSET_CODES = boost::assign::map
     ("KOI8-R",          30)
     ("KOI8-RU",         31) // doesn't exist in uchardet
     ("KOI8-U",          32) // doesn't exist in uchardet
-    ("x-max-cyrillic",  33)
+    ("x-mac-cyrillic",  33)
     ("UCS-2",           34) // doesn't exist in uchardet
     ("UTF-7",           35) // doesn't exist in uchardet
     ("UTF-8",           36)
-    ("GB-2312",         37) // or EUC-CN like 11?
+    ("GB-2312",         11) // 37 is the two-byte part only
     ("Big5",            38)
     ;
 
-- 
2.43.0


From 4b9504af3b6185d9f76c5fc398e8760e0bd2f676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:29 +0000
Subject: [PATCH 46/52] fix: an empty or whitespace argument at the end of the
 pipeline was lost

---
 framework/shallow_aliaser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/shallow_aliaser.cpp b/framework/shallow_aliaser.cpp
index 1dcb4b5..334dfea 100644
--- a/framework/shallow_aliaser.cpp
+++ b/framework/shallow_aliaser.cpp
@@ -101,7 +101,7 @@ std::vector<std::string> ShallowAliaser::replace(std::vector<std::string> pipeli
         boost::replace_all(pipeline[i], "\\\\\\\\n", "\\\\n");
         boost::replace_all(pipeline[i], "\\\\\\\\\\\\n", "\\\\\\\\n");
         boost::replace_all(pipeline[i], "\"", "\\\"");
-        if (pipeline[i].find(" ") != std::string::npos) {
+        if (pipeline[i].empty() || pipeline[i].find_first_of(" \t\n\r\v\f") != std::string::npos) {
             pipeline[i] = "\"" + pipeline[i] + "\"";
         }
     }
-- 
2.43.0


From 1bb0ed46332586f2d142570d62b3758d64ea6691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:28 +0000
Subject: [PATCH 47/52] fix: a trailing --lang option read past the end of the
 arguments

---
 framework/pipe_runner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/pipe_runner.cpp b/framework/pipe_runner.cpp
index 62159cd..572aa77 100644
--- a/framework/pipe_runner.cpp
+++ b/framework/pipe_runner.cpp
@@ -621,9 +621,9 @@ boost::program_options::variables_map PipeRunner::tryOptions_(
             if (iter != processorArgsWithoutLang.end()) {
                 std::list<std::string>::iterator b_iter = iter;
                 ++b_iter;
-                std::string langCode = *b_iter;
 
                 if (b_iter != processorArgsWithoutLang.end()) {
+                    std::string langCode = *b_iter;
                     ++b_iter;
                     processorArgsWithoutLang.erase(iter, b_iter);
 
-- 
2.43.0


From 1990205bb6c176738a249320aa9460b947b034ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:23 +0000
Subject: [PATCH 48/52] fix: the XML writer aliases lost the attributes of the
 element

---
 framework/shallow_aliaser.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/framework/shallow_aliaser.cpp b/framework/shallow_aliaser.cpp
index 334dfea..cc2f496 100644
--- a/framework/shallow_aliaser.cpp
+++ b/framework/shallow_aliaser.cpp
@@ -29,14 +29,14 @@ std::map<std::string, std::string> ShallowAliaser::ALIASES =
         ("write-selected",  "simple-writer --tags selected --sep \" \" --no-alts")
         ("get-selected",    "simple-writer --tags selected --sep \" \" --no-alts")
 
-        ("xml-writer", "bracketing-writer --skip-symbol-edges --opening-bracket \n"
-            "<edge tags=\"%T\" category=\"%c\" attrs=\"%A\"> --closing-bracket </edge>\n"
+        ("xml-writer", "bracketing-writer --skip-symbol-edges --opening-bracket \"\n"
+            "<edge tags=\\\"%T\\\" category=\\\"%c\\\" attrs=\\\"%A\\\">\" --closing-bracket </edge>\n"
             " --av-separator : --av-pairs-separator ;")
-        ("write-xml", "bracketing-writer --skip-symbol-edges --opening-bracket \n"
-            "<edge tags=\"%T\" category=\"%c\" attrs=\"%A\"> --closing-bracket </edge>\n"
+        ("write-xml", "bracketing-writer --skip-symbol-edges --opening-bracket \"\n"
+            "<edge tags=\\\"%T\\\" category=\\\"%c\\\" attrs=\\\"%A\\\">\" --closing-bracket </edge>\n"
             " --av-separator : --av-pairs-separator ;")
-        ("get-xml", "bracketing-writer --skip-symbol-edges --opening-bracket \n"
-            "<edge tags=\"%T\" category=\"%c\" attrs=\"%A\"> --closing-bracket </edge>\n"
+        ("get-xml", "bracketing-writer --skip-symbol-edges --opening-bracket \"\n"
+            "<edge tags=\\\"%T\\\" category=\\\"%c\\\" attrs=\\\"%A\\\">\" --closing-bracket </edge>\n"
             " --av-separator : --av-pairs-separator ;")
 
         ("write-forms", "bracketing-writer --tags form --show-only-tags 0"
-- 
2.43.0


From 83b1a248a5624e1fd1944be165d680cae426c6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:55 +0000
Subject: [PATCH 49/52] fix: looking up the aliases of a name never ended when
 the definitions formed a loop

---
 framework/aliaser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/framework/aliaser.cpp b/framework/aliaser.cpp
index a32e67c..befc324 100644
--- a/framework/aliaser.cpp
+++ b/framework/aliaser.cpp
@@ -90,9 +90,11 @@ void Aliaser::findAliases_(
     if (isAlias(name))
         aliases.insert(name);
 
-    if (depthLimit == 0)
+    if (depthLimit == 0) {
         WARN("search depth limit exceeded for `" << name
              << "` , there might be a loop in alias definitions");
+        return;
+    }
 
     std::map<std::string, std::set<std::string> >::const_iterator it
         = destinationAliases_.find(name);
-- 
2.43.0


From 22fa673505f9f59f3e000d9740f7a594b68e01ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:34 +0000
Subject: [PATCH 50/52] fix: an alias name inside an option value was expanded

---
 framework/shallow_aliaser.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/framework/shallow_aliaser.cpp b/framework/shallow_aliaser.cpp
index cc2f496..efb9a29 100644
--- a/framework/shallow_aliaser.cpp
+++ b/framework/shallow_aliaser.cpp
@@ -96,20 +96,24 @@ std::string ShallowAliaser::replace(const std::string& pipeline) {
 }
 
 std::vector<std::string> ShallowAliaser::replace(std::vector<std::string> pipeline) {
+    std::vector<std::string> result;
+
     for (size_t i = 0; i < pipeline.size(); ++i) {
-        boost::replace_all(pipeline[i], "\\", "\\\\\\\\");
-        boost::replace_all(pipeline[i], "\\\\\\\\n", "\\\\n");
-        boost::replace_all(pipeline[i], "\\\\\\\\\\\\n", "\\\\\\\\n");
-        boost::replace_all(pipeline[i], "\"", "\\\"");
-        if (pipeline[i].empty() || pipeline[i].find_first_of(" \t\n\r\v\f") != std::string::npos) {
+        if (hasAlias(pipeline[i])) {
+            pipeline[i] = getProcessorNameForAlias(pipeline[i]);
+        } else {
+            boost::replace_all(pipeline[i], "\\", "\\\\\\\\");
+            boost::replace_all(pipeline[i], "\\\\\\\\n", "\\\\n");
+            boost::replace_all(pipeline[i], "\\\\\\\\\\\\n", "\\\\\\\\n");
+            boost::replace_all(pipeline[i], "\"", "\\\"");
             pipeline[i] = "\"" + pipeline[i] + "\"";
         }
-    }
 
-    std::string pipelineAsString = boost::algorithm::join(pipeline, " ");
-    std::string resultAsString = replace(pipelineAsString);
+        std::vector<std::string> elements = splitPipeline(pipeline[i]);
+        result.insert(result.end(), elements.begin(), elements.end());
+    }
 
-    return splitPipeline(resultAsString);
+    return result;
 }
 
 std::set<std::string> ShallowAliaser::getAllAliases() {
-- 
2.43.0


From fc735c383d2c21ca82898c3a9e1268f6d0b089ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:25 +0000
Subject: [PATCH 51/52] fix: a glob's star stopped inside a multi-byte
 character, so a question mark matched half of it

---
 common/segment_glob.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/common/segment_glob.cpp b/common/segment_glob.cpp
index 9b40639..6b12dd9 100644
--- a/common/segment_glob.cpp
+++ b/common/segment_glob.cpp
@@ -1,6 +1,19 @@
 #include "segment_glob.hpp"
 
-#include "utf8/utf8.h"
+namespace {
+
+/**
+   Moves to the next UTF-8 character (never past the terminating zero, even
+   when the text is not valid UTF-8).
+*/
+void skipCharacter(const char*& p) {
+    if (*p)
+        ++p;
+    while ((static_cast<unsigned char>(*p) & 0xC0) == 0x80)
+        ++p;
+}
+
+}
 
 SegmentGlob::SegmentGlob(const std::string& glob):glob_(glob) {
     checkIfFixed_();
@@ -22,7 +35,7 @@ bool SegmentGlob::matches(const std::string& segment) const {
             return false;
         }
         if (*g == '?')
-            utf8::unchecked::next(s);
+            skipCharacter(s);
         else
             ++s;
 
@@ -35,16 +48,18 @@ bool SegmentGlob::matches(const std::string& segment) const {
                 return true;
             }
             mp = g;
-            cp = s+1;
+            cp = s;
+            skipCharacter(cp);
         } else if (*g == '?') {
             ++g;
-            utf8::unchecked::next(s);
+            skipCharacter(s);
         } else if (*g == *s) {
             ++g;
             ++s;
         } else {
             g = mp;
-            s = cp++;
+            s = cp;
+            skipCharacter(cp);
         }
     }
 
-- 
2.43.0


From 4c9c4f90f09748c929d797587ce540263e4020af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:20 +0000
Subject: [PATCH 52/52] fix: tags provided for one language were taken to
 fulfil the needs of a processor of another language

---
 framework/auto_completer.cpp | 29 +++++++++++++++++++----------
 framework/auto_completer.hpp |  1 +
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/framework/auto_completer.cpp b/framework/auto_completer.cpp
index 0b100a3..94b13a4 100644
--- a/framework/auto_completer.cpp
+++ b/framework/auto_completer.cpp
@@ -153,8 +153,16 @@ void AutoCompleter::complete_(ProcessorPromiseAlternativeSequence& sequence) {
 
                 boost::optional<LayerTagList> unfulfilledRequiredTags;
 
+                boost::optional<std::string> langCode;
+
+                if (theOnlyOneProcessor->languagesHandling() ==
+                        AnnotatorFactory::JUST_ONE_LANGUAGE) {
+                    assert(theOnlyOneProcessor->languagesHandled().size() == 1);
+                    langCode = theOnlyOneProcessor->languagesHandled().front();
+                }
+
                 BOOST_FOREACH(LayerTagList requiredTags, theOnlyOneProcessor->requiredLayerTags()) {
-                    if (!checkRequiredTags_(requiredTags, sequence.begin(), iter)) {
+                    if (!checkRequiredTags_(requiredTags, langCode, sequence.begin(), iter)) {
                         unfulfilledRequiredTags = requiredTags;
                         break;
                     }
@@ -165,14 +173,6 @@ void AutoCompleter::complete_(ProcessorPromiseAlternativeSequence& sequence) {
                              *unfulfilledRequiredTags, ", "));
 
 
-                    boost::optional<std::string> langCode;
-
-                    if (theOnlyOneProcessor->languagesHandling() ==
-                            AnnotatorFactory::JUST_ONE_LANGUAGE) {
-                        assert(theOnlyOneProcessor->languagesHandled().size() == 1);
-                        langCode = theOnlyOneProcessor->languagesHandled().front();
-                    }
-
                     ProcessorPromiseAlternative fulfillers = findFulfillers_(
                         *unfulfilledRequiredTags, langCode);
 
@@ -219,6 +219,7 @@ bool AutoCompleter::isMultilingualProcessorPromiseAlternative_(
 
 bool AutoCompleter::checkRequiredTags_(
     LayerTagList requiredList,
+    boost::optional<std::string> langCode,
     ProcessorPromiseAlternativeSequence::iterator beg,
     ProcessorPromiseAlternativeSequence::iterator end) {
 
@@ -226,7 +227,15 @@ bool AutoCompleter::checkRequiredTags_(
     while (iter != end) {
         assert((*iter)->size() == 1);
         ProcessorPromiseSharedPtr somePrecedingPromise = (*iter)->front();
-        if (isSubset_(requiredList, somePrecedingPromise->providedLayerTags()))
+
+        // tags put on texts of another language are of no use here
+        bool forAnotherLanguage =
+            langCode
+            && somePrecedingPromise->languagesHandling() == AnnotatorFactory::JUST_ONE_LANGUAGE
+            && somePrecedingPromise->languagesHandled().front() != *langCode;
+
+        if (!forAnotherLanguage
+            && isSubset_(requiredList, somePrecedingPromise->providedLayerTags()))
             return true;
 
         ++iter;
diff --git a/framework/auto_completer.hpp b/framework/auto_completer.hpp
index bf0ff8e..e95f5a0 100644
--- a/framework/auto_completer.hpp
+++ b/framework/auto_completer.hpp
@@ -31,6 +31,7 @@ private:
     bool isMultilingualProcessorPromiseAlternative_(ProcessorPromiseAlternative alt);
 
     bool checkRequiredTags_(LayerTagList requiredList,
+                            boost::optional<std::string> langCode,
                             ProcessorPromiseAlternativeSequence::iterator beg,
                             ProcessorPromiseAlternativeSequence::iterator end);
 
-- 
2.43.0

