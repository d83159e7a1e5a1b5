From e190cad44ca1a1c4ae3bc49f3fd305d9f4d58e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 01/24] fix: comparing enum and holder contents looks whether
 they are set

---
 packages/drafter/src/refract/dsd/Enum.cc   | 2 +-
 packages/drafter/src/refract/dsd/Holder.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/drafter/src/refract/dsd/Enum.cc b/packages/drafter/src/refract/dsd/Enum.cc
index abe4dbf..ed7816a 100644
--- a/packages/drafter/src/refract/dsd/Enum.cc
+++ b/packages/drafter/src/refract/dsd/Enum.cc
@@ -54,5 +54,5 @@ Enum& Enum::operator=(Enum rhs)
 
 bool dsd::operator==(const Enum& l, const Enum& r) noexcept
 {
-    return *l.value() == *r.value();
+    return (l.value() == r.value()) || (l.value() && r.value() && *l.value() == *r.value());
 }
diff --git a/packages/drafter/src/refract/dsd/Holder.cc b/packages/drafter/src/refract/dsd/Holder.cc
index 818634f..5625afc 100644
--- a/packages/drafter/src/refract/dsd/Holder.cc
+++ b/packages/drafter/src/refract/dsd/Holder.cc
@@ -53,5 +53,5 @@ Holder& Holder::operator=(Holder rhs)
 
 bool dsd::operator==(const Holder& l, const Holder& r) noexcept
 {
-    return *l.data() == *r.data();
+    return (l.data() == r.data()) || (l.data() && r.data() && *l.data() == *r.data());
 }
-- 
2.43.0


From 26283a0a964595900c0fbff22c6eb2466f167f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 02/24] fix: assigning a Markdown node from one of its own
 descendants reads it before it goes

---
 packages/apib-parser/src/markdown-parser/MarkdownNode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/markdown-parser/MarkdownNode.cc b/packages/apib-parser/src/markdown-parser/MarkdownNode.cc
index 15ea78c..29bb179 100644
--- a/packages/apib-parser/src/markdown-parser/MarkdownNode.cc
+++ b/packages/apib-parser/src/markdown-parser/MarkdownNode.cc
@@ -36,8 +36,8 @@ MarkdownNode& MarkdownNode::operator=(const MarkdownNode& rhs)
     this->text = rhs.text;
     this->data = rhs.data;
     this->sourceMap = rhs.sourceMap;
+    this->m_parent = rhs.m_parent; // before the children go: rhs may be one of them
     this->m_children.reset(::new MarkdownNodes(*rhs.m_children.get()));
-    this->m_parent = rhs.m_parent;
     return *this;
 }
 
-- 
2.43.0


From ce686f594cf2f2fedeac5752d7f6249776b23adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:10 +0000
Subject: [PATCH 03/24] fix: copies of an element's and a type section's source
 map keep its own ranges

---
 packages/apib-parser/src/snowcrash/BlueprintSourcemap.cc | 2 ++
 packages/apib-parser/src/snowcrash/MSONSourcemap.cc      | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/packages/apib-parser/src/snowcrash/BlueprintSourcemap.cc b/packages/apib-parser/src/snowcrash/BlueprintSourcemap.cc
index d974894..1dc2642 100644
--- a/packages/apib-parser/src/snowcrash/BlueprintSourcemap.cc
+++ b/packages/apib-parser/src/snowcrash/BlueprintSourcemap.cc
@@ -55,6 +55,7 @@ SourceMap<Element>::SourceMap(const Element::Class& element_) : element(element_
 
 SourceMap<Element>::SourceMap(const SourceMap<Element>& rhs)
 {
+    this->sourceMap = rhs.sourceMap;
     this->element = rhs.element;
     this->attributes = rhs.attributes;
     this->content = rhs.content;
@@ -63,6 +64,7 @@ SourceMap<Element>::SourceMap(const SourceMap<Element>& rhs)
 
 SourceMap<Element>& SourceMap<Element>::operator=(const SourceMap<Element>& rhs)
 {
+    this->sourceMap = rhs.sourceMap;
     this->element = rhs.element;
     this->attributes = rhs.attributes;
     this->content = rhs.content;
diff --git a/packages/apib-parser/src/snowcrash/MSONSourcemap.cc b/packages/apib-parser/src/snowcrash/MSONSourcemap.cc
index 635e809..8a811b0 100644
--- a/packages/apib-parser/src/snowcrash/MSONSourcemap.cc
+++ b/packages/apib-parser/src/snowcrash/MSONSourcemap.cc
@@ -51,6 +51,7 @@ SourceMap<mson::TypeSection>::SourceMap(
 
 SourceMap<mson::TypeSection>::SourceMap(const SourceMap<mson::TypeSection>& rhs)
 {
+    this->sourceMap = rhs.sourceMap;
     this->description = rhs.description;
     this->value = rhs.value;
     m_elements.reset(::new SourceMap<mson::Elements>(*rhs.m_elements.get()));
@@ -58,6 +59,7 @@ SourceMap<mson::TypeSection>::SourceMap(const SourceMap<mson::TypeSection>& rhs)
 
 SourceMap<mson::TypeSection>& SourceMap<mson::TypeSection>::operator=(const SourceMap<mson::TypeSection>& rhs)
 {
+    this->sourceMap = rhs.sourceMap;
     this->description = rhs.description;
     this->value = rhs.value;
     m_elements.reset(::new SourceMap<mson::Elements>(*rhs.m_elements.get()));
@@ -113,6 +115,7 @@ SourceMap<mson::Element>::SourceMap()
 
 SourceMap<mson::Element>::SourceMap(const SourceMap<mson::Element>& rhs)
 {
+    this->sourceMap = rhs.sourceMap;
     this->property = rhs.property;
     this->value = rhs.value;
     this->mixin = rhs.mixin;
@@ -121,6 +124,7 @@ SourceMap<mson::Element>::SourceMap(const SourceMap<mson::Element>& rhs)
 
 SourceMap<mson::Element>& SourceMap<mson::Element>::operator=(const SourceMap<mson::Element>& rhs)
 {
+    this->sourceMap = rhs.sourceMap;
     this->property = rhs.property;
     this->value = rhs.value;
     this->mixin = rhs.mixin;
-- 
2.43.0


From 88aaeca601c59d9e5fb97687c33f1acc9d99b6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:20 +0000
Subject: [PATCH 04/24] fix: appending to an annotation that is not there yet
 adds the given value, not "fixed"

---
 packages/drafter/src/refract/InfoElementsUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/InfoElementsUtils.h b/packages/drafter/src/refract/InfoElementsUtils.h
index 50a8be4..a111f39 100644
--- a/packages/drafter/src/refract/InfoElementsUtils.h
+++ b/packages/drafter/src/refract/InfoElementsUtils.h
@@ -49,7 +49,7 @@ namespace refract
     {
         auto ta = ie.find(key);
         if (ta == ie.end()) {
-            ie.set(key, make_element<ValueElementType>(from_primitive("fixed")));
+            ie.set(key, make_element<ValueElementType>(make_element<Element<DSDType> >(std::move(value))));
         } else {
             auto arr = TypeQueryVisitor::as<ValueElementType>(ta->second.get());
 
-- 
2.43.0


From 4c308df430bfa3e9ce2f14f4d662cbbc531dce52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:20 +0000
Subject: [PATCH 05/24] fix: cloning annotations into a list replaces entries
 of the same key instead of doubling them

---
 packages/drafter/src/refract/InfoElements.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/packages/drafter/src/refract/InfoElements.cc b/packages/drafter/src/refract/InfoElements.cc
index c3fea90..a46e6f2 100644
--- a/packages/drafter/src/refract/InfoElements.cc
+++ b/packages/drafter/src/refract/InfoElements.cc
@@ -81,11 +81,10 @@ namespace refract
 
     void InfoElements::clone(const InfoElements& other)
     {
-        std::transform(
-            other.begin(), other.end(), std::back_inserter(elements), [](const InfoElements::value_type& el) {
-                assert(el.second);
-                return std::make_pair(el.first, refract::clone(*el.second));
-            });
+        for (const auto& el : other) {
+            assert(el.second);
+            set(el.first, *el.second);
+        }
     }
 
     void InfoElements::erase(const std::string& key)
-- 
2.43.0


From e116d24841dbe0e540ebbd0e1750b468dc369870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:54 +0000
Subject: [PATCH 06/24] fix: finding the root ancestor ends when types name
 each other as parent

---
 packages/drafter/src/refract/Registry.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/Registry.cc b/packages/drafter/src/refract/Registry.cc
index d7a268e..29a0c5f 100644
--- a/packages/drafter/src/refract/Registry.cc
+++ b/packages/drafter/src/refract/Registry.cc
@@ -12,6 +12,7 @@
 #include "Exception.h"
 #include "TypeQueryVisitor.h"
 #include <algorithm>
+#include <set>
 
 using namespace refract;
 
@@ -36,11 +37,13 @@ Registry::Registry() : types_{baseTypeMap()} {}
 const IElement* refract::FindRootAncestor(const std::string& name, const Registry& registry)
 {
     const IElement* parent = registry.find(name);
+    std::set<const IElement*> visited{ parent };
 
     while (parent && !isReserved(parent->element())) {
         const IElement* next = registry.find(parent->element());
 
-        if (!next || (next == parent)) {
+        // no further ancestor, or one seen already: types may name each other
+        if (!next || !visited.insert(next).second) {
             return parent;
         }
 
-- 
2.43.0


From df0998316d3e91579eeb547e95c7280fec550d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:41 +0000
Subject: [PATCH 07/24] fix: sums and products of type sizes too large to count
 are open instead of wrapping around

---
 packages/drafter/src/refract/Cardinal.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/drafter/src/refract/Cardinal.h b/packages/drafter/src/refract/Cardinal.h
index d1aa1f1..dcdaa9a 100644
--- a/packages/drafter/src/refract/Cardinal.h
+++ b/packages/drafter/src/refract/Cardinal.h
@@ -59,16 +59,16 @@ namespace refract
 
     constexpr cardinal operator+(cardinal lhs, cardinal rhs) noexcept
     {
-        return (lhs == cardinal::open() || rhs == cardinal::open()) ? cardinal::open() :
-                                                                      cardinal{ lhs.data() + rhs.data() };
+        return (rhs.data() > cardinal::open().data() - lhs.data()) ? cardinal::open() :
+                                                                     cardinal{ lhs.data() + rhs.data() };
     }
 
     constexpr cardinal operator*(cardinal lhs, cardinal rhs)noexcept
     {
         return (lhs == cardinal::empty() || rhs == cardinal::empty()) ?
             cardinal::empty() :
-            ((lhs == cardinal::open() || rhs == cardinal::open()) ? cardinal::open() :
-                                                                    cardinal{ lhs.data() * rhs.data() });
+            ((lhs.data() > cardinal::open().data() / rhs.data()) ? cardinal::open() :
+                                                                   cardinal{ lhs.data() * rhs.data() });
     }
 }
 
-- 
2.43.0


From 9c7135003c49dd9abc4f45a15fff0f9deb504691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:25 +0000
Subject: [PATCH 08/24] fix: merging array content into an element without
 value keeps the content

---
 packages/drafter/src/refract/dsd/Extend.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/dsd/Extend.cc b/packages/drafter/src/refract/dsd/Extend.cc
index b6949aa..a7acea8 100644
--- a/packages/drafter/src/refract/dsd/Extend.cc
+++ b/packages/drafter/src/refract/dsd/Extend.cc
@@ -162,11 +162,14 @@ namespace
 
         void operator()(T& value, const T& merge) const
         {
-            if (!merge.empty() && !value.empty())
+            if (!merge.empty()) {
+                if (value.empty())
+                    value.set();
                 std::transform(merge.get().begin(),
                     merge.get().end(),
                     std::back_inserter(value.get()),
                     [](const std::unique_ptr<IElement>& e) { return clone(*e); });
+            }
         }
     };
 
-- 
2.43.0


From 693d93de0f2c32d25208db969aa679eb97c8b58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:22 +0000
Subject: [PATCH 09/24] fix: keep byte to character conversions within the
 source

A truncated multi-byte character at the end of the source made
BuildCharacterIndex write past the index; ranges starting at or past the
end of the source were read out of bounds, as was the source behind a
truncated character; a map starting past the source threw; an embedded
NUL left the rest of the source without character positions.
---
 .../src/markdown-parser/ByteBuffer.cc         | 40 +++++++++++++------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/packages/apib-parser/src/markdown-parser/ByteBuffer.cc b/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
index a2b275d..7070fd1 100644
--- a/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
+++ b/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
@@ -20,7 +20,7 @@ static size_t strnlen_utf8(const char* s, size_t len)
         return 0;
 
     size_t i = 0, j = 0;
-    while (s[i] && i < len) {
+    while (i < len) {
         i += UTF8_CHAR_LEN(s[i]);
         j++;
     }
@@ -35,18 +35,22 @@ static CharactersRange BytesRangeToCharactersRange(const BytesRange& bytesRange,
     }
 
     BytesRange workRange = bytesRange;
-    if (bytesRange.location + bytesRange.length > byteBuffer.length()) {
+    if (workRange.location > byteBuffer.length()) {
+        // Past the last byte
+        workRange.location = byteBuffer.length();
+    }
+    if (workRange.length > byteBuffer.length() - workRange.location) {
         // Accomodate maximum possible length
-        workRange.length -= bytesRange.location + bytesRange.length - byteBuffer.length();
+        workRange.length = byteBuffer.length() - workRange.location;
     }
 
     size_t charLocation = 0;
-    if (bytesRange.location > 0)
-        charLocation = strnlen_utf8(byteBuffer.c_str(), bytesRange.location);
+    if (workRange.location > 0)
+        charLocation = strnlen_utf8(byteBuffer.c_str(), workRange.location);
 
     size_t charLength = 0;
-    if (bytesRange.length > 0)
-        charLength = strnlen_utf8(byteBuffer.c_str() + bytesRange.location, bytesRange.length);
+    if (workRange.length > 0)
+        charLength = strnlen_utf8(byteBuffer.c_str() + workRange.location, workRange.length);
 
     CharactersRange characterRange = CharactersRange(charLocation, charLength);
     return characterRange;
@@ -59,9 +63,13 @@ static CharactersRange BytesRangeToCharactersRange(const BytesRange& bytesRange,
     }
 
     BytesRange workRange = bytesRange;
-    if (bytesRange.location + bytesRange.length > index.size()) {
+    if (workRange.location >= index.size()) {
+        // Past the last character
+        return CharactersRange(index[index.size() - 1] + 1, 0);
+    }
+    if (workRange.length > index.size() - workRange.location) {
         // Accomodate maximum possible length
-        workRange.length -= bytesRange.location + bytesRange.length - index.size();
+        workRange.length = index.size() - workRange.location;
     }
 
     size_t charLocation = 0;
@@ -95,12 +103,13 @@ void mdp::BuildCharacterIndex(ByteBufferCharacterIndex& index, const ByteBuffer&
 
     index.resize(byteBuffer.length());
 
-    while (source[pos] && pos < len) {
+    while (pos < len) {
         int charLen = UTF8_CHAR_LEN(source[pos]);
-        pos += charLen;
 
-        while (charLen) {
-            index[pos - charLen] = charPos;
+        // the last character may be truncated
+        while (charLen && pos < len) {
+            index[pos] = charPos;
+            pos++;
             charLen--;
         }
 
@@ -163,6 +172,11 @@ ByteBuffer mdp::MapBytesRangeSet(const BytesRangeSet& rangeSet, const ByteBuffer
     ByteBufferStream s;
     for (BytesRangeSet::const_iterator it = rangeSet.begin(); it != rangeSet.end(); ++it) {
 
+        if (it->location > length) {
+            // Wrong map
+            return ByteBuffer();
+        }
+
         if (it->location + it->length > length) {
             // Sundown adds an extra newline on the source input if needed.
             if (it->location + it->length - length == 1) {
-- 
2.43.0


From f430c3138f613936321744a75839194d39af5468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:22 +0000
Subject: [PATCH 10/24] fix: give a line to positions on the last line and to
 an empty first range

A position on a last line without newline was reported as line 0, and the
end of an empty range at the very beginning was read in front of the
line index.
---
 packages/drafter/src/SourceMapUtils.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/SourceMapUtils.cc b/packages/drafter/src/SourceMapUtils.cc
index 780ca9c..5835915 100644
--- a/packages/drafter/src/SourceMapUtils.cc
+++ b/packages/drafter/src/SourceMapUtils.cc
@@ -18,7 +18,8 @@ namespace drafter
 
         auto annotationPositionIt = std::upper_bound(linesEndIndex.begin(), linesEndIndex.end(), range.location);
 
-        if (annotationPositionIt != linesEndIndex.end()) {
+        // the last line has no following line start
+        if (annotationPositionIt != linesEndIndex.begin()) {
             out.fromLine = std::distance(linesEndIndex.begin(), annotationPositionIt);
             out.fromColumn = range.location - *std::prev(annotationPositionIt) + 1;
         }
@@ -41,6 +42,13 @@ namespace drafter
 
         // end of byte mapping workarround
 
+        if (annotationPositionIt == linesEndIndex.begin()) {
+            // empty range at the very beginning
+            out.toLine = out.fromLine;
+            out.toColumn = out.fromColumn;
+            return out;
+        }
+
         if (annotationPositionIt != linesEndIndex.end()) {
             out.toLine = std::distance(linesEndIndex.begin(), annotationPositionIt);
             out.toColumn = (range.location + range.length) - *(std::prev(annotationPositionIt));
-- 
2.43.0


From fee0690e10a4bcefc1dc98cd6e8eb66198560506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:49 +0000
Subject: [PATCH 11/24] fix: replace malformed UTF-8 sequences when decoding

A byte that does not continue its sequence, a continuation byte without
a first byte and first bytes of five and more were decoded to arbitrary
code points instead of U+FFFD; a stray continuation byte also swallowed
the byte behind it. How many bytes a character has agrees with the
character index of the Markdown parser.
---
 packages/drafter/src/utils/Utf8.h | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/packages/drafter/src/utils/Utf8.h b/packages/drafter/src/utils/Utf8.h
index e5956fe..1997d26 100644
--- a/packages/drafter/src/utils/Utf8.h
+++ b/packages/drafter/src/utils/Utf8.h
@@ -27,6 +27,14 @@ namespace drafter
             constexpr codepoint replacement = 0xFFFD;
             constexpr codepoint invalid = 0xFFFFFFFF;
 
+            ///
+            /// Whether an octet is not the first one of a multi-byte utf8 sequence
+            ///
+            inline bool is_continuation(const char c)
+            {
+                return (static_cast<unsigned char>(c) & 0xC0) == 0x80;
+            }
+
             ///
             /// Decode utf8 codepoint from octet sequence
             ///
@@ -51,6 +59,10 @@ namespace drafter
                     std::advance(first, 1);
 
                     return { cp, first };
+                } else if (cp < 0xC0) { // continuation without a first byte
+                    std::advance(first, 1);
+
+                    return { replacement, first };
                 } else if (cp < 0xE0) { // two bytes
                     if (last - first < 2) {
                         return { replacement, last }; // expected more!
@@ -58,8 +70,12 @@ namespace drafter
 
                     codepoint result = ((cp & 0x1F) << 6) //
                         | (static_cast<unsigned char>(first[1]) & 0x3F);
+                    const bool valid = is_continuation(first[1]);
                     std::advance(first, 2);
 
+                    if (!valid)
+                        return { replacement, first };
+
                     return { result < 0x80 ? replacement : result, first }; // check for oversized
 
                 } else if (cp < 0xF0) { // three bytes
@@ -70,8 +86,12 @@ namespace drafter
                     codepoint result = ((cp & 0x0F) << 12)                     //
                         | ((static_cast<unsigned char>(first[1]) & 0x3F) << 6) //
                         | (static_cast<unsigned char>(first[2]) & 0x3F);
+                    const bool valid = is_continuation(first[1]) && is_continuation(first[2]);
                     std::advance(first, 3);
 
+                    if (!valid)
+                        return { replacement, first };
+
                     if (result >= 0xD800 && result <= 0xDFFF) // surrogates not codepoints
                         return { replacement, first };
 
@@ -85,8 +105,13 @@ namespace drafter
                         | ((static_cast<unsigned char>(first[1]) & 0x3F) << 12) //
                         | ((static_cast<unsigned char>(first[2]) & 0x3F) << 6)  //
                         | (static_cast<unsigned char>(first[3]) & 0x3F);
+                    const bool valid = cp < 0xF8 && is_continuation(first[1]) && is_continuation(first[2])
+                        && is_continuation(first[3]);
                     std::advance(first, 4);
 
+                    if (!valid)
+                        return { replacement, first };
+
                     // check for oversized
                     if (result < 0x10000)
                         return { replacement, first };
-- 
2.43.0


From 5f2cf8f39904ec7fcbb541aea87be52905f72911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:00 +0000
Subject: [PATCH 12/24] fix: the value of a primitive is chosen before its
 containers are moved from

---
 packages/drafter/src/RefractDataStructure.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/packages/drafter/src/RefractDataStructure.cc b/packages/drafter/src/RefractDataStructure.cc
index b7b72fb..8f0ee9f 100644
--- a/packages/drafter/src/RefractDataStructure.cc
+++ b/packages/drafter/src/RefractDataStructure.cc
@@ -678,18 +678,20 @@ namespace
                 return;
             }
 
+            const bool noValues = data.values.empty();
+
             auto inlines = Merge<T>()(std::move(data.inlines));
             auto values = Merge<T>()(std::move(data.values));
 
-            auto result = data.values.empty() ? LiteralTo<typename T::ValueType>(inlines.value) :
-                                                LiteralTo<typename T::ValueType>(values.value);
+            auto result = noValues ? LiteralTo<typename T::ValueType>(inlines.value) :
+                                     LiteralTo<typename T::ValueType>(values.value);
 
             // if(result.first) // FIXME: @tjanc@ uncomment to be specification compliant
             element.set(result.second);
 
             // FIXME: refactoring adept - AttachSourceMap require NodeInfo, let it pass for now
             AttachSourceMap(
-                element, MakeNodeInfo(result.second, data.values.empty() ? inlines.sourceMap : values.sourceMap));
+                element, MakeNodeInfo(result.second, noValues ? inlines.sourceMap : values.sourceMap));
         }
     };
 
-- 
2.43.0


From 9ff390233c85ce0a7d49995c46b66b8163103679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:00 +0000
Subject: [PATCH 13/24] fix: adding a sample to existing ones replaced them and
 used the list replaced

---
 packages/drafter/src/refract/ElementUtils.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/packages/drafter/src/refract/ElementUtils.cc b/packages/drafter/src/refract/ElementUtils.cc
index 819844a..3ae8115 100644
--- a/packages/drafter/src/refract/ElementUtils.cc
+++ b/packages/drafter/src/refract/ElementUtils.cc
@@ -234,7 +234,6 @@ void refract::addSample(IElement& e, std::unique_ptr<IElement> sample)
             assert(false);
         }
         LOG(info) << "adding new sample";
-        e.attributes().set("samples", make_element<ArrayElement>(std::move(sample)));
         samples->get().push_back(std::move(sample));
     } else {
         LOG(error) << "expected samples to be held in Array Element content";
-- 
2.43.0


From f8e7056edc1873611cdb6e2b3250634258219b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:58 +0000
Subject: [PATCH 14/24] fix: removing a duplicate parameter used its iterator
 after erasing it

---
 packages/apib-parser/src/snowcrash/ParametersParser.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/apib-parser/src/snowcrash/ParametersParser.h b/packages/apib-parser/src/snowcrash/ParametersParser.h
index 7cd9e21..20bb498 100644
--- a/packages/apib-parser/src/snowcrash/ParametersParser.h
+++ b/packages/apib-parser/src/snowcrash/ParametersParser.h
@@ -161,12 +161,12 @@ namespace snowcrash
             ParameterIterator& parameter, SectionParserData& pd, const ParseResultRef<Parameters>& out)
         {
 
-            out.node.erase(parameter);
-
             if (pd.exportSourceMap()) {
                 size_t parameterIndex = parameter - out.node.begin();
                 out.sourceMap.collection.erase(out.sourceMap.collection.begin() + parameterIndex);
             }
+
+            out.node.erase(parameter);
         }
     };
     
-- 
2.43.0


From 5df4800bd7b4565bbe3de53ce56112da81e5d618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:24 +0000
Subject: [PATCH 15/24] fix: ask whether an enum with content holds a value
 before expanding it

---
 packages/drafter/src/refract/IsExpandableVisitor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/IsExpandableVisitor.cc b/packages/drafter/src/refract/IsExpandableVisitor.cc
index c6a63c4..43bafc5 100644
--- a/packages/drafter/src/refract/IsExpandableVisitor.cc
+++ b/packages/drafter/src/refract/IsExpandableVisitor.cc
@@ -133,7 +133,7 @@ namespace refract
                 if (checkElement(e))
                     return true;
 
-                if (!e->empty()) {
+                if (!e->empty() && e->get().value()) {
                     IsExpandableVisitor v;
                     VisitBy(*e->get().value(), v);
                     if (v.get())
-- 
2.43.0


From 30ee23830c838aae640d666effcee254e3c09719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:24 +0000
Subject: [PATCH 16/24] fix: skip members without a value when rendering JSON
 values and schemas

---
 packages/drafter/src/refract/JsonSchema.cc | 5 +++++
 packages/drafter/src/refract/JsonValue.cc  | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/packages/drafter/src/refract/JsonSchema.cc b/packages/drafter/src/refract/JsonSchema.cc
index 6b05d82..7b659ba 100644
--- a/packages/drafter/src/refract/JsonSchema.cc
+++ b/packages/drafter/src/refract/JsonSchema.cc
@@ -704,6 +704,11 @@ namespace
         const auto v = e.get().value();
 
         assert(k);
+        if (!v) {
+            LOG(error) << "skipping Member Element without value in backend";
+            return;
+        }
+
         if (isVariable(e)) {
 
             if (const auto& extKey = get<const ExtendElement>(k)) {
diff --git a/packages/drafter/src/refract/JsonValue.cc b/packages/drafter/src/refract/JsonValue.cc
index a8c0005..5d43bae 100644
--- a/packages/drafter/src/refract/JsonValue.cc
+++ b/packages/drafter/src/refract/JsonValue.cc
@@ -366,6 +366,10 @@ namespace
         const auto* elementValue = element.get().value();
 
         assert(elementKey);
+        if (!elementValue) {
+            LOG(error) << "skipping member element without value in backend";
+            return;
+        }
 
         if (hasOptionalTypeAttr(element))
             if (!definesValue(*elementValue)) {
-- 
2.43.0


From 63c068f731984e6b8644a1f9d18dbd1b2f8cdea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:47 +0000
Subject: [PATCH 17/24] fix: do not read through a failed cast when comparing
 elements of one name but two kinds

---
 packages/drafter/src/ElementComparator.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/ElementComparator.h b/packages/drafter/src/ElementComparator.h
index 6828fb5..16b3086 100644
--- a/packages/drafter/src/ElementComparator.h
+++ b/packages/drafter/src/ElementComparator.h
@@ -119,10 +119,12 @@ namespace drafter
             template <typename ElementT>
             bool operator()(const ElementT& lhs) const
             {
+                const auto* other = dynamic_cast<const ElementT*>(&rhs);
+
                 return (lhs.empty() == rhs.empty()) && (lhs.element() == rhs.element())
                     && ignoreMeta(rhs.meta(), lhs.meta()) 
                     && ignoreAttrs(rhs.attributes(), lhs.attributes()) 
-                    && (lhs.empty() || (lhs.get() == dynamic_cast<const ElementT*>(&rhs)->get()));
+                    && (lhs.empty() || (other && lhs.get() == other->get()));
             }
         };
     } // namespace detail
-- 
2.43.0


From fdf72d5a677e0596b9709b8ac935d73505b4b03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:14 +0000
Subject: [PATCH 18/24] fix: quote YAML keys that unquoted are null or a
 boolean

---
 packages/drafter/src/utils/so/YamlIo.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/drafter/src/utils/so/YamlIo.cc b/packages/drafter/src/utils/so/YamlIo.cc
index ca3afb6..e32f768 100644
--- a/packages/drafter/src/utils/so/YamlIo.cc
+++ b/packages/drafter/src/utils/so/YamlIo.cc
@@ -27,6 +27,11 @@ namespace
 
     bool is_alphanum_dash(const std::string& str)
     {
+        // unquoted these are no text, but null or a boolean
+        if (str.empty() || str == "null" || str == "Null" || str == "NULL" || str == "true" || str == "True"
+            || str == "TRUE" || str == "false" || str == "False" || str == "FALSE")
+            return false;
+
         for (char c : str)
             if (c < 'A' || c > 'z' || (c > 'Z' && c < 'a') || c == '-')
                 return false;
-- 
2.43.0


From 46f6f61514c225f777f7c2e0c2b174b1184c01a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:54 +0000
Subject: [PATCH 19/24] fix: keep the attributes of a select when its options
 are expanded

---
 packages/drafter/src/refract/ExpandVisitor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/drafter/src/refract/ExpandVisitor.cc b/packages/drafter/src/refract/ExpandVisitor.cc
index 561bea4..7e18b5f 100644
--- a/packages/drafter/src/refract/ExpandVisitor.cc
+++ b/packages/drafter/src/refract/ExpandVisitor.cc
@@ -333,6 +333,7 @@ namespace refract
             auto o = make_element<T>();
             auto& content = o->get();
 
+            o->attributes() = e.attributes();
             o->meta() = e.meta(); // clone
 
             for (const auto& opt : e.get()) {
-- 
2.43.0


From e56e274d87ea963028b1c78b4114d75ae00e7747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:03 +0000
Subject: [PATCH 20/24] fix: release the expression and the matches when
 RegexCapture is interrupted by an exception

---
 .../src/snowcrash/posix/RegexMatch.cc         | 35 ++++++++-----------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/packages/apib-parser/src/snowcrash/posix/RegexMatch.cc b/packages/apib-parser/src/snowcrash/posix/RegexMatch.cc
index 15ae29e..1ff2068 100644
--- a/packages/apib-parser/src/snowcrash/posix/RegexMatch.cc
+++ b/packages/apib-parser/src/snowcrash/posix/RegexMatch.cc
@@ -7,7 +7,7 @@
 //
 
 #include <regex.h>
-#include <cstring>
+#include <vector>
 #include "../RegexMatch.h"
 
 // FIXME: Migrate to C++11.
@@ -60,32 +60,27 @@ bool snowcrash::RegexCapture(
     captureGroups.clear();
 
     try {
+        // allocated before the expression is compiled: nothing is left behind if it throws
+        std::vector<regmatch_t> pmatch(groupSize);
+
         regex_t regex;
         int reti = ::regcomp(&regex, expression.c_str(), REG_EXTENDED);
         if (reti)
             return false;
 
-        regmatch_t* pmatch = ::new regmatch_t[groupSize];
-        ::memset(pmatch, 0, sizeof(regmatch_t) * groupSize);
-
-        reti = ::regexec(&regex, target.c_str(), groupSize, pmatch, 0);
-        if (!reti) {
-            ::regfree(&regex);
-
-            for (size_t i = 0; i < groupSize; ++i) {
-                if (pmatch[i].rm_so == -1 || pmatch[i].rm_eo == -1)
-                    captureGroups.push_back(std::string());
-                else
-                    captureGroups.push_back(std::string(target, pmatch[i].rm_so, pmatch[i].rm_eo - pmatch[i].rm_so));
-            }
-
-            delete[] pmatch;
-            return true;
-        } else {
-            ::regfree(&regex);
-            delete[] pmatch;
+        reti = ::regexec(&regex, target.c_str(), groupSize, pmatch.data(), 0);
+        ::regfree(&regex);
+        if (reti)
             return false;
+
+        for (size_t i = 0; i < groupSize; ++i) {
+            if (pmatch[i].rm_so == -1 || pmatch[i].rm_eo == -1)
+                captureGroups.push_back(std::string());
+            else
+                captureGroups.push_back(std::string(target, pmatch[i].rm_so, pmatch[i].rm_eo - pmatch[i].rm_so));
         }
+
+        return true;
     } catch (...) {
     }
 
-- 
2.43.0


From 4ca5689bfcfe0182151ab5e18973f13715854b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:04 +0000
Subject: [PATCH 21/24] fix: release the serialize options when there is no
 result

---
 packages/drafter/src/main.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/drafter/src/main.cc b/packages/drafter/src/main.cc
index 55071f1..02f1a33 100644
--- a/packages/drafter/src/main.cc
+++ b/packages/drafter/src/main.cc
@@ -45,6 +45,7 @@ int ProcessRefract(const Config& config, std::unique_ptr<std::istream>& in, std:
     drafter_free_parse_options(parseOptions);
 
     if (!result) {
+        drafter_free_serialize_options(options);
         return -1;
     }
 
-- 
2.43.0


From 5803705dc6aed04231260413659af1dcae2b67e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:22 +0000
Subject: [PATCH 22/24] fix: leave the output file alone while only validating

---
 packages/drafter/src/main.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/main.cc b/packages/drafter/src/main.cc
index 02f1a33..c44e025 100644
--- a/packages/drafter/src/main.cc
+++ b/packages/drafter/src/main.cc
@@ -74,7 +74,9 @@ int main(int argc, const char* argv[])
     ParseCommadLineOptions(argc, argv, config);
 
     std::unique_ptr<std::istream> in(CreateStreamFromName<std::istream>(config.input));
-    std::unique_ptr<std::ostream> out(CreateStreamFromName<std::ostream>(config.output));
+    // nothing is written while validating: do not create or truncate the output file
+    std::unique_ptr<std::ostream> out(
+        CreateStreamFromName<std::ostream>(config.validate ? std::string() : config.output));
 
     return ProcessRefract(config, in, out);
 }
-- 
2.43.0


From ef050b0067e52fd658001f3a7e15c3fe0dedc641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:55 +0000
Subject: [PATCH 23/24] fix: find a member by its key

---
 packages/drafter/src/refract/ComparableVisitor.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/drafter/src/refract/ComparableVisitor.h b/packages/drafter/src/refract/ComparableVisitor.h
index 19eabeb..317872b 100644
--- a/packages/drafter/src/refract/ComparableVisitor.h
+++ b/packages/drafter/src/refract/ComparableVisitor.h
@@ -10,6 +10,7 @@
 
 #include "ElementFwd.h"
 #include "ElementIfc.h"
+#include "dsd/String.h"
 #include <string>
 
 namespace refract
@@ -32,6 +33,11 @@ namespace refract
             return first == second;
         }
 
+        bool IsEqual(const std::string& first, const dsd::String& second)
+        {
+            return first == second.get();
+        }
+
     public:
         enum
         {
-- 
2.43.0


From 64e8c750c9a0955daa0c2fa045c22893feb9d44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:06 +0000
Subject: [PATCH 24/24] fix: give a property mixed in again once in a JSON
 schema

A member given by an object and by what is mixed into it was put twice
into "properties" and "required", whose entries have to be unique.
---
 packages/drafter/src/refract/JsonSchema.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/drafter/src/refract/JsonSchema.cc b/packages/drafter/src/refract/JsonSchema.cc
index 7b659ba..80d631b 100644
--- a/packages/drafter/src/refract/JsonSchema.cc
+++ b/packages/drafter/src/refract/JsonSchema.cc
@@ -739,10 +739,10 @@ namespace
         } else {
             auto strKey = key(e);
 
-            s.properties.data.emplace_back(strKey, makeSchema(*v, passFlags(options)));
+            emplace_unique(s.properties, strKey, makeSchema(*v, passFlags(options)));
 
             if (options.test(REQUIRED_FLAG))
-                s.required.data.emplace_back(so::String{ strKey });
+                so::emplace_unique(s.required, so::String{ strKey });
         }
     }
 
-- 
2.43.0

